------------------------------ MODULE AtmosLaws ------------------------------
(* The 1976 standard atmosphere as the library uses it: linear temperature   *)
(* up to 11 km, isothermal above, joined between 10.5 and 11.5 km by the     *)
(* cubic that matches values and slopes of both sides.                       *)
EXTENDS F64, Integers, Sequences
T0 == "288.16"
Lapse == "0.0065"
Ts == "216.65"
P0 == 101325
PExp == "5.2561"
Pt == 22632
Rp == 288           \* gas constant in the stratospheric pressure law
g == "9.81"
Rair == "287.058"
RhoSL == "1.225"
Hlo == 10500
Hhi == 11500
\* the cubic through (Hlo, a) and (Hhi, b) with slopes sa and sb there
Hermite(h, a, b, sa, sb) ==
    LET d == Hhi - Hlo
        t == (h -- Hlo) // d
        t2 == t ** t
        t3 == t2 ** t
        h00 == (((2 ** t3) -- (3 ** t2)) ++ 1)
        h10 == ((t3 -- (2 ** t2)) ++ t)
        h01 == ((3 ** t2) -- (2 ** t3))
        h11 == (t3 -- t2)
    IN (((h00 ** a) ++ (h10 ** (d ** sa))) ++ (h01 ** b)) ++ (h11 ** (d ** sb))
DHermite(h, a, b, sa, sb) ==
    LET d == Hhi - Hlo
        t == (h -- Hlo) // d
        t2 == t ** t
        g00 == ((6 ** t2) -- (6 ** t)) // d
        g10 == ((3 ** t2) -- (4 ** t)) ++ 1
        g11 == (3 ** t2) -- (2 ** t)
    IN (((g00 ** a) ++ (g10 ** sa)) -- (g00 ** b)) ++ (g11 ** sb)
Bands(h, tropo, join, strato) == FWhere(FStepLe(h, Hlo), tropo, FWhere(FStepLe(h, Hhi), join, strato))

TropT(h) == T0 -- (Lapse ** h)
Temp(h) == Bands(h, TropT(h), Hermite(h, TropT(Hlo), Ts, FNeg(Lapse), 0), FRep(Ts, Len(h)))
DTemp(h) == Bands(h, FRep(FNeg(Lapse), Len(h)), DHermite(h, TropT(Hlo), Ts, FNeg(Lapse), 0), FRep(0, Len(h)))

TropP(h) == P0 ** ((1 -- ((Lapse ** h) // T0)) ^^ PExp)
DTropP(h) == ((P0 ** PExp) ** FNeg(Lapse // T0)) ** ((1 -- ((Lapse ** h) // T0)) ^^ (PExp -- 1))
StratP(h) == Pt ** FExp((FNeg(g) ** (h -- 11000)) // (Rp ** Ts))
DStratP(h) == StratP(h) ** (FNeg(g) // (Rp ** Ts))
Press(h) == Bands(h, TropP(h), Hermite(h, TropP(Hlo), StratP(Hhi), DTropP(Hlo), DStratP(Hhi)), StratP(h))
DPress(h) == Bands(h, DTropP(h), DHermite(h, TropP(Hlo), StratP(Hhi), DTropP(Hlo), DStratP(Hhi)), DStratP(h))

Rho(p, T) == p // (Rair ** T)
Sound(T) == FSqrt(("1.4" ** Rair) ** T)
Utrue(Ueas, rho) == Ueas ** FSqrt(RhoSL // rho)
Ueas(U, rho) == U ** FSqrt(rho // RhoSL)
Mach(U, a) == U // a
Q(rho, U) == ("0.5" ** rho) ** (U ** U)

\* the true standard (geopotential, 288.15 K, g0 = 9.80665, R = 287.0528), for comparison
IsaT(h) == FMax("288.15" -- ("0.0065" ** h), "216.65")
IsaP(h) == FWhere(FStepLe(h, 11000), 101325 ** ((1 -- (("0.0065" ** h) // "288.15")) ^^ "5.255877"),
                  "22632.06" ** FExp((FNeg("9.80665") ** (h -- 11000)) // ("287.0528" ** "216.65")))
=============================================================================
