------------------------------ MODULE AeroLaws ------------------------------
(* Lift, drag polar, stall, maximum lift, parasite drag build-ups and wave   *)
(* drag as documented.                                                       *)
EXTENDS LawLib, AeroBook
V(e, n) == IF Has(e.x, n) THEN e.x[n] ELSE e.y[n]
S(e) == X(e, "ac|geom|wing|S_ref")
Deg(v) == v // (Pi // 180)
\* ---- forces
LiftLaw(e) == Near(Y(e, "lift"), (X(e, "fltcond|q") ** S(e)) ** X(e, "fltcond|CL"), R9, 0, "lift is dynamic pressure times area times lift coefficient")
PolarLaw(e) == Near(Y(e, "drag"), (X(e, "fltcond|q") ** S(e)) ** (X(e, "CD0") ++ ((X(e, "fltcond|CL") ^^ 2) // (Pi ** (X(e, "e") ** X(e, "ac|geom|wing|AR"))))), R9, 0, "drag polar")
StallLaw(e) == Near(FProd(<<"0.5", "1.225", (Y(e, "Vstall_eas") ^^ 2)[1], S(e)[1], X(e, "CLmax")[1]>>), X(e, "weight") ** Grav, R9, 0, "maximum lift at stall speed carries the weight")
\* ---- maximum lift
CleanLaw(e) == Near(Y(e, "CL_max_clean"), FProd(<<Opt(e, "fudge_factor", 1), "0.9", X(e, "ac|aero|airfoil_Cl_max")[1], FCos(X(e, "ac|geom|wing|c4sweep"))[1]>>), R9, 0, "clean maximum lift")
FlapLaw(e) ==
    LET tc == X(e, "ac|geom|wing|toverc")
        c == FCos(X(e, "ac|geom|wing|c4sweep"))
        d == Deg(X(e, "flap_extension"))
        base == (((1 ++ ("2.33" ** tc)) -- ("77.9" ** (tc ^^ 2))) ++ (1120 ** (tc ^^ 3))) -- (3430 ** (tc ^^ 4))
        k1 == 4 ** Opt(e, "flap_chord_frac", "0.2")
        k2 == ("0.4" ++ ("0.0234" ** d)) -- ("2.04e-4" ** (d ^^ 2))
        k3 == ("1.36" ** k2) -- ("0.389" ** (k2 ^^ 2))
        flaps == FProd(<<base[1], k1, k2[1], k3[1], Opt(e, "wing_area_flapped_frac", "0.9"), (1 -- ("0.08" ** (c ^^ 2)))[1], (c ^^ "0.75")[1]>>)
        slats == FProd(<<"7.11", Opt(e, "slat_chord_frac", "0.1"), Opt(e, "slat_span_frac", "0.8") ^^ 2, (c ^^ 2)[1]>>)
    IN Near(Y(e, "CL_max_flap"), Opt(e, "fudge_factor", 1) ** ((X(e, "CL_max_clean") ++ flaps) ++ slats), R9, 0, "maximum lift with flaps and slats")
\* ---- parasite drag
Visc(T) == ("1.458e-6" ** (T ^^ "1.5")) // (T ++ "100.4")
Turb(Re) == "0.523" // (FLog("0.06" ** Re) ^^ 2)
Friction(U, rho, T, L, lam) ==
    LET Re == ((U ** rho) ** L) // Visc(T)
        RL == Re ** lam
    IN IF FLt(0, lam) THEN Turb(Re) ++ (((("1.32824" // FSqrt(RL))) -- Turb(RL)) ** lam) ELSE Turb(Re)
Cf(e, L, lam) == Friction(X(e, "fltcond|Utrue"), X(e, "fltcond|rho"), X(e, "fltcond|T"), L, lam)
FusForm(e) == LET f == X(e, "ac|geom|fuselage|length") // X(e, "ac|geom|fuselage|height") IN Opt(e, "Q_fuselage", 1) ** ((1 ++ ("2.2" // f)) ++ ("3.8" // (f ^^ 3)))
WingForm(tc, Q) == Q ** ((1 ++ ("2.7" ** tc)) ++ (100 ** (tc ^^ 4)))
Mac(area, AR, tp) == (("2" // "3") ** ((2 ** area) // (FSqrt(area ** AR) ** (1 ++ tp)))) ** (((1 ++ tp) ++ (tp ^^ 2)) // (1 ++ tp))
G(e, s, n) == X(e, "ac|geom|" \o s \o "|" \o n)
SurfCD(e, s, Q) == ((2 ** WingForm(G(e, s, "toverc"), Q)) ** Cf(e, Mac(G(e, s, "S_ref"), G(e, s, "AR"), G(e, s, "taper")), Opt(e, s \o "_laminar_frac", "0.15"))) ** (G(e, s, "S_ref") // S(e))
FlapCD(e, d, flapped) == LET c == Opt(e, "flap_chord_frac", "0.2")
                             q == (("5.75e-4" ** (c ^^ 2)) -- ("7.45e-5" ** c)) ++ "1.23e-5"
    IN FProd(<<q, (Deg(d) ^^ 2)[1], FCos(X(e, "ac|geom|wing|c4sweep"))[1], Opt(e, "wing_area_flapped_frac", flapped), Opt(e, "Q_flap", "1.25")>>)
Part(e, bwb, p) ==
    CASE p = "fuselage" -> (FusForm(e) ** Cf(e, X(e, "ac|geom|fuselage|length"), Opt(e, "fuselage_laminar_frac", 0))) ** (X(e, "ac|geom|fuselage|S_wet") // S(e))
      [] p \in {"hstab", "vstab"} -> SurfCD(e, p, Opt(e, "Q_tail", "1.05"))
      [] p = "wing" -> SurfCD(e, p, Opt(e, "Q_wing", 1))
      [] p = "nacelle" -> ((Opt(e, "FF_nacelle", "1.5") ** Cf(e, X(e, "ac|geom|nacelle|length"), Opt(e, "nacelle_laminar_frac", 0))) ** X(e, "ac|propulsion|num_engines")) ** (X(e, "ac|geom|nacelle|S_wet") // S(e))
      [] p = "flap" -> FlapCD(e, X(e, "ac|aero|takeoff_flap_deg"), IF bwb THEN 0 ELSE "0.9")
      [] p = "gear" -> IF bwb THEN "0.01" ELSE "0.02"
Family(e) == (IF e.c = "ParasiteDragCoefficient_BWB" THEN "bwb" ELSE IF Opt(e, "include_wing", TRUE) THEN "jet" ELSE "tails") \o " " \o Opt(e, "configuration", "clean")
BuildUp(e) == LET f == Family(e)
                  bwb == e.c = "ParasiteDragCoefficient_BWB"
                  items == [p \in Parts(f) |-> Part(e, bwb, p)]
                  sum == FoldSet(LAMBDA p, a : a ++ items[p], 0, Parts(f))
    IN Near(Y(e, "CD0"), Opt(e, "drag_fudge_factor", 1) ** sum, R9, 0, "parasite drag is the sum of the contributions of the configuration")
Unmoved(e) == Chk(e.changed \in Needs(Family(e)) \/ FSame(e.y["CD0"], e.prev["CD0"]), "an option of what the configuration lacks does not count", [changed |-> e.changed])
FormLaw(e) == IF e.c = "FuselageFormFactor_JetTransport" THEN Near(Y(e, "FF_fuselage"), FusForm(e), R9, 0, "fuselage form factor")
              ELSE Near(Y(e, "FF_wing"), WingForm(X(e, "toverc"), Opt(e, "Q", 1)), R9, 0, "lifting surface form factor")
FrictionLaw(e) == Near(Y(e, "Cf"), Cf(e, X(e, "L"), Opt(e, "laminar_frac", 0)), R9, 0, "skin friction coefficient")
FlapDragLaw(e) == Near(Y(e, "CD_flap"), FlapCD(e, X(e, "flap_extension"), "0.9"), R9, 0, "flap drag")
\* ---- wave drag of the sections from idx_sec_start to idx_sec_end
Lo(e) == 1 + Opt(e, "idx_sec_start", 0)
Hi(e) == LET i == Opt(e, "idx_sec_end", "all") IN IF ToString(i) = "\"all\"" THEN Len(X(e, "chord_sec")) ELSE 1 + i
Mean(e) == LET c == X(e, "chord_sec") t == X(e, "toverc_sec") y == X(e, "y_sec") \o <<"0">>
               P == [k \in 1..(Hi(e) - Lo(e)) |-> Lo(e) + k - 1]
               area == [k \in DOMAIN P |-> (y[P[k] + 1] -- y[P[k]]) ** ((c[P[k]] ++ c[P[k] + 1]) ** "0.5")]
               mom == [k \in DOMAIN P |-> LET i == P[k] IN ((y[i + 1] -- y[i]) ** (((2 ** (t[i] ** c[i])) ++ (2 ** (t[i + 1] ** c[i + 1]))) ++ ((t[i] ** c[i + 1]) ++ (t[i + 1] ** c[i])))) // 6]
           IN [area |-> 2 ** FSum(area), tc |-> FSum(mom) // FSum(area)]
Wave(e, m) ==
    LET cs == FCos(X(e, "c4sweep"))
        crit == (((Opt(e, "airfoil_tech_level", "0.95") // cs) -- (m.tc // (cs ^^ 2))) -- (X(e, "fltcond|CL") // (10 ** (cs ^^ 3)))) -- (("0.1" // 80) ^^ ("1" // "3"))
    IN X(e, "fltcond|M") -- crit
\* the excess Mach number behind a drag coefficient
Excess(cd) == (cd // 40) ^^ "0.25"
WaveLaw(e) ==
    LET m == Mean(e)
        raw == Wave(e, m)
        w == FMax(raw, 0)
        zero == Each(Len(w), LAMBDA i : Chk(FLt("-2e-6", raw[i]) \/ FEq(Y(e, "CD_wave")[i], 0), "no wave drag below the critical Mach number", [node |-> i, recorded |-> Y(e, "CD_wave")[i]]))
    IN IF ~Has(e.x, "S_ref") THEN Near(Excess(Y(e, "CD_wave")), w, R9, "2e-6", "wave drag by the Korn relation") \o zero
       ELSE LET r == X(e, "S_ref") // m.area
                right == Y(e, "CD_wave") ** r
                inverted == Y(e, "CD_wave") // r
            IN (IF FClose(Excess(right), w, R9, "2e-6") THEN Ok
                ELSE Near(Excess(inverted), w, R9, "2e-6", "wave drag by the Korn relation")
                     \o << <<"wave drag coefficient refers to the given reference area", [recorded |-> Y(e, "CD_wave"), specified |-> FDiv(Y(e, "CD_wave"), r ** r)]>> >>) \o zero
Up == {"Faster", "Load", "Thicken"}
Down == {"Slower", "Unload", "Thin", "Retech"}
WaveStep(e) == LET a == e.y["CD_wave"] b == e.prev["CD_wave"] IN
    Chk((e.step \in Up => FAllLe(b, a)) /\ (e.step \in Down => FAllLe(a, b)), "wave drag grows with speed, lift and thickness and falls with technology", [step |-> e.step, before |-> b, after |-> a])
    \o Chk(e.step # "Outside" \/ FSame(a, b), "sections outside the region do not count", [before |-> b, after |-> a])
AeroLaw(e) == CASE e.c = "Lift" -> LiftLaw(e)
    [] e.c = "PolarDrag" -> PolarLaw(e)
    [] e.c = "StallSpeed" -> StallLaw(e)
    [] e.c = "CleanCLmax" -> CleanLaw(e)
    [] e.c = "FlapCLmax" -> FlapLaw(e)
    [] e.c \in {"FuselageFormFactor_JetTransport", "WingFormFactor_JetTransport"} -> FormLaw(e)
    [] e.c = "SkinFrictionCoefficient_JetTransport" -> FrictionLaw(e)
    [] e.c = "FlapDrag_JetTransport" -> FlapDragLaw(e)
    [] e.c \in {"ParasiteDragCoefficient_JetTransport", "ParasiteDragCoefficient_BWB"} -> BuildUp(e)
    [] e.c = "WaveDragFromSections" -> WaveLaw(e)
=============================================================================
