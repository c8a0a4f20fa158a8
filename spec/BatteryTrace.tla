----------------------------- MODULE BatteryTrace -----------------------------
(* Replays recorded battery missions.  Run: phases with their duration, load *)
(* and charge histories; Eq: end charges of the same discharge cut in        *)
(* different ways.                                                           *)
EXTENDS TraceLib, Quadrature
VARIABLE l
e == Trace[l]
Energy == e.weight ** e.senergy
RECURSIVE Start(_)
Charge(k) == LET f == e.phases[k]
                 n == Len(f.load)
             IN Hist("simpson", Start(k), FNeg(f.load // Energy), IF n = 1 THEN 1 ELSE f.dur // (n - 1))
Start(k) == IF e.phases[k].link THEN LET h == Charge(k - 1) IN h[Len(h)] ELSE e.phases[k].soc0
Phase(k) == LET f == e.phases[k]
                at == "1e-11" ** FMaxOf(<<1, FMaxOf(FAbs(f.load)) ** (f.dur // Energy)>>)
            IN Near(f.soc[1], Start(k), 0, at, IF f.link THEN "a linked battery starts at the charge the previous phase left" ELSE "charge starts at its initial value")
            \o Near(f.soc, Charge(k), "1e-10", at, "charge is the initial value minus drawn energy over total energy")
            \o Near(f.socf, f.soc[Len(f.soc)], 0, "1e-14", "final charge is the last node")
            \o Near(f.maxe, Energy, "1e-10", 0, "total energy is weight times specific energy")
            \o Near(f.heat, (1 -- e.eff) ** f.load, "1e-10", "1e-8", "battery heat is the lost share of its load")
\* the load of the whole discharge is c0 + c1 t + c2 t^2 + c3 t^3
Drawn(t) == FSum([i \in 1..Len(e.poly) |-> (e.poly[i] ** FPow(t, i)) // i])
Exact == IF e.poly = <<>> THEN Ok
         ELSE LET T == FSum([k \in 1..Len(e.phases) |-> e.phases[k].dur])
              IN Near(e.phases[Len(e.phases)].socf, e.phases[1].soc0 -- (Drawn(T) // Energy), 0, "1e-9" ** FMaxOf(<<1, FAbs(Drawn(T)) // Energy>>), "end charge is independent of how the discharge is cut into phases")
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE e.ev = "Run" -> Report(e.sid, Each(Len(e.phases), Phase) \o Exact)
             [] e.ev = "Exc" -> Report(e.sid, << <<"a legal program runs", e.what>> >>)
             [] OTHER -> TRUE
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
