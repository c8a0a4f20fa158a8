----------------------------- MODULE ThermalTrace -----------------------------
(* Replays thermal components one at a time (Eval) and coolant networks      *)
(* built of them (Net: a stream in, streams out, and the heat each element   *)
(* reports).                                                                 *)
EXTENDS ThermalLaws
VARIABLE l
e == Trace[l]
Total(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN "0" ELSE F[i - 1] ++ s[i] IN F[Len(s)]
Net == LET mo == [i \in 1..Len(e.out) |-> e.out[i].m]
           ho == [i \in 1..Len(e.out) |-> e.out[i].m ** e.out[i].T]
       IN NearN(Total(mo), e.m, "1e-11", 0, "a network conserves coolant")
       \o NearN(Total(ho), (e.m ** e.T) ++ (Total(e.q) // e.cp), "1e-10", 0, "a network's coolant carries away exactly the heat given to it")
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE e.ev = "Eval" -> Report(e.sid, ThermalLaw(e))
             [] e.ev = "Net" -> Report(e.sid, Net)
             [] e.ev = "Solves" -> Report(e.sid, Solves(e))
             [] e.ev = "Unset" -> Report(e.sid, Unset(e))
             [] e.ev = "Exc" -> Report(e.sid, << <<"a legal program runs", e.what>> >>)
             [] OTHER -> TRUE
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
