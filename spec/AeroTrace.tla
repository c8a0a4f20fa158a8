------------------------------ MODULE AeroTrace ------------------------------
(* Replays aerodynamic evaluations (Eval), drag build-ups changed one input  *)
(* or option at a time (changed, prev) and wave drag programs (step, prev).  *)
EXTENDS AeroLaws
VARIABLE l
e == Trace[l]
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE e.ev = "Eval" -> Report(e.sid, AeroLaw(e) \o (IF Has(e, "changed") THEN Unmoved(e) ELSE Ok) \o (IF Has(e, "step") THEN WaveStep(e) ELSE Ok))
             [] e.ev = "Unset" -> Report(e.sid, Unset(e))
             [] e.ev = "Exc" -> Report(e.sid, << <<"a legal program runs", e.what>> >>)
             [] OTHER -> TRUE
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
