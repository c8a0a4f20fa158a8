----------------------------- MODULE WeightTrace -----------------------------
(* Replays weight and cost parts (Eval) and design changes made one input at *)
(* a time (Eval with what changed and the items before).                     *)
EXTENDS WeightLaws
VARIABLE l
e == Trace[l]
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE e.ev = "Eval" -> Report(e.sid, WeightLaw(e) \o (IF Has(e, "changed") THEN Unmoved(e) ELSE Ok))
             [] e.ev = "Default" -> Report(e.sid, SmallDefaults(e))
             [] e.ev = "Unset" -> Report(e.sid, Unset(e))
             [] e.ev = "Exc" -> Report(e.sid, << <<"a legal program runs", e.what>> >>)
             [] OTHER -> TRUE
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
