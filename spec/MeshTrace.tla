------------------------------ MODULE MeshTrace ------------------------------
(* Replays planform and mesh evaluations, wings described twice (Same),      *)
(* areas split over regions (Split) and invalid definitions (Bad).           *)
EXTENDS MeshLaws
VARIABLE l
e == Trace[l]
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE e.ev = "Eval" -> Report(e.sid, MeshLaw(e))
             [] e.ev = "Same" -> Report(e.sid, SameWing(e))
             [] e.ev = "Split" -> Report(e.sid, Split(e))
             [] e.ev = "Bad" -> Report(e.sid, Chk(e.rejected, "an invalid definition is rejected", e.what))
             [] e.ev = "Exc" -> Report(e.sid, << <<"a legal program runs", e.what>> >>)
             [] OTHER -> TRUE
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
