---------------------------- MODULE BalanceTrace ----------------------------
(* Replays solved segments and evaluated mission components: force balance   *)
(* and kinematics at every node.                                             *)
EXTENDS PhaseLaws
VARIABLE l
e == Trace[l]
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE e.ev = "Seg" -> Report(e.sid, Balance(e))
             [] e.ev = "Eval" -> Report(e.sid, ComponentLaw(e))
             [] e.ev = "Exc" -> Report(e.sid, << <<"a legal program runs", e.what>> >>)
             [] OTHER -> TRUE
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
