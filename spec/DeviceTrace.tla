------------------------------ MODULE DeviceTrace ------------------------------
(* Replays recorded evaluations of power devices and propellers.             *)
EXTENDS DeviceLaws
VARIABLE l
e == Trace[l]
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE e.ev = "Eval" -> Report(e.sid, DeviceLaw(e))
             [] e.ev = "Exc" -> Report(e.sid, << <<"a legal program runs", e.what>> >>)
             [] OTHER -> TRUE
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
