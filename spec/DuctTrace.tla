------------------------------- MODULE DuctTrace -------------------------------
(* Replays evaluations of duct and exchanger parts (Eval) and converged      *)
(* ducts with every station's state (Duct).                                  *)
EXTENDS DuctLaws
VARIABLE l
e == Trace[l]
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE e.ev = "Eval" -> Report(e.sid, PartLaw(e))
             [] e.ev = "Duct" -> Report(e.sid, Duct(e))
             [] e.ev = "Solves" -> Report(e.sid, Solves(e))
             [] e.ev = "Unset" -> Report(e.sid, Unset(e))
             [] e.ev = "Exc" -> Report(e.sid, << <<"a legal program runs", e.what>> >>)
             [] OTHER -> TRUE
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
