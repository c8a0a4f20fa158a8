----------------------------- MODULE ReachTrace -----------------------------
(* Replays design sensitivities of solved missions: what the model says of   *)
(* every segment along one design variable (Ask) or several at once (Mix)    *)
(* against how the solved mission moves, and against the reach of the        *)
(* variable in MissionBook.                                                  *)
EXTENDS TraceLib, MissionBook
VARIABLE l
e == Trace[l]
Rows(op(_, _, _)) == LET S == DOMAIN e.res IN FlattenSeq(SetToSeq({FlattenSeq(SetToSeq({op(n, q, e.res[n][q]) : q \in DOMAIN e.res[n]})) : n \in S}))
Within(x, y, tol) == FCloseN(x, y, 0, tol)
Big(v) == FMaxOf(FAbs(v))
Tol(x) == "1e-12" ++ ("1e-4" ** Big(x.slope)) ++ ("1e-7" ** x.size) ++ x.doubt
Slope(n, q, x) == Chk(Within(x.said, x.slope, Tol(x)), "a sensitivity is the slope of the solved mission",
                      [segment |-> n, quantity |-> q, said |-> x.said, slope |-> x.slope])
Still(n, q, x) == IF n \in Reach(e.P, <<e.d[1], e.d[2]>>) THEN Ok
                  ELSE Chk(Within(x.said, FMul(x.slope, 0), "1e-12" ++ ("1e-9" ** x.size)) /\ Within(x.slope, FMul(x.slope, 0), "1e-12" ++ (("1e-7" ** x.size) ++ x.doubt)), "a design variable is felt only in the segments it feeds",
                           [segment |-> n, quantity |-> q, said |-> x.said, slope |-> x.slope])
Asked == Rows(Slope) \o Rows(Still) \o Near(e.kept, 0, 0, "1e-12", "asking for sensitivities moves no result")
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE e.ev = "Ask" -> Report(e.sid, Asked)
             [] e.ev = "Mix" -> Report(e.sid, Rows(Slope))
             [] e.ev = "Exc" -> Report(e.sid, << <<"a legal program runs", e.what>> >>)
             [] OTHER -> TRUE
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
