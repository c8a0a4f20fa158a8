---------------------------- MODULE TakeoffTrace ----------------------------
(* Replays takeoffs: the state keeps the segments flown so far, so that each *)
(* one can be checked against the one it follows, and the decision at last.  *)
EXTENDS PhaseLaws
VARIABLES l, S
e == Trace[l]
Init == l = 1 /\ S = [x \in {} |-> 0]
OnTakeoff(n) == n \in {"groundroll", "v0v1", "v1vr", "v1v0", "rotate", "engineoutclimb"}
Chain(x) == IF Before(x.P, x.n) = "" THEN <<>> ELSE Handed(S, x, "speed", "1e-9") \o Handed(S, x, "range", R6) \o Handed(S, x, "h", R6) \o Aircraft(S, x)
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ S' = CASE e.ev = "New" -> [x \in {} |-> 0] [] e.ev = "Seg" -> (e.n :> e) @@ S [] OTHER -> S
        /\ CASE e.ev = "Seg" -> Report(e.sid, IF OnTakeoff(e.n) THEN Takeoff(e) \o (IF e.alone THEN <<>> ELSE Chain(e)) ELSE IF e.n = "climb" /\ ~e.alone THEN Chain(e) ELSE <<>>)
             [] e.ev = "Mission" -> Report(e.sid, IF e.P.to # "none" THEN Decided(e) ELSE <<>>)
             [] e.ev = "Decision" -> Report(e.sid, Decided(e))
             [] e.ev = "Point" -> Report(e.sid, Point(e))
             [] e.ev = "Eval" -> Report(e.sid, ComponentLaw(e))
             [] e.ev = "Exc" -> Report(e.sid, << <<"a legal program runs", e.what>> >>)
             [] OTHER -> TRUE
Spec == Init /\ [][Next]_<<l, S>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
