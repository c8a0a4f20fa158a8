---------------------------- MODULE ClosureTrace ----------------------------
(* Replays missions segment by segment: the state keeps the segments flown   *)
(* so far; hand-overs when a segment arrives, closure at the end.            *)
EXTENDS PhaseLaws
VARIABLES l, S
e == Trace[l]
Init == l = 1 /\ S = [x \in {} |-> 0]
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ S' = CASE e.ev = "New" -> [x \in {} |-> 0] [] e.ev = "Seg" -> (e.n :> e) @@ S [] OTHER -> S
        /\ CASE e.ev = "Seg" -> Report(e.sid, Handed(S, e, "range", R6) \o Handed(S, e, "h", R6) \o Aircraft(S, e))
             [] e.ev = "Mission" -> Report(e.sid, Closed(S, e) \o Chk(DOMAIN S = {Segments(e.P)[k] : k \in 1..Len(Segments(e.P))}, "the profile has its segments", DOMAIN S))
             [] e.ev = "Exc" -> Report(e.sid, << <<"a legal program runs", e.what>> >>)
             [] OTHER -> TRUE
Spec == Init /\ [][Next]_<<l, S>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
