----------------------------- MODULE MissionBook -----------------------------
(* The mission profiles: which segments there are, what is handed from one   *)
(* segment to the next, and the condition that fixes each segment's length.  *)
(* A profile is [to, res, roll]: takeoff analysis "none", "simplified" or    *)
(* "ode"; whether reserves are flown; whether the basic mission has a        *)
(* ground roll.                                                              *)
EXTENDS Integers, Sequences, FiniteSets
Profiles == {[to |-> "none", res |-> FALSE, roll |-> FALSE], [to |-> "none", res |-> FALSE, roll |-> TRUE], [to |-> "none", res |-> TRUE, roll |-> FALSE]}
            \cup {[to |-> t, res |-> r, roll |-> FALSE] : t \in {"simplified", "ode"}, r \in BOOLEAN}

Main == <<"climb", "cruise", "descent">>
Reserve == <<"reserve_climb", "reserve_cruise", "reserve_descent", "loiter">>
\* the segments in the order they are flown, without the abandoned takeoff
Flown(P) == (IF P.to # "none" THEN <<"v0v1", "v1vr", "rotate">> ELSE IF P.roll THEN <<"groundroll">> ELSE <<>>)
            \o Main \o (IF P.res THEN Reserve ELSE <<>>)
Branches(P) == IF P.to # "none" THEN <<"v1v0", "engineoutclimb">> ELSE <<>>
Segments(P) == Flown(P) \o Branches(P)
Rank(P, n) == CHOOSE k \in 1..Len(Segments(P)) : Segments(P)[k] = n
\* the segment a segment follows, "" for none
Before(P, n) ==
    IF n = "v1v0" THEN "v0v1" ELSE IF n = "engineoutclimb" THEN ""
    ELSE LET k == Rank(P, n) IN IF k = 1 THEN "" ELSE Flown(P)[k - 1]

Kind(P, n) == CASE n \in {"v0v1", "v1vr", "v1v0", "groundroll"} -> "roll"
                [] n = "rotate" -> IF P.to = "ode" THEN "rotation" ELSE "simplified"
                [] n = "engineoutclimb" -> "gamma"
                [] OTHER -> "steady"
\* what the aircraft is told it is flying
Told(n) == CASE n = "groundroll" -> "v0v1" [] n = "engineoutclimb" -> "EngineOutClimbAngle" [] OTHER -> n

\* ground and air quantities a segment takes over from the one before; fuel burned and every other state of the aircraft always are
Airborne(n) == n \in {"climb", "cruise", "descent", "reserve_climb", "reserve_cruise", "reserve_descent", "loiter"}
Takes(P, n, q) ==
    LET b == Before(P, n) IN
    /\ b # ""
    /\ CASE q = "aircraft" -> TRUE
         [] q = "range" -> TRUE
         [] q = "h" -> \/ (Airborne(b) /\ Airborne(n) /\ n \notin {"reserve_climb", "loiter"})
                       \/ b = "rotate"
         [] q = "speed" -> \/ n \in {"v1vr", "v1v0"}
                           \/ (n = "rotate" /\ P.to = "ode")
\* altitude a segment is started at when it takes none over: name of the mission parameter, "" when it is free
StartsAt(P, n) == CASE n = "climb" /\ P.to = "none" /\ ~P.res -> "takeoff|h"
                    [] n = "loiter" -> "loiter|h0"
                    [] OTHER -> ""
\* what fixes the length of a segment
Ends(P, n) == CASE n = "climb" -> "cruise|h0" [] n \in {"descent", "reserve_descent"} -> "takeoff|h" [] n = "reserve_climb" -> "reserve|h0" [] OTHER -> ""
EndsAtV1(n) == n \in {"v0v1", "groundroll"}
\* a segment whose length is not its own: cruises are as long as the descent after them needs, the ground
\* roll up to the decision speed as long as both ways to end a takeoff need
Adjusted(P, n) == CASE n = "descent" -> {"cruise"} [] n = "reserve_descent" -> {"reserve_cruise"} [] n \in {"rotate", "v1v0"} /\ P.to # "none" -> {"v0v1"} [] OTHER -> {}
\* the design variables of a mission, and the segments a variable acts on directly
Global == {"weight", "area"}
Values(P) == {"cruise|h0", "mission_range", "takeoff|h"} \cup (IF P.res THEN {"reserve|h0", "reserve_range", "loiter|h0", "loiter_duration"} ELSE {})
             \cup (IF P.to # "none" THEN {"clmax"} ELSE {}) \cup (IF P.roll THEN {"takeoff|v2"} ELSE {})
Own(P) == {<<n, "vs">> : n \in {m \in {Segments(P)[k] : k \in 1..Len(Segments(P))} : Kind(P, m) = "steady"}}
          \cup {<<n, "Ueas">> : n \in {m \in {Segments(P)[k] : k \in 1..Len(Segments(P))} : Kind(P, m) = "steady"}}
          \cup {<<n, "TempIncrement">> : n \in {Segments(P)[k] : k \in 1..Len(Segments(P))}}
          \cup {<<n, "braking">> : n \in {m \in {Segments(P)[k] : k \in 1..Len(Segments(P))} : Kind(P, m) = "roll"}}
Design(P) == {<<"", v>> : v \in Global \cup Values(P)} \cup Own(P)
Direct(P, d) ==
    LET all == {Segments(P)[k] : k \in 1..Len(Segments(P))} IN
    IF d[1] # "" THEN {d[1]}
    ELSE CASE d[2] \in Global -> all
           [] d[2] \in {"clmax", "takeoff|v2"} -> {n \in all : ~Airborne(n)}
           [] d[2] = "mission_range" -> {"descent"}
           [] d[2] = "reserve_range" -> {"reserve_descent"}
           [] d[2] = "loiter_duration" -> {"loiter"}
           [] OTHER -> {n \in all : d[2] \in {StartsAt(P, n), Ends(P, n)}}
\* every segment a variable can be felt in
RECURSIVE Spread(_, _)
Spread(P, X) ==
    LET Y == X \cup {n \in {Segments(P)[k] : k \in 1..Len(Segments(P))} : Before(P, n) \in X} \cup UNION {Adjusted(P, n) : n \in X}
    IN IF Y = X THEN X ELSE Spread(P, Y)
Reach(P, d) == Spread(P, Direct(P, d))
\* default controls of the takeoff segments: rolling friction, engines running, lever
Braking(n) == CASE n \in {"v0v1", "v1vr", "groundroll"} -> "0.03" [] n = "v1v0" -> "0.4" [] OTHER -> "0"
Active(n) == IF n \in {"v1vr", "v1v0", "rotate", "engineoutclimb"} THEN 0 ELSE 1
Lever(n) == IF n = "v1v0" THEN 0 ELSE 1
=============================================================================
