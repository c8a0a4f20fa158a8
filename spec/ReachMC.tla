------------------------------- MODULE ReachMC -------------------------------
(* Two missions of one profile flown side by side that differ in a single    *)
(* design variable.  Every segment follows the hand-overs of MissionBook;    *)
(* cruises and the decision speed are adjusted until the ends meet.  A       *)
(* segment the variable does not reach comes out the same in both, and one   *)
(* it acts on differs in some pair: Reach is neither too small nor idle.     *)
EXTENDS MissionBook, TLC, Json
CONSTANTS Most
VARIABLES P, a, d, k, la, lb, done, reach
vars == <<P, a, d, k, la, lb, done, reach>>
Init == /\ P \in Profiles /\ d \in Design(P)
        /\ a \in {X \in UNION {{{}}, {{x} : x \in Design(P)}, IF Most > 1 THEN {{x, y} : x \in Design(P), y \in Design(P)} ELSE {}} : d \notin X}
        /\ k = 1 /\ la = <<>> /\ lb = <<>> /\ done = FALSE /\ reach = Reach(P, d)
On(S, n, v) == IF <<n, v>> \in S THEN 1 ELSE 0
Val(S, v) == On(S, "", v) + CASE v = "cruise|h0" -> 4 [] v = "mission_range" -> 60 [] v = "reserve|h0" -> 3 [] v = "reserve_range" -> 40 [] v = "loiter_duration" -> 2 [] v = "loiter|h0" -> 1
                          [] v \in {"clmax", "takeoff|v2"} -> 6 [] OTHER -> 0
\* distance per unit of time, fuel per unit of time
Pace(S, n) == 1 + On(S, n, "Ueas") + On(S, n, "TempIncrement")
Rise(S, n) == IF Kind(P, n) # "steady" \/ n \in {"cruise", "reserve_cruise", "loiter"} THEN 0 ELSE IF n \in {"climb", "reserve_climb"} THEN 1 ELSE -1
Slope(S, n) == 1 + On(S, n, "vs")       \* time per unit of altitude
Burn(S, n) == 1 + On(S, "", "weight") + On(S, "", "area") + On(S, n, "Ueas") + On(S, n, "vs") + 2 * On(S, n, "TempIncrement")
Here(log, n) == log[CHOOSE i \in 1..Len(log) : log[i].n = n]
Zero == [n |-> "", r0 |-> 0, r1 |-> 0, h0 |-> 0, h1 |-> 0, f0 |-> 0, f1 |-> 0, t |-> 0]
\* going on from decision speed v against stopping from it
Go(S, v) == v * Pace(S, "v0v1") + (Val(S, "clmax") - v) * Pace(S, "v1vr") * 2 + Pace(S, "rotate")
Stop(S, v) == v * Pace(S, "v0v1") + v * (3 - On(S, "v1v0", "braking")) * Pace(S, "v1v0")
V1(S) == CHOOSE v \in 0..Val(S, "clmax") : Stop(S, v) <= Go(S, v) /\ (v = Val(S, "clmax") \/ Stop(S, v + 1) > Go(S, v + 1))
Fly(S, log, n) ==
    LET b == IF Before(P, n) = "" THEN Zero ELSE Here(log, Before(P, n))
        h == IF Takes(P, n, "h") THEN b.h1 ELSE IF StartsAt(P, n) # "" THEN Val(S, StartsAt(P, n)) ELSE 0
        r == IF Takes(P, n, "range") THEN b.r1 ELSE 0
        \* distance a descent from altitude x to the end will take
        way(m, x) == (x - Val(S, "takeoff|h")) * Slope(S, m) * Pace(S, m)
        t == CASE n = "v0v1" -> V1(S)
               [] n = "v1vr" -> Val(S, "clmax") - V1(S)
               [] n = "v1v0" -> V1(S) * (3 - On(S, "v1v0", "braking"))
               [] n = "groundroll" -> Val(S, "takeoff|v2") + On(S, n, "braking")
               [] n \in {"rotate", "engineoutclimb"} -> 1
               [] n = "cruise" -> Val(S, "mission_range") - r - way("descent", h)
               [] n = "reserve_cruise" -> Val(S, "reserve_range") - (r - Here(log, "reserve_climb").r0) - way("reserve_descent", h)
               [] n = "loiter" -> Val(S, "loiter_duration")
               [] OTHER -> (Val(S, Ends(P, n)) - h) * Rise(S, n) * Slope(S, n)
        pace == IF n \in {"cruise", "reserve_cruise"} THEN 1 ELSE Pace(S, n)
        burn == Burn(S, n) + (IF n \in {"cruise", "reserve_cruise"} THEN Pace(S, n) ELSE 0)
    IN [n |-> n, h0 |-> h, h1 |-> IF Rise(S, n) = 0 THEN h ELSE Val(S, Ends(P, n)), r0 |-> r, r1 |-> r + t * pace, f0 |-> b.f1, f1 |-> b.f1 + t * burn, t |-> t]
Step == /\ ~done /\ k <= Len(Segments(P))
        /\ la' = Append(la, Fly(a, la, Segments(P)[k])) /\ lb' = Append(lb, Fly(a \cup {d}, lb, Segments(P)[k]))
        /\ k' = k + 1 /\ UNCHANGED <<P, a, d, done, reach>>
Finish == /\ ~done /\ k > Len(Segments(P)) /\ done' = TRUE /\ UNCHANGED <<P, a, d, k, la, lb, reach>>
          /\ (a = {} => PrintT("@@" \o ToJson([P |-> P, d |-> d, reach |-> reach])))
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Sane == \A i \in 1..Len(la) : la[i].t >= 0 /\ lb[i].t >= 0
Unreached == \A i \in 1..Len(la) : la[i].n \notin reach => la[i] = lb[i]
\* a mission still closes wherever its variables are
Closes == done => LET z == Here(la, "descent") IN z.r1 = Val(a, "mission_range") /\ z.h1 = Val(a, "takeoff|h")
\* what a variable acts on directly feels it
Felt == done /\ a = {} /\ d[1] # "" /\ d[2] # "TempIncrement" /\ Kind(P, d[1]) = "steady" => Here(la, d[1]) # Here(lb, d[1])
=============================================================================
