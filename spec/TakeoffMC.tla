------------------------------ MODULE TakeoffMC ------------------------------
(* The decision speed as a search on a grid of speeds (ticks): d is the      *)
(* accelerate-go minus the accelerate-stop distance, falling with the        *)
(* decision speed; a speed near the rotation speed is drawn to it while      *)
(* stopping is still the shorter.  Checked: where the search rests, the      *)
(* distances are equal, or the rotation speed or the lower limit is reached. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Tol, Slopes, Highs
VARIABLES vr, d, v1, rest
vars == <<vr, d, v1, rest>>
RECURSIVE Fall(_, _)
Fall(x, s) == IF s = <<>> THEN <<x>> ELSE <<x>> \o Fall(x - Head(s), Tail(s))
Init == /\ vr \in (Tol + 1)..(N - 1)
        /\ d \in {Fall(x, s) : x \in Highs, s \in [1..N -> Slopes]}
        /\ v1 \in 1..N /\ rest = FALSE
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
\* which way the search goes from v
Pull(v) == IF vr < v + Tol /\ ~(vr >= v /\ d[v] < 0) THEN Sign(vr - v) ELSE Sign(d[v])
Solution(v) == Pull(v) = 0
\* resting: a solution, a limit, or between two speeds that pull towards each other
Stuck(v) == Solution(v) \/ (v = 1 /\ Pull(v) < 0) \/ (v = N /\ Pull(v) > 0) \/ (v < N /\ Pull(v) > 0 /\ Pull(v + 1) < 0) \/ (v > 1 /\ Pull(v) < 0 /\ Pull(v - 1) > 0)
Zone(v) == IF v + Tol <= vr THEN "below" ELSE IF v < vr THEN "close" ELSE IF v = vr THEN "at" ELSE "above"
Step == /\ ~rest /\ ~Stuck(v1) /\ v1' = v1 + Pull(v1) /\ UNCHANGED <<vr, d, rest>>
Stop == /\ ~rest /\ Stuck(v1) /\ rest' = TRUE /\ UNCHANGED <<vr, d, v1>>
Next == (Step \/ Stop) /\ PrintT("@@" \o ToJson([zone |-> Zone(v1), sign |-> Sign(d[v1]), solution |-> Solution(v1)]))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Settles == <>rest
Decided == rest =>
    \/ d[v1] = 0
    \/ v1 = vr /\ d[v1] >= 0
    \/ v1 = 1 /\ d[1] < 0
    \* between grid points: the distances cross, or do so just short of the rotation speed
    \/ (v1 < N /\ d[v1] > 0 /\ d[v1 + 1] < 0) \/ (v1 > 1 /\ d[v1] < 0 /\ d[v1 - 1] > 0)
    \/ (Zone(v1) = "close" /\ d[v1 + 1] < 0) \/ (v1 > 1 /\ Zone(v1 - 1) = "close" /\ d[v1] < 0 /\ d[v1 - 1] = 0)
NeverAbove == Solution(v1) => v1 <= vr
=============================================================================
