------------------------------- MODULE PointMC -------------------------------
(* The contract every model keeps towards its caller.  The caller sets the   *)
(* inputs to one of a few points, runs, asks for sensitivities, sets the     *)
(* problem up again, or builds and uses another instance (of the same or of  *)
(* another configuration).  What a run returns is a function of the point    *)
(* set last; what a linearization returns is a function of the point run     *)
(* last; nothing else is remembered.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Points, MaxLen, Emit
VARIABLES cur, ran, hist, obs
vars == <<cur, ran, hist, obs>>
NoPt == "none"
Init == cur = NoPt /\ ran = NoPt /\ hist = <<>> /\ obs = {}
Last == IF hist = <<>> THEN [a |-> "none"] ELSE hist[Len(hist)]
Do(act) == Len(hist) < MaxLen /\ hist' = Append(hist, act)
Set(p) == /\ cur # p /\ Last.a # "Set" /\ Do([a |-> "Set", p |-> p]) /\ cur' = p /\ UNCHANGED <<ran, obs>>
Run == /\ cur # NoPt /\ Last.a \in {"Set", "Run", "Lin"} /\ (Last.a = "Run" => Len(hist) >= 2 /\ hist[Len(hist) - 1].a # "Run")
       /\ Do([a |-> "Run", p |-> cur]) /\ ran' = cur /\ obs' = obs \cup {<<"y", Len(hist) + 1, cur>>} /\ UNCHANGED cur
Lin == /\ ran # NoPt /\ ran = cur /\ Last.a \in {"Run", "Lin", "Other"} /\ (Last.a = "Lin" => Len(hist) >= 2 /\ hist[Len(hist) - 1].a # "Lin")
       /\ Do([a |-> "Lin", p |-> cur]) /\ obs' = obs \cup {<<"J", Len(hist) + 1, ran>>} /\ UNCHANGED <<cur, ran>>
\* after set-up nothing has been run; the caller sets its point again
Setup == /\ ran # NoPt /\ Last.a \in {"Run", "Lin"} /\ Do([a |-> "Setup"]) /\ cur' = NoPt /\ ran' = NoPt /\ UNCHANGED obs
\* another instance is built and run (k: same configuration or another one)
Other(k) == /\ Last.a # "Other" /\ hist # <<>> /\ Do([a |-> "Other", k |-> k]) /\ UNCHANGED <<cur, ran, obs>>
\* a history is worth running when some point is observed in two different contexts
Interesting == /\ Last.a \in {"Run", "Lin"}
               /\ \/ \E x, y \in obs : x[1] = y[1] /\ x[3] = y[3] /\ x[2] # y[2]
                  \/ Cardinality({x[3] : x \in obs}) > 1
Stop == /\ Interesting /\ hist' = Append(hist, [a |-> "Stop"]) /\ cur' = "done" /\ UNCHANGED <<ran, obs>>
        /\ Emit => PrintT("@@" \o ToJson(hist))
Next == /\ cur # "done"
        /\ \/ \E p \in Points : Set(p)
           \/ Run \/ Lin \/ Setup \/ \E k \in {"same", "other"} : Other(k) \/ Stop
Spec == Init /\ [][Next]_vars
\* a run always returns the data of the point set last, a linearization that of the point run last
LastSet(n) == LET S == {i \in 1..n : hist[i].a = "Set"} IN IF S = {} THEN NoPt ELSE hist[CHOOSE i \in S : \A j \in S : j <= i].p
Current == \A x \in obs : LastSet(x[2]) = x[3]
NoStaleJ == \A x \in obs : x[1] = "J" => \E i \in 1..(x[2] - 1) : hist[i].a = "Run" /\ hist[i].p = x[3] /\ \A j \in (i + 1)..(x[2] - 1) : hist[j].a \notin {"Set", "Setup", "Run"} \/ (hist[j].a = "Run" /\ hist[j].p = x[3])
=============================================================================
