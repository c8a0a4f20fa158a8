------------------------------ MODULE SelectMC -------------------------------
(* Histories of one selector: each step gives a selector vector and runs it; *)
(* a step that names no option is refused and must leave nothing behind.     *)
(* Also every ordering (with ties) of the entries given to the extremum      *)
(* components.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOpts, MaxNodes, MaxSteps, MaxRank, Emit
VARIABLES kind, nopts, nn, hist, done
vars == <<kind, nopts, nn, hist, done>>
Valid(s) == \A i \in 1..nn : s[i] \in 0..(nopts - 1)
Init == /\ kind \in {"select", "rank"} /\ nopts \in 1..MaxOpts /\ nn \in 1..MaxNodes /\ hist = <<>> /\ done = FALSE
        /\ (kind = "rank" => nopts = 1)
Step == /\ kind = "select" /\ ~done /\ Len(hist) < MaxSteps
        /\ \E s \in [1..nn -> -1..nopts] :
              /\ (hist # <<>> => Cardinality({i \in 1..nn : s[i] \notin 0..(nopts - 1)}) <= 1)
              /\ (hist # <<>> => s[1] # hist[Len(hist)].sel[1])
              /\ hist' = Append(hist, [sel |-> s, ok |-> Valid(s), out |-> IF Valid(s) THEN [i \in 1..nn |-> <<s[i], i>>] ELSE <<>>])
        /\ UNCHANGED <<kind, nopts, nn, done>>
Rank == /\ kind = "rank" /\ hist = <<>> /\ \E s \in [1..nn -> 1..MaxRank] :
              hist' = <<[rank |-> s, max |-> CHOOSE x \in {s[i] : i \in 1..nn} : \A i \in 1..nn : s[i] <= x,
                         min |-> CHOOSE x \in {s[i] : i \in 1..nn} : \A i \in 1..nn : s[i] >= x]>>
        /\ UNCHANGED <<kind, nopts, nn, done>>
Go == /\ ~done /\ hist # <<>> /\ done' = TRUE /\ UNCHANGED <<kind, nopts, nn, hist>>
      /\ Emit => PrintT("@@" \o ToJson([kind |-> kind, nopts |-> nopts, nn |-> nn, hist |-> hist]))
Next == Step \/ Rank \/ Go
Spec == Init /\ [][Next]_vars
\* the result at a node is that node's entry of the option named there, whatever came before
Forward == kind = "select" => \A k \in 1..Len(hist) : hist[k].ok => \A i \in 1..nn : hist[k].out[i] = <<hist[k].sel[i], i>>
Extremes == (kind = "rank" /\ hist # <<>>) => \A i \in 1..nn : hist[1].min <= hist[1].rank[i] /\ hist[1].rank[i] <= hist[1].max
=============================================================================
