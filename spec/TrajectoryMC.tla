---------------------------- MODULE TrajectoryMC -----------------------------
(* Building a trajectory: phases carry states, pairs of phases are linked    *)
(* with a list of states to leave alone.  TLC visits every program up to the *)
(* bound; the meaning of a program is, for every state of every phase, where *)
(* its start value comes from.                                               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS NPhases, Keys, MaxLinks, Emit
VARIABLES has, links, done
vars == <<has, links, done>>
Phases == 1..NPhases
Shared(i, j) == has[i] \cap has[j]
\* the phase whose end value starts state s of phase j, or 0
DriversOf(ls, s, j) == {k \in 1..Len(ls) : ls[k].to = j /\ s \notin ls[k].skip /\ s \in has[ls[k].from] /\ s \in has[j]}
Driver(ls, s, j) == IF DriversOf(ls, s, j) = {} THEN 0 ELSE ls[CHOOSE k \in DriversOf(ls, s, j) : TRUE].from
RECURSIVE Reach(_, _, _, _)
Reach(ls, s, j, n) == IF n = 0 \/ j = 0 THEN {} ELSE {j} \cup Reach(ls, s, Driver(ls, s, j), n - 1)

Init == has \in [Phases -> SUBSET Keys \ {{}}] /\ links = <<>> /\ done = FALSE
Link == /\ ~done /\ Len(links) < MaxLinks
        /\ \E i, j \in Phases : \E sk \in SUBSET Keys :
            LET ls == Append(links, [from |-> i, to |-> j, skip |-> sk]) IN
            /\ i # j /\ (sk \subseteq Shared(i, j))
            /\ \A s \in Keys : Cardinality(DriversOf(ls, s, j)) <= 1          \* one source per start value
            /\ \A s \in Keys : ~(i # 0 /\ s \in Shared(i, j) /\ s \notin sk /\ j \in Reach(ls, s, i, NPhases))   \* no loop
            /\ links' = ls
        /\ UNCHANGED <<has, done>>
Go == /\ ~done /\ done' = TRUE /\ UNCHANGED <<has, links>>
      /\ Emit => PrintT("@@" \o ToJson([n |-> NPhases, has |-> [p \in Phases |-> SetToSeq(has[p])],
                    links |-> [k \in 1..Len(links) |-> [from |-> links[k].from, to |-> links[k].to, skip |-> SetToSeq(links[k].skip)]]]))
Next == Link \/ Go
Spec == Init /\ [][Next]_vars

\* abstract values: the start value of a phase is a set of tokens; a phase adds its own token
RECURSIVE Start(_, _, _)
Start(s, j, n) == IF n = 0 THEN {<<"loop", 0>>} ELSE IF Driver(links, s, j) = 0 THEN {<<"given", j>>} ELSE Start(s, Driver(links, s, j), n - 1) \cup {<<"added", Driver(links, s, j)>>}
End(s, j) == Start(s, j, NPhases + 1) \cup {<<"added", j>>}
Continuous == \A s \in Keys : \A j \in Phases : s \in has[j] =>
    IF Driver(links, s, j) = 0 THEN Start(s, j, NPhases + 1) = {<<"given", j>>}
    ELSE Start(s, j, NPhases + 1) = End(s, Driver(links, s, j))
NoLoop == \A s \in Keys : \A j \in Phases : s \in has[j] => <<"loop", 0>> \notin End(s, j)
\* a chain's end value is exactly one given start plus what each of its phases added
OneStart == \A s \in Keys : \A j \in Phases : s \in has[j] => Cardinality({x \in End(s, j) : x[1] = "given"}) = 1
=============================================================================
