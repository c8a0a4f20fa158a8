------------------------------- MODULE AeroMC -------------------------------
(* A drag build-up is reached by changing one input or option at a time; the *)
(* book is kept by differences.  However it is reached it is the one drawn   *)
(* up afresh, and options of what a configuration lacks never count.         *)
EXTENDS Integers, Sequences, FiniteSetsExt, Json, AeroBook
CONSTANTS Fudge, MaxSteps, Emit
VARIABLES fam, level, item, total, prog
vars == <<fam, level, item, total, prog>>
Rank(p) == 1 + (Cardinality(Deps(fam)[p]) % 3)
Fresh(p) == 5 + MapThenSumSet(LAMBDA i : Rank(p) * level[i], Deps(fam)[p])
Init == /\ fam \in Families
        /\ level = [i \in Changes(fam) |-> 0]
        /\ item = [p \in Parts(fam) |-> 5]
        /\ total = Fudge * 5 * Cardinality(Parts(fam))
        /\ prog = <<>>
Change(i) == /\ Len(prog) < MaxSteps
             /\ level' = [level EXCEPT ![i] = @ + 1]
             /\ item' = [p \in Parts(fam) |-> IF i \in Deps(fam)[p] THEN item[p] + Rank(p) ELSE item[p]]
             /\ total' = total + Fudge * MapThenSumSet(LAMBDA p : item'[p] - item[p], Parts(fam))
             /\ prog' = Append(prog, i) /\ UNCHANGED fam
Next == \E i \in Changes(fam) : Change(i)
Spec == Init /\ [][Next]_vars
ItemsFresh == \A p \in Parts(fam) : item[p] = Fresh(p)
TotalFresh == total = Fudge * MapThenSumSet(LAMBDA p : item[p], Parts(fam))
IdleInert == [][\A i \in Idle(fam) : (prog' = Append(prog, i)) => total' = total]_vars
Report == (Emit /\ Len(prog) = MaxSteps) => PrintT("@@" \o ToJson([fam |-> fam, changes |-> prog]))
=============================================================================
