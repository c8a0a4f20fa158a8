------------------------------ MODULE WeightMC ------------------------------
(* Designs are changed one input at a time and the book is kept by           *)
(* differences: only the parts that depend on the changed input move, and    *)
(* the total moves by what its parts moved, structure counted Fudge times.   *)
(* However the design is reached, the book is the one drawn up afresh.       *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json, WeightBook
CONSTANTS Fudge, MaxSteps, Emit
VARIABLES fam, level, item, total, prog
vars == <<fam, level, item, total, prog>>
Rank(p, i) == 1 + (Cardinality(Deps(fam)[p]) % 3) + (IF i \in {"ac|weights|MTOW"} THEN 2 ELSE 0)
Factor(p) == IF p \in Structural(fam) THEN Fudge ELSE 1
Fresh(p) == 5 + MapThenSumSet(LAMBDA i : Rank(p, i) * level[i], Deps(fam)[p])
Init == /\ fam \in Families
        /\ level = [i \in Inputs(fam) |-> 0]
        /\ item = [p \in Parts(fam) |-> 5]
        /\ total = 5 * MapThenSumSet(LAMBDA p : Factor(p), Parts(fam))
        /\ prog = <<>>
Change(i) == /\ Len(prog) < MaxSteps
             /\ level' = [level EXCEPT ![i] = @ + 1]
             /\ item' = [p \in Parts(fam) |-> IF i \in Deps(fam)[p] THEN item[p] + Rank(p, i) ELSE item[p]]
             /\ total' = total + MapThenSumSet(LAMBDA p : Factor(p) * (item'[p] - item[p]), Parts(fam))
             /\ prog' = Append(prog, i) /\ UNCHANGED fam
Next == \E i \in Inputs(fam) : Change(i)
Spec == Init /\ [][Next]_vars
ItemsFresh == \A p \in Parts(fam) : item[p] = Fresh(p)
TotalFresh == total = MapThenSumSet(LAMBDA p : Factor(p) * item[p], Parts(fam))
Disjoint == Structural(fam) \subseteq Parts(fam)
Report == (Emit /\ Len(prog) = MaxSteps) => PrintT("@@" \o ToJson([fam |-> fam, changes |-> prog]))
=============================================================================
