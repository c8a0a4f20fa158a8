------------------------------ MODULE DeclareMC ------------------------------
(* Declaring integrated states: a phase is a tree of groups; some groups     *)
(* integrate the tagged outputs of their components, some hold an explicit   *)
(* integrator.  TLC visits the declaration programs up to the bound; the     *)
(* meaning of a program is the set of state addresses, each with one rate    *)
(* and the phase's clock.                                                    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS MaxLeaves, MaxStates, MaxWeight, Paths, Emit
VARIABLES leaves, defect, done
vars == <<leaves, defect, done>>
StateOpt == [units : {"own", "none"}, prom : BOOLEAN, val : {"no", "scalar", "vector"}, bnd : BOOLEAN, rprom : BOOLEAN]
Plain == [units |-> "own", prom |-> FALSE, val |-> "no", bnd |-> FALSE, rprom |-> FALSE]
Interesting(o) == Cardinality({k \in {1, 2, 3, 4, 5} : CASE k = 1 -> o.units # "own" [] k = 2 -> o.prom [] k = 3 -> o.val # "no" [] k = 4 -> o.bnd [] OTHER -> o.rprom})
RECURSIVE NStates(_), Weight(_), WeightOf(_)
NStates(ls) == IF ls = <<>> THEN 0 ELSE Len(ls[1].states) + NStates(Tail(ls))
WeightOf(ss) == IF ss = <<>> THEN 0 ELSE Interesting(ss[1]) + WeightOf(Tail(ss))
Weight(ls) == IF ls = <<>> THEN 0 ELSE WeightOf(ls[1].states) + Weight(Tail(ls))
Init == leaves = <<>> /\ defect = "none" /\ done = FALSE
NewLeaf == /\ ~done /\ Len(leaves) < MaxLeaves
           /\ \E p \in Paths : \E k \in {"auto", "manual"} : \E tu \in {"s", "min"} :
                /\ \A i \in 1..Len(leaves) : leaves[i].path # p
                /\ leaves' = Append(leaves, [path |-> p, kind |-> k, tu |-> tu, states |-> <<>>])
           /\ UNCHANGED <<defect, done>>
NewState == /\ ~done /\ leaves # <<>> /\ Len(leaves[Len(leaves)].states) < MaxStates
            /\ \E o \in StateOpt :
                 /\ (NStates(leaves) > 0 => Weight(leaves) + Interesting(o) <= MaxWeight)
                 /\ (leaves[Len(leaves)].kind = "manual" => ~o.rprom /\ ~o.prom)
                 /\ leaves' = [leaves EXCEPT ![Len(leaves)].states = Append(@, o)]
            /\ UNCHANGED <<defect, done>>
Break == /\ ~done /\ defect = "none" /\ leaves # <<>> /\ Len(leaves) = 1 /\ Len(leaves[1].states) = 1
         /\ \E d \in {"noname", "dupstate", "badunits", "noduration"} :
              /\ (d \in {"noname", "dupstate"} => leaves[1].kind = "auto")
              /\ (d = "badunits" => leaves[1].states[1].units = "own")
              /\ defect' = d
         /\ UNCHANGED <<leaves, done>>
Go == /\ ~done /\ leaves # <<>> /\ (\A i \in 1..Len(leaves) : leaves[i].states # <<>>) /\ done' = TRUE /\ UNCHANGED <<leaves, defect>>
      /\ Emit => PrintT("@@" \o ToJson([leaves |-> leaves, defect |-> defect]))
Next == NewLeaf \/ NewState \/ Break \/ Go
Spec == Init /\ [][Next]_vars
Slots == {<<i, j>> \in (1..Len(leaves)) \X (1..MaxStates) : j <= Len(leaves[i].states)}
Address(s) == <<leaves[s[1]].path, s[2]>>
\* no two states share an address, so every state has its own rate
Injective == \A a, b \in Slots : a # b => Address(a) # Address(b)
=============================================================================
