---------------------------- MODULE SplitJoinMC -----------------------------
(* Every program of joins and splits up to the bound.  The invariants say    *)
(* what joining and splitting mean: positions are covered exactly once, in   *)
(* order, and one undoes the other.                                          *)
EXTENDS VectorMath, TLC, Json
CONSTANTS MaxRels, MaxParts, MaxSize, Emit
SizeSeqs == UNION {[1..k -> 1..MaxSize] : k \in 1..MaxParts}
Rel(k, s, len, um, bad) == [kind |-> k, sizes |-> s, nparts |-> IF bad THEN Len(s) + 1 ELSE Len(s), len |-> len, um |-> um]
Space == {Rel(k, s, len, um, bad) : k \in {"cat", "split", "catsplit", "splitcat"}, s \in SizeSeqs, len \in {1, 2, 3}, um \in {"none", "units"}, bad \in BOOLEAN}
WF(r) == (~LegalParts(r) => r.len = 1 /\ r.kind \in {"cat", "split"} /\ Len(r.sizes) < 3)
Small == {r \in Space : r.sizes \in {<<2, 1>>, <<1, 2, 3>>} /\ r.len < 3 /\ LegalParts(r) /\ r.um = "units"}
VARIABLES prog, done
vars == <<prog, done>>
Init == prog = <<>> /\ done = FALSE
Add == /\ ~done /\ Len(prog) < MaxRels /\ (prog # <<>> => LegalParts(prog[1]))
       /\ \E r \in (IF prog = <<>> THEN {x \in Space : WF(x)} ELSE {x \in Small : x.kind = prog[1].kind}) : prog' = Append(prog, r)
       /\ UNCHANGED done
Go == /\ ~done /\ prog # <<>> /\ done' = TRUE /\ UNCHANGED prog
      /\ Emit => PrintT("@@" \o ToJson([rels |-> prog, legal |-> \A i \in 1..Len(prog) : LegalParts(prog[i])]))
Next == Add \/ Go
Spec == Init /\ [][Next]_vars

Parts(r) == [k \in 1..Len(r.sizes) |-> [m \in 1..r.sizes[k] |-> <<k, m>>]]
RoundTrip == \A i \in 1..Len(prog) : LET r == prog[i] IN Split(Join(Parts(r)), r.sizes) = Parts(r)
InOrder == \A i \in 1..Len(prog) : LET r == prog[i] IN
    /\ Len(Join(Parts(r))) = Total(r)
    /\ \A m \in 1..Total(r) : Join(Parts(r))[m] = Where(r.sizes, 1, m)
    /\ \A k \in 1..Len(r.sizes) : \A m \in 1..r.sizes[k] : Where(r.sizes, 1, Offset(r, k) + m) = <<k, m>>
=============================================================================
