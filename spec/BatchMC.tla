------------------------------- MODULE BatchMC -------------------------------
(* A caller evaluates batches of operating points with one model, one node   *)
(* per point.  Points are only names here: a batch is any sequence of them,  *)
(* so order, multiplicity and company of a point vary in every way.  What    *)
(* the model tells about a point in a batch is that point's own result.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Points, MaxNodes, MaxBatches, Emit
VARIABLES batches, table, done
vars == <<batches, table, done>>
Seqs == UNION {[1..n -> Points] : n \in 1..MaxNodes}
Init == batches = <<>> /\ table = [p \in Points |-> {}] /\ done = FALSE
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
\* the points are named in the order in which they first appear
Canon(b, seen) == \A i \in 1..Len(b) : \/ b[i] \in seen \/ \E j \in 1..(i - 1) : b[j] = b[i]
                     \/ LET rest == Points \ (seen \cup {b[j] : j \in 1..(i - 1)}) IN rest # {} /\ b[i] = Min(rest)
Seen == {p \in Points : table[p] # {}}
Run(b) == /\ ~done /\ Len(batches) < MaxBatches /\ Canon(b, Seen)
          /\ (batches # <<>> => {b[i] : i \in 1..Len(b)} \cap Seen # {} /\ \A k \in 1..Len(batches) : batches[k] # b)
          /\ batches' = Append(batches, b)
          /\ table' = [p \in Points |-> table[p] \cup {<<Len(batches) + 1, i, p>> : i \in {j \in 1..Len(b) : b[j] = p}}]
          /\ UNCHANGED done
Go == /\ ~done /\ Len(batches) = MaxBatches /\ done' = TRUE /\ UNCHANGED <<batches, table>>
      /\ Emit => PrintT("@@" \o ToJson(batches))
Next == (\E b \in Seqs : Run(b)) \/ Go
Spec == Init /\ [][Next]_vars
\* every occurrence of a point refers to that point, whatever its node and company
Own == \A p \in Points : \A o \in table[p] : o[3] = p /\ batches[o[1]][o[2]] = p
Complete == \A k \in 1..Len(batches) : \A i \in 1..Len(batches[k]) : <<k, i, batches[k][i]>> \in table[batches[k][i]]
=============================================================================
