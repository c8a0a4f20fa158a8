----------------------------- MODULE VectorMath -----------------------------
(* The meaning of the declared vector relations: sums, products/quotients,   *)
(* concatenations and splits.  A relation is a record; a value is a sequence *)
(* of nodes, and a node of width > 1 is a sequence of components.            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

MaxOf(s) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : \A j \in 1..Len(s) : s[j] <= x
RECURSIVE SumInts(_)
SumInts(s) == IF s = <<>> THEN 0 ELSE s[1] + SumInts(Tail(s))

\* ---- sums and products: eq.vec[i] = declared node count of input i, eq.len = width
VecOut(eq) == MaxOf(eq.vec)
\* row r (1-based) of the flattened output is node NodeOf(r), component CompOf(r)
NodeOf(eq, r) == ((r - 1) \div eq.len) + 1
CompOf(eq, r) == ((r - 1) % eq.len) + 1
\* the flattened entry of input i that row r of the output reads
Reads(eq, i, r) == ((IF eq.vec[i] = 1 THEN 1 ELSE NodeOf(eq, r)) - 1) * eq.len + CompOf(eq, r)
Rows(eq) == 1..(VecOut(eq) * eq.len)
Cols(eq, i) == 1..(eq.vec[i] * eq.len)

LegalMath(eq) ==
    /\ \A i \in 1..Len(eq.vec) : eq.vec[i] \in {1, VecOut(eq)}
    /\ eq.nsf = 0 \/ eq.nsf = eq.nin          \* number of scaling factors given (0: none)
    /\ eq.ndiv = 0 \/ eq.ndiv = eq.nin        \* number of divide flags given
    /\ eq.nun = 0 \/ eq.nun = eq.nin          \* number of input units given
    /\ eq.multi => Len(eq.vec) = eq.nin

\* ---- concatenations and splits: rel.sizes[k] = nodes of part k, rel.nparts = parts named
LegalParts(rel) == Len(rel.sizes) = rel.nparts
Offset(rel, k) == SumInts(SubSeq(rel.sizes, 1, k - 1))
Total(rel) == SumInts(rel.sizes)
\* <<part, node within the part>> of node m of the joined vector
RECURSIVE Where(_, _, _)
Where(sizes, k, m) == IF m <= sizes[k] THEN <<k, m>> ELSE Where(sizes, k + 1, m - sizes[k])
Join(parts) == FlattenSeq(parts)
Split(v, sizes) == [k \in 1..Len(sizes) |->
    SubSeq(v, SumInts(SubSeq(sizes, 1, k - 1)) + 1, SumInts(SubSeq(sizes, 1, k)))]
=============================================================================
