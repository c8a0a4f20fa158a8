---------------------------- MODULE FirstDerivMC -----------------------------
(* Difference stencils over segments of equally spaced nodes: every          *)
(* configuration up to the bound, with integer arithmetic (12 times the      *)
(* stencil at unit spacing).  The rows are exact for every polynomial of     *)
(* their order and use only nodes of their own segment.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxIntervals, MaxSegs, Emit
VARIABLES order, nint, nseg, named, um, done
vars == <<order, nint, nseg, named, um, done>>
Legal == order \in {2, 4} /\ (order = 4 => nint >= 2)
N == 2 * nint + 1
\* <<first node used, 12 x coefficients>> of row i (1-based) in a segment of N nodes
Row(i) == IF order = 2
          THEN IF i = 1 THEN <<1, <<-18, 24, -6>>>> ELSE IF i = N THEN <<N - 2, <<6, -24, 18>>>> ELSE <<i - 1, <<-6, 0, 6>>>>
          ELSE CASE i = 1 -> <<1, <<-25, 48, -36, 16, -3>>>>
                 [] i = 2 -> <<1, <<-3, -10, 18, -6, 1>>>>
                 [] i = N - 1 -> <<N - 4, <<-1, 6, -18, 10, 3>>>>
                 [] i = N -> <<N - 4, <<3, -16, 36, -48, 25>>>>
                 [] OTHER -> <<i - 2, <<1, -8, 0, 8, -1>>>>
Pow(x, k) == IF k = 0 THEN 1 ELSE x ^ k
RECURSIVE Dot(_, _, _, _)
Dot(row, i, p, k) == IF k > Len(row[2]) THEN 0 ELSE row[2][k] * Pow(row[1] + k - 1 - i, p) + Dot(row, i, p, k + 1)
Init == /\ order \in 1..5 /\ nint \in 1..MaxIntervals /\ nseg \in 1..MaxSegs /\ named \in BOOLEAN /\ um \in {"none", "q", "t", "both"} /\ done = FALSE
        /\ (~named => nseg = 1)
Go == /\ ~done /\ done' = TRUE /\ UNCHANGED <<order, nint, nseg, named, um>>
      /\ Emit => PrintT("@@" \o ToJson([order |-> order, nint |-> nint, nseg |-> nseg, named |-> named, um |-> um, legal |-> Legal]))
Next == Go
Spec == Init /\ [][Next]_vars
\* the derivative of (t - t_i)^p at t_i is 1 for p = 1 and 0 otherwise
Exact == Legal => \A i \in 1..N : \A p \in 0..order : Dot(Row(i), i, p, 1) = (IF p = 1 THEN 12 ELSE 0)
Local == Legal => \A i \in 1..N : Row(i)[1] >= 1 /\ Row(i)[1] + Len(Row(i)[2]) - 1 <= N
=============================================================================
