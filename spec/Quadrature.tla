----------------------------- MODULE Quadrature -----------------------------
(* The two time-integration rules of the library, over doubles.              *)
(*  Simpson:  each pair of intervals uses the parabola through three rates.  *)
(*  BDF3:     third-order backward differences, started by the third-order   *)
(*            offset differences on the first three unknowns; with only      *)
(*            three nodes, by second-order differences.                      *)
EXTENDS Integers, Sequences, F64

RECURSIVE SimpsonFrom(_, _, _, _)
\* history of nodes 1..2k+1, given the history up to node i (odd)
SimpsonFrom(y, f, h, i) ==
    IF i >= Len(f) THEN y
    ELSE LET m == y[i] ++ (h ** ((5 ** f[i]) ++ (8 ** f[i + 1]) -- f[i + 2])) // 12
             e == m ++ (h ** ((5 ** f[i + 2]) ++ (8 ** f[i + 1]) -- f[i])) // 12
         IN SimpsonFrom(y \o <<m, e>>, f, h, i + 2)

RECURSIVE BDFFrom(_, _, _, _)
BDFFrom(y, f, h, i) ==     \* i = next unknown, i >= 4
    IF i > Len(f) THEN y
    ELSE LET v == ((18 ** y[i - 1]) -- (9 ** y[i - 2]) ++ (2 ** y[i - 3]) ++ (6 ** h ** f[i])) // 11
         IN BDFFrom(Append(y, v), f, h, i + 1)

\* the increments z = y - q0 satisfy the starting differences
BDFHist(q0, f, h) ==
    LET n == Len(f)
        z == IF n = 3
             THEN <<0>> \o FSolve(<< <<0, "0.5">>, <<-2, "1.5">> >>, <<h ** f[2], h ** f[3]>>)
             ELSE LET s == FSolve(<< <<-3, 6, -1>>, <<-6, 3, 2>>, <<9, -18, 11>> >>,
                                  <<6 ** h ** f[2], 6 ** h ** f[3], 6 ** h ** f[4]>>)
                  IN BDFFrom(<<0>> \o s, f, h, 5)
    IN z ++ q0

Hist(method, q0, f, h) ==
    IF Len(f) = 1 THEN <<q0>>
    ELSE IF method = "simpson" THEN SimpsonFrom(<<q0>>, f, h, 1)
    ELSE BDFHist(q0, f, h)

\* h from the way the time grid is given
Step(ts, n, t) == CASE ts = "dt" -> t[1]
                    [] ts = "duration" -> IF n = 1 THEN t[1] ELSE t[1] // (n - 1)
                    [] ts = "bounds" -> IF n = 1 THEN t[2] -- t[1] ELSE (t[2] -- t[1]) // (n - 1)
\* d h / d t_k
StepSlope(ts, n, k) == CASE ts = "dt" -> 1
                         [] ts = "duration" -> 1 // (n - 1)
                         [] ts = "bounds" -> IF k = 1 THEN (-1) // (n - 1) ELSE 1 // (n - 1)
Unit(n, j) == [i \in 1..n |-> IF i = j THEN 1 ELSE 0]
Zeros(n) == [i \in 1..n |-> 0]
=============================================================================
