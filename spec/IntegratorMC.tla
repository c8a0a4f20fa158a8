---------------------------- MODULE IntegratorMC ----------------------------
(* Abstract model of building and running an integrator.  A program is a     *)
(* method, a node count, a way of giving time, and a sequence of declared    *)
(* states; running it integrates every state on its own.  TLC visits every   *)
(* program up to the bound, checks that the rules are exact for every        *)
(* polynomial rate of their order (integer arithmetic, scaled by the common  *)
(* denominators) and that a state's history does not depend on the others,   *)
(* and emits the programs that the conformance driver then runs.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxStates, NodeCounts, Emit
Methods == {"simpson", "bdf3"}
TimeSetups == {"dt", "duration", "bounds"}
\* zs: zero start, fo: final value only, um: which units are declared, nm: default or chosen names
Opts == [zs : BOOLEAN, fo : BOOLEAN, um : {"none", "units", "rate"}, nm : {"auto", "own"}]
\* polynomial rate a + b t + c t^2 of each declared state (at integer times 0..n-1, step 1)
Polys == {<<1, 0, 0>>, <<-1, 2, 0>>, <<2, 0, -1>>, <<0, 1, 1>>}

VARIABLES method, n, ts, states, phase, hist
vars == <<method, n, ts, states, phase, hist>>

f(p, i) == p[1] + p[2] * i + p[3] * i * i                      \* rate at time i
I6(p, i) == 6 * p[1] * i + 3 * p[2] * i * i + 2 * p[3] * i * i * i   \* 6 times its integral over 0..i

\* 12 times the Simpson history
RECURSIVE Simp12(_, _, _)
Simp12(p, k, y) == IF Len(y) >= k THEN y
    ELSE LET i == Len(y) - 1
             m == y[Len(y)] + 5 * f(p, i) + 8 * f(p, i + 1) - f(p, i + 2)
             e == m + 5 * f(p, i + 2) + 8 * f(p, i + 1) - f(p, i)
         IN Simp12(p, k, y \o <<m, e>>)

SimpsonExact(p, k) == LET y == Simp12(p, k, <<0>>) IN \A j \in 1..k : y[j] = 2 * I6(p, j - 1)

\* the exact integral satisfies every BDF3 relation (order: quadratic rates; three nodes: linear rates)
BDFExact(p, k) ==
    LET y(i) == I6(p, i) IN
    IF k = 3 THEN p[3] = 0 => /\ y(2) - y(0) = 2 * 6 * f(p, 1)
                              /\ y(0) - 4 * y(1) + 3 * y(2) = 2 * 6 * f(p, 2)
    ELSE /\ -2 * y(0) - 3 * y(1) + 6 * y(2) - y(3) = 6 * 6 * f(p, 1)
         /\ y(0) - 6 * y(1) + 3 * y(2) + 2 * y(3) = 6 * 6 * f(p, 2)
         /\ \A i \in 3..(k - 1) : 11 * y(i) - 18 * y(i - 1) + 9 * y(i - 2) - 2 * y(i - 3) = 6 * 6 * f(p, i)

Init == /\ method \in Methods /\ n \in NodeCounts /\ ts \in TimeSetups
        /\ (method = "bdf3" => n # 3)          \* BDF3 needs at least four nodes
        /\ states = <<>> /\ phase = "build" /\ hist = <<>>

AddState == /\ phase = "build" /\ Len(states) < MaxStates
            /\ \E o \in Opts : states' = Append(states, o)
            /\ UNCHANGED <<method, n, ts, phase, hist>>

PolyOf(k) == CASE k = 1 -> <<1, 0, 0>> [] k = 2 -> <<-1, 2, 0>> [] k = 3 -> <<2, 0, -1>> [] OTHER -> <<0, 1, 1>>
\* abstract result: 6 times the exact history (start value 7 unless zero start)
Result(o, p) == [i \in 1..n |-> (IF o.zs THEN 0 ELSE 42) + (IF n = 1 THEN 0 ELSE I6(p, i - 1))]
Run == /\ phase = "build" /\ states # <<>>
       /\ hist' = [k \in 1..Len(states) |-> Result(states[k], PolyOf(k))]
       /\ phase' = "done"
       /\ Emit => PrintT("@@" \o ToJson([method |-> method, n |-> n, ts |-> ts, states |-> states]))
       /\ UNCHANGED <<method, n, ts, states>>

Next == AddState \/ Run
Spec == Init /\ [][Next]_vars

RulesExact == n > 1 => \A p \in Polys : IF method = "simpson" THEN SimpsonExact(p, n) ELSE BDFExact(p, n)
\* a state's history is the one it would have alone, and it starts at its start value
Independent == phase = "done" =>
    \A k \in 1..Len(states) : /\ hist[k] = Result(states[k], PolyOf(k))
                              /\ hist[k][1] = (IF states[k].zs THEN 0 ELSE 42)
Anchored == phase = "done" => Len(hist) = Len(states)
=============================================================================
