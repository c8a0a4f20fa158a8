------------------------------- MODULE ThermalMC -------------------------------
(* Coolant flowing through a network in integer units: streams with a mass   *)
(* flow and an enthalpy flow, heated, split and combined in any order.       *)
(* Whatever is built, mass is conserved, enthalpy changes by exactly the     *)
(* heat given, and mixing never makes a temperature outside its parts'.      *)
(* The programs reached are built from the real components.                  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS M0, T0, Heats, Fracs, MaxOps, Emit
VARIABLES str, added, prog, hull
vars == <<str, added, prog, hull>>
Sum(s, f(_)) == LET F[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE F[i - 1] + f(s[i]) IN F[Len(s)]
M(x) == x.m
H(x) == x.h
Take(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Init == str = << [m |-> M0, h |-> M0 * T0] >> /\ added = 0 /\ prog = <<>> /\ hull = TRUE
Op(o) == Len(prog) < MaxOps /\ prog' = Append(prog, o)
Heat(i, q) == /\ Op([op |-> "heat", i |-> i, q |-> q])
              /\ str' = Append(Take(str, i), [str[i] EXCEPT !.h = @ + q]) /\ added' = added + q /\ UNCHANGED hull
Split(i, f) == /\ (str[i].m * f) % 100 = 0 /\ (str[i].h * f) % 100 = 0 /\ Len(str) < 3
               /\ Op([op |-> "split", i |-> i, q |-> f])
               /\ LET a == [m |-> (str[i].m * f) \div 100, h |-> (str[i].h * f) \div 100]
                  IN str' = Take(str, i) \o <<a, [m |-> str[i].m - a.m, h |-> str[i].h - a.h]>>
               /\ UNCHANGED <<added, hull>>
\* T between the parts': cross-multiplied, as masses may be zero
Between(a, b) == LET lo(x, y) == x.h * y.m <= y.h * x.m
                     c == [m |-> a.m + b.m, h |-> a.h + b.h]
                 IN (lo(a, b) => lo(a, c) /\ lo(c, b)) /\ (lo(b, a) => lo(b, c) /\ lo(c, a))
Combine(i, j) == /\ i < j /\ Op([op |-> "combine", i |-> i, q |-> j])
                 /\ str' = Append(Take(Take(str, j), i), [m |-> str[i].m + str[j].m, h |-> str[i].h + str[j].h])
                 /\ hull' = (hull /\ Between(str[i], str[j])) /\ UNCHANGED added
Next == \E i \in 1..Len(str) :
          \/ \E q \in Heats : Heat(i, q)
          \/ \E f \in Fracs : Split(i, f)
          \/ \E j \in 1..Len(str) : Combine(i, j)
Spec == Init /\ [][Next]_vars
MassKept == Sum(str, M) = M0 /\ \A i \in 1..Len(str) : str[i].m > 0
HeatKept == Sum(str, H) = M0 * T0 + added
Mixed == hull
Report == (Emit /\ Len(prog) = MaxOps) => PrintT("@@" \o ToJson(prog))
=============================================================================
