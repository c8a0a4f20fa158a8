------------------------------- MODULE DeviceMC -------------------------------
(* Power flowing through a chain of abstract devices in integer units        *)
(* (percent efficiencies, power in multiples of 100): a device takes power   *)
(* from one port and gives it to its outputs and to heat.  The ledger must   *)
(* balance for every chain.  Each device step is also a scenario for the     *)
(* real device: rule, efficiency and the relation of its power to its        *)
(* command.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Source, Effs, Fracs, Amounts, MaxDev, Emit
VARIABLES ports, heat, hist
vars == <<ports, heat, hist>>
\* powers are multiples of 10^4 so that two percentages never round
Init == ports = <<Source * 1000000>> /\ heat = 0 /\ hist = <<>>
Sum(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE F[i - 1] + s[i] IN F[Len(s)]
Min(a, b) == IF a < b THEN a ELSE b
Take(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Convert(i, eta, kind) ==
    /\ ports[i] % 100 = 0
    /\ ports' = Append(Take(ports, i), (ports[i] * eta) \div 100)
    /\ heat' = heat + (ports[i] * (100 - eta)) \div 100
    /\ hist' = Append(hist, [dev |-> kind, eta |-> eta, rel |-> IF ports[i] = 0 THEN "zero" ELSE "some"])
Split(i, eta, rule, a, rel) ==
    /\ ports[i] % 100 = 0 /\ (a * eta) % 100 = 0 /\ ((ports[i] - a) * eta) % 100 = 0
    /\ ports' = Take(ports, i) \o <<(a * eta) \div 100, ((ports[i] - a) * eta) \div 100>>
    /\ heat' = heat + (ports[i] * (100 - eta)) \div 100
    /\ hist' = Append(hist, [dev |-> "split", eta |-> eta, rule |-> rule, rel |-> rel])
Rel(p, a) == IF p < a THEN "clipped" ELSE IF p = a THEN "equal" ELSE IF a = 0 THEN "none" ELSE "partial"
Next == /\ Len(hist) < MaxDev
        /\ \E i \in 1..Len(ports), eta \in Effs :
           \/ Convert(i, eta, "motor") \/ Convert(i, eta, "generator") \/ Convert(i, eta, "battery")
           \/ \E f \in Fracs : (ports[i] * f) % 100 = 0 /\ Split(i, eta, "fraction", (ports[i] * f) \div 100, IF f = 0 THEN "none" ELSE IF f = 100 THEN "equal" ELSE "partial")
           \/ \E a \in Amounts : Split(i, eta, "fixed", Min(ports[i], a * 1000000), Rel(ports[i], a * 1000000))
Spec == Init /\ [][Next]_vars
Balance == Sum(ports) + heat = Source * 1000000
NoneNegative == heat >= 0 /\ \A i \in 1..Len(ports) : ports[i] >= 0
Report == (Emit /\ Len(hist) = MaxDev) => PrintT("@@" \o ToJson(hist))
=============================================================================
