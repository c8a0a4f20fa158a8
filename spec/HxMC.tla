--------------------------------- MODULE HxMC ---------------------------------
(* Two streams exchanging heat packet by packet in integer enthalpy units:   *)
(* a packet passes only from the hotter inlet side while neither stream has  *)
(* passed the other's inlet temperature.  Whatever the number of packets,    *)
(* energy is conserved, no outlet leaves the range of the inlets and the     *)
(* heat never exceeds the smaller capacity times the inlet difference.       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Caps, Temps, MaxQ, Emit
VARIABLES Cc, Ch, Tc, Th, q
vars == <<Cc, Ch, Tc, Th, q>>
Init == Cc \in Caps /\ Ch \in Caps /\ Tc \in Temps /\ Th \in Temps /\ q = 0
Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
Sign == IF Th > Tc THEN 1 ELSE IF Th < Tc THEN -1 ELSE 0
\* enthalpies of the outlets relative to the inlets are -q and +q
MayPass == Sign # 0 /\ (Abs(q) + 1) <= Ch * Abs(Th - Tc) /\ (Abs(q) + 1) <= Cc * Abs(Th - Tc)
Pass == MayPass /\ Abs(q) < MaxQ /\ q' = q + Sign /\ UNCHANGED <<Cc, Ch, Tc, Th>>
Next == Pass
Spec == Init /\ [][Next]_vars
Limit == Abs(q) <= Min(Cc, Ch) * Abs(Th - Tc)
Range == LET oh == Ch * Th - q
             oc == Cc * Tc + q
         IN /\ Ch * Min(Tc, Th) <= oh /\ oh <= Ch * (Tc + Th - Min(Tc, Th))
            /\ Cc * Min(Tc, Th) <= oc /\ oc <= Cc * (Tc + Th - Min(Tc, Th))
FromHot == q * (Th - Tc) >= 0
Rel(a, b) == IF a < b THEN "lt" ELSE IF a = b THEN "eq" ELSE "gt"
Report == (Emit /\ q = 0) => PrintT("@@" \o ToJson([cap |-> Rel(Cc, Ch), temp |-> Rel(Tc, Th), ratio |-> [c |-> Cc, h |-> Ch], dT |-> Th - Tc]))
=============================================================================
