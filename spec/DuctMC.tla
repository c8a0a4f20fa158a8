-------------------------------- MODULE DuctMC --------------------------------
(* Air passing a duct in integer units: free-stream totals, an inlet         *)
(* recovery, three stations each adding heat and a pressure change, and a    *)
(* nozzle that chokes when the pressure ratio allows.  Totals change only by *)
(* what each station declares and one mass flow crosses all of them.  The    *)
(* settings of every station are the scenario for the real duct.             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Tt0, Pt0, Pexit, Heats, Drops, Recs, Losses, Emit
VARIABLES k, Tt, pt, flows, hist, added, lost
vars == <<k, Tt, pt, flows, hist, added, lost>>
Init == \E eta \in Recs : k = 0 /\ Tt = Tt0 /\ pt = (Pt0 * eta) \div 100 /\ flows = <<1>> /\ hist = << [eta |-> eta] >> /\ added = 0 /\ lost = Pt0 - (Pt0 * eta) \div 100
Station(h, d, r, f) == /\ k < 3 /\ k' = k + 1
                       /\ Tt' = Tt + (h - 1) /\ added' = added + (h - 1)
                       /\ LET p == (pt * r) \div 100 - f - d IN pt' = p /\ lost' = lost + (pt - p)
                       /\ flows' = Append(flows, flows[1]) /\ hist' = Append(hist, [heat |-> h - 1, drop |-> d, rec |-> r, loss |-> f])
Nozzle(f) == /\ k = 3 /\ k' = 4 /\ pt' = pt - f /\ lost' = lost + f /\ flows' = Append(flows, flows[1])
             /\ hist' = Append(hist, [loss |-> f, choked |-> 1000 * Pexit < 528 * (pt - f)]) /\ UNCHANGED <<Tt, added>>
Next == (\E h \in Heats, d \in Drops, r \in Recs, f \in Losses : Station(h, d, r, f)) \/ \E f \in Losses : Nozzle(f)
Spec == Init /\ [][Next]_vars
Energy == Tt = Tt0 + added
Pressure == pt = Pt0 - lost /\ lost >= 0
Continuity == \A i, j \in 1..Len(flows) : flows[i] = flows[j]
Report == (Emit /\ k = 4) => PrintT("@@" \o ToJson(hist))
=============================================================================
