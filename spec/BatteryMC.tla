------------------------------ MODULE BatteryMC ------------------------------
(* A battery's ledger over a mission flown in phases.  Draw and charge steps *)
(* change the stored energy; a cut starts a new phase, which either takes    *)
(* over the charge (linked) or starts from its own initial charge.  The      *)
(* charge is always the initial one minus what was drawn since.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS E0, Powers, MaxSteps, MaxPhases, Emit
VARIABLES stored, start, drawn, prog, total, chainstart
vars == <<stored, start, drawn, prog, total, chainstart>>
\* prog: sequence of phases [link, steps]
Init == stored = E0 /\ start = E0 /\ drawn = 0 /\ prog = << [link |-> FALSE, steps |-> <<>>] >> /\ total = 0 /\ chainstart = E0
Steps == LET F[i \in 0..Len(prog)] == IF i = 0 THEN 0 ELSE F[i - 1] + Len(prog[i].steps) IN F[Len(prog)]
Draw(p) == /\ Steps < MaxSteps
           /\ stored' = stored - p /\ drawn' = drawn + p /\ total' = total + p
           /\ prog' = [prog EXCEPT ![Len(prog)].steps = Append(@, p)] /\ UNCHANGED <<start, chainstart>>
Cut(link) == /\ Len(prog) < MaxPhases /\ prog[Len(prog)].steps # <<>>
             /\ prog' = Append(prog, [link |-> link, steps |-> <<>>])
             /\ stored' = IF link THEN stored ELSE E0
             /\ start' = IF link THEN stored ELSE E0
             /\ drawn' = 0
             /\ chainstart' = IF link THEN chainstart ELSE E0
             /\ total' = IF link THEN total ELSE 0
Next == (\E p \in Powers : Draw(p - 1)) \/ \E k \in BOOLEAN : Cut(k)
Spec == Init /\ [][Next]_vars
\* phase ledger, chain ledger, and their agreement however the discharge is cut
PhaseBook == stored = start - drawn
ChainBook == stored = chainstart - total
Done == Steps = MaxSteps /\ prog[Len(prog)].steps # <<>>
Report == (Emit /\ Done) => PrintT("@@" \o ToJson(prog))
=============================================================================
