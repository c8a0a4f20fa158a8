------------------------------- MODULE TankMC -------------------------------
(* The ledger of a mission's hydrogen tanks.  A mission flies in phases; in  *)
(* each the engines draw (or a tanker gives back) mass step by step.  A      *)
(* phase linked to the one before carries on its tank; any other phase       *)
(* starts with a full tank of its own.  Whatever the history, the mass in    *)
(* the tank is the initial fill minus what was drawn since that fill, and    *)
(* the weight is that mass plus the structure, which never changes.          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Fill, Struct, Draws, MaxSteps, MaxPhases, Emit
VARIABLES mass, weight, used, prog
vars == <<mass, weight, used, prog>>
Init == mass = Fill /\ weight = Fill + Struct /\ used = 0 /\ prog = << [link |-> FALSE, steps |-> <<>>] >>
Steps == LET F[i \in 0..Len(prog)] == IF i = 0 THEN 0 ELSE F[i - 1] + Len(prog[i].steps) IN F[Len(prog)]
Draw(d) == /\ Steps < MaxSteps
           /\ mass' = mass - (d - 1) /\ weight' = weight - (d - 1) /\ used' = used + (d - 1)
           /\ prog' = [prog EXCEPT ![Len(prog)].steps = Append(@, d - 1)]
Cut(link) == /\ Len(prog) < MaxPhases /\ prog[Len(prog)].steps # <<>>
             /\ prog' = Append(prog, [link |-> link, steps |-> <<>>])
             /\ mass' = (IF link THEN mass ELSE Fill) /\ used' = (IF link THEN used ELSE 0)
             /\ weight' = (IF link THEN weight ELSE Fill + Struct)
Next == (\E d \in Draws : Draw(d)) \/ (\E k \in BOOLEAN : Cut(k))
Spec == Init /\ [][Next]_vars
Conserved == mass + used = Fill
Weighs == weight = mass + Struct
Done == Steps = MaxSteps /\ prog[Len(prog)].steps # <<>>
Report == (Emit /\ Done) => PrintT("@@" \o ToJson(prog))
=============================================================================
