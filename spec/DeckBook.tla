------------------------------ MODULE DeckBook ------------------------------
(* What the engine decks are: tables of engine runs over altitude, Mach      *)
(* number, throttle (and shaft power added), of which only the converged     *)
(* ones are data, and the ratings the decks were computed at.                *)
EXTENDS Integers, Sequences
Decks == {"CFM56", "N3", "N3Hybrid"}
RatingLbf(d) == IF d = "CFM56" THEN 27300 ELSE 28620
Aux(d) == IF d = "CFM56" THEN "T4" ELSE "surge_margin"
Ports(d) == {"throttle", "fltcond|h", "fltcond|M"} \cup (IF d = "N3Hybrid" THEN {"hybrid_power"} ELSE {})
Outs(d) == {"thrust", "fuel_flow", Aux(d)}
\* specific energies in MJ/kg
LHV(hydrogen) == IF hydrogen THEN 120 ELSE 43
\* grid of the CFM56 deck, index from 1: altitude and Mach and throttle fall
CfmH(i) == 35000 - 5000 * (i - 1)
CfmM(j) == 800 - 100 * (j - 1)
CfmT(k) == 1000 - 100 * (k - 1)
\* points whose presence in the data is left open: sea level at high speed
Open(d, h, m) == d = "CFM56" /\ h = 0 /\ m > 500
=============================================================================
