------------------------------- MODULE WaveMC -------------------------------
(* Wave drag of a wing region in whole Mach units: the critical Mach number  *)
(* falls with lift and thickness and rises with airfoil technology; drag is  *)
(* the fourth power of the excess.  Sections outside the region and the      *)
(* thickness distribution beyond its area average do not count.              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Machs, MaxSteps, Regions, Emit
VARIABLES region, mach, cl, tc, tech, outer, hist, prog
vars == <<region, mach, cl, tc, tech, outer, hist, prog>>
Cube(n) == n * n * n
Crit(c, t, k) == 3 + k - c - t
Drag(m, c, t, k) == IF m > Crit(c, t, k) THEN Cube(m - Crit(c, t, k)) * (m - Crit(c, t, k)) ELSE 0
D == Drag(mach, cl, tc, tech)
Init == /\ region \in Regions /\ mach \in Machs /\ cl = 0 /\ tc = 0 /\ tech = 0 /\ outer = 0
        /\ hist = <<Drag(mach, 0, 0, 0)>> /\ prog = <<>>
Log(a) == /\ Len(prog) < MaxSteps
          /\ prog' = Append(prog, a)
          /\ hist' = Append(hist, Drag(mach', cl', tc', tech'))
Faster == /\ mach + 1 \in Machs /\ mach' = mach + 1 /\ UNCHANGED <<region, cl, tc, tech, outer>> /\ Log("Faster")
Slower == /\ mach - 1 \in Machs /\ mach' = mach - 1 /\ UNCHANGED <<region, cl, tc, tech, outer>> /\ Log("Slower")
Load == /\ cl < 1 /\ cl' = cl + 1 /\ UNCHANGED <<region, mach, tc, tech, outer>> /\ Log("Load")
Unload == /\ cl > 0 /\ cl' = cl - 1 /\ UNCHANGED <<region, mach, tc, tech, outer>> /\ Log("Unload")
Thicken == /\ tc < 1 /\ tc' = tc + 1 /\ UNCHANGED <<region, mach, cl, tech, outer>> /\ Log("Thicken")
Thin == /\ tc > 0 /\ tc' = tc - 1 /\ UNCHANGED <<region, mach, cl, tech, outer>> /\ Log("Thin")
Retech == /\ tech < 1 /\ tech' = tech + 1 /\ UNCHANGED <<region, mach, cl, tc, outer>> /\ Log("Retech")
Outside == /\ region # "whole" /\ outer' = 1 - outer /\ UNCHANGED <<region, mach, cl, tc, tech>> /\ Log("Outside")
Next == Faster \/ Slower \/ Load \/ Unload \/ Thicken \/ Thin \/ Retech \/ Outside
Spec == Init /\ [][Next]_vars
N == Len(prog)
Up == {"Faster", "Load", "Thicken"}
Down == {"Slower", "Unload", "Thin", "Retech"}
ZeroBelow == (mach <= Crit(cl, tc, tech)) => D = 0
GrowsAbove == (mach > Crit(cl, tc, tech)) => D > 0 /\ Drag(mach + 1, cl, tc, tech) > D
Monotone == N > 0 => LET a == prog[N] b == hist[N] n == hist[N + 1] IN
    /\ (a \in Up => n >= b) /\ (a \in Down => n <= b) /\ (a = "Outside" => n = b)
Report == (Emit /\ N = MaxSteps) => PrintT("@@" \o ToJson([wave |-> region, mach |-> mach, steps |-> prog]))
=============================================================================
