------------------------------- MODULE AtmosMC -------------------------------
(* An aircraft climbs and descends through the atmosphere, one grid level at *)
(* a time; the law is checked at every level and every step (monotone,       *)
(* continuous, smooth at the joins, near the true standard), and the kinds   *)
(* of altitude bands a mission's nodes may lie in are enumerated.            *)
EXTENDS AtmosLaws, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Step, MaxNodes, Emit
VARIABLES h, prev, nodes, mode, phase
vars == <<h, prev, nodes, mode, phase>>
BandNames == {"below", "ground", "tropo", "lo", "lo-", "lo+", "join", "hi-", "hi", "hi+", "strato"}
Init == h = -1000 /\ prev = -1000 /\ nodes = <<>> /\ mode \in {"eas", "tas"} /\ phase = "fly"
Climb == /\ phase = "fly" /\ nodes = <<>> /\ mode = "eas" /\ h + Step <= 20000 /\ prev' = h /\ h' = h + Step /\ UNCHANGED <<nodes, mode, phase>>
Descend == /\ phase = "fly" /\ nodes = <<>> /\ mode = "eas" /\ h - Step >= -1000 /\ prev' = h /\ h' = h - Step /\ UNCHANGED <<nodes, mode, phase>>
\* choose the bands of the nodes of one evaluation
Pick(b) == /\ phase = "fly" /\ h = -1000 /\ prev = -1000 /\ Len(nodes) < MaxNodes
           /\ nodes' = Append(nodes, b) /\ UNCHANGED <<h, prev, mode, phase>>
Eval == /\ phase = "fly" /\ h = -1000 /\ Len(nodes) \in {1, 2, MaxNodes} /\ phase' = "done" /\ UNCHANGED <<h, prev, nodes, mode>>
        /\ Emit => PrintT("@@" \o ToJson([nodes |-> nodes, mode |-> mode]))
Next == Climb \/ Descend \/ Eval \/ \E b \in BandNames : Pick(b)
Spec == Init /\ [][Next]_vars
T(x) == Temp(<<x>>)
P(x) == Press(<<x>>)
lo == IF h < prev THEN h ELSE prev
hi == IF h < prev THEN prev ELSE h
Monotone == FAllLe(T(hi), T(lo) ++ "1e-9") /\ (hi > lo => FAllLe(P(hi), P(lo) -- "1e-6")) /\ FAllLe(Rho(P(hi), T(hi)), Rho(P(lo), T(lo)) ++ "1e-12")
\* the recorded slope is the slope: central difference with the grid's own step
Smooth == FClose((T(h + 1) -- T(h - 1)) // 2, DTemp(<<h>>), 0, "2e-5") /\ FClose((P(h + 1) -- P(h - 1)) // 2, DPress(<<h>>), "2e-4", "1e-4")
NearStandard == FClose(T(h), IsaT(<<h>>), 0, "0.9") /\ FClose(P(h), IsaP(<<h>>), "6e-3", 0)
Inverse == \A U \in {1, 80, 250} : LET r == Rho(P(h), T(h)) IN FClose(Utrue(Ueas(<<U>>, r), r), <<U>>, "1e-14", 0) /\ FClose(Q(RhoSL, Ueas(<<U>>, r)), Q(r, <<U>>), "1e-13", 0)
=============================================================================
