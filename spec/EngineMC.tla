------------------------------ MODULE EngineMC ------------------------------
(* Sessions with an engine: choose deck, scaling, fuel; then change the      *)
(* operating points or the rating and run.  The abstract engine gives a      *)
(* thrust T(p) and fuel flow F(p) at point p; the ledger is kept with exact  *)
(* integers (everything times the product of the ratings and heating values).*)
EXTENDS DeckBook, FiniteSets, TLC, Json
CONSTANTS MaxOps, Nodes, Emit
VARIABLES eng, rate, pts, thr, fuel, tab, prog
vars == <<eng, rate, pts, thr, fuel, tab, prog>>
Kinds == {"tab", "off", "mix"}
Rates == {50, 100, 137}                 \* percent of the deck's own rating
T(p) == 7 * p + 3
F(p) == 2 * p + 1
Engines == [deck : Decks, rubber : {FALSE}, hydrogen : {FALSE}, nn : Nodes]
           \cup [deck : Decks \ {"N3Hybrid"}, rubber : {TRUE}, hydrogen : BOOLEAN, nn : Nodes]
\* outputs of a run, thrust in hundredths, fuel energy in hundredths of the kerosene engine's
Out(p, r) == [thrust |-> [i \in DOMAIN p |-> r * T(p[i])],
              fuel |-> [i \in DOMAIN p |-> r * F(p[i]) * LHV(FALSE)]]   \* times LHV(hydrogen): energy flow
Point(k, i) == CASE k = "tab" -> 10 * i [] k = "off" -> 10 * i + 3 [] OTHER -> 10 * i + 3 * (i % 2)
Init == /\ eng \in Engines /\ rate = 100 /\ tab = "tab"
        /\ pts = [i \in 1..eng.nn |-> Point("tab", i)]
        /\ thr = <<>> /\ fuel = <<>> /\ prog = <<>>
Run(p, r) == /\ thr' = Out(p, r).thrust /\ fuel' = Out(p, r).fuel
SetPts(k) == /\ Len(prog) < MaxOps
             /\ pts' = [i \in 1..eng.nn |-> Point(k, i + Len(prog))] /\ tab' = k
             /\ Run(pts', rate) /\ prog' = Append(prog, [op |-> "pts", kind |-> k, rate |-> rate])
             /\ UNCHANGED <<eng, rate>>
SetRate(r) == /\ Len(prog) < MaxOps /\ eng.rubber /\ r # rate
              /\ rate' = r /\ Run(pts, r) /\ prog' = Append(prog, [op |-> "rate", kind |-> tab, rate |-> r])
              /\ UNCHANGED <<eng, pts, tab>>
\* the same engine at the same points in another problem of the same process
Twin == /\ Len(prog) < MaxOps /\ prog # <<>> /\ prog[Len(prog)].op # "twin"
        /\ prog' = Append(prog, [op |-> "twin", kind |-> tab, rate |-> rate])
        /\ UNCHANGED <<eng, rate, pts, tab, thr, fuel>>
Next == (\E k \in Kinds : SetPts(k)) \/ (\E r \in Rates : SetRate(r)) \/ Twin
Spec == Init /\ [][Next]_vars
\* thrust and energy flow are scaled alike, so specific energy consumption is that of the deck
Alike == \A i \in DOMAIN thr : thr[i] * F(pts[i]) * LHV(FALSE) = fuel[i] * T(pts[i])
Rated == \A i \in DOMAIN thr : thr[i] = rate * T(pts[i])
Current == Len(thr) \in {0, eng.nn}
Done == Len(prog) = MaxOps
Report == (Emit /\ Done) => PrintT("@@" \o ToJson([eng |-> eng, prog |-> prog]))
=============================================================================
