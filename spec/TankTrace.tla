------------------------------ MODULE TankTrace ------------------------------
(* Replays tank parts one at a time (Eval) and tanks flown in linked and     *)
(* unlinked phases (Run), at any number of nodes.                            *)
EXTENDS TankLaws, Quadrature
VARIABLE l
e == Trace[l]
\* mass drawn since the fill, over phase k
RECURSIVE Since(_)
Drawn(k) == LET f == e.phases[k]
                n == Len(f.rate)
            IN Hist("simpson", Since(k), f.rate, IF n = 1 THEN 1 ELSE f.dur // (n - 1))
Since(k) == IF e.phases[k].link THEN LET h == Drawn(k - 1) IN h[Len(h)] ELSE 0
Phase(k) == LET f == e.phases[k]
                ini == Start(f)
                full == FullMass(f, f.x["radius"], f.x["length"])
                at == "1e-11" ** FMaxOf(<<ini, FMaxOf(FAbs(f.rate)) ** f.dur>>)
            IN Near(f.m_liq[1], ini -- Since(k), 0, at, IF f.link THEN "a linked tank starts with what the previous phase left" ELSE "a tank starts at the requested fill of its volume")
            \o Near(f.m_liq, ini -- Drawn(k), 0, "10" ** at, "hydrogen left is the initial fill minus what was drawn")
            \o Near(f.fill, f.m_liq // full, "1e-10", "1e-13", "fill level is the share of the tank's volume")
            \o Near(f.tank, Structure(f), R9, 0, "tank structure is both walls and insulation times the fudge factor")
            \o Near(f.total, f.m_liq ++ f.tank, "1e-11", at, "total weight is hydrogen plus structure")
Given(t) == FSum([i \in 1..Len(e.poly) |-> (e.poly[i] ** FPow(t, i)) // i])
Exact == IF e.poly = <<>> THEN Ok
         ELSE LET T == FSum([k \in 1..Len(e.phases) |-> e.phases[k].dur])
                  f == e.phases[Len(e.phases)]
              IN Near(f.m_liq[Len(f.m_liq)], Start(f) -- Given(T), 0, "1e-9" ** FMaxOf(<<Start(f), FAbs(Given(T))>>), "hydrogen left is independent of nodes and phases")
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE e.ev = "Eval" -> Report(e.sid, TankLaw(e))
             [] e.ev = "Run" -> Report(e.sid, Each(Len(e.phases), Phase) \o Exact)
             [] e.ev = "Exc" -> Report(e.sid, << <<"a legal program runs", e.what>> >>)
             [] OTHER -> TRUE
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
