----------------------------- MODULE EngineTrace -----------------------------
(* Replays recorded engine sessions.                                         *)
(*  Deck:  the data a deck was built from, and the raw tables                *)
(*  Face:  the names of a model's ports                                      *)
(*  Run:   one run of an engine, of the plain deck at the same points, of    *)
(*         each point alone, and the slopes                                  *)
EXTENDS LawLib, DeckBook
VARIABLE l
e == Trace[l]
\* ---- data of a deck: rows <<throttle, h, M, kW, thrust, fuel, aux>>, key figures as integers, values as 10 digit strings
Cell(t, i, j, k) == t[i][j][k]
NI == Len(e.raw.thrust)
NJ == Len(e.raw.thrust[1])
NK == Len(e.raw.thrust[1][1])
KeyT(i, j, k) == IF e.deck = "CFM56" THEN CfmT(k) ELSE Cell(e.raw.throttle, i, j, k)
KeyH(i, j, k) == IF e.deck = "CFM56" THEN CfmH(i) ELSE Cell(e.raw.alt, i, j, k)
KeyM(i, j, k) == IF e.deck = "CFM56" THEN CfmM(j) ELSE Cell(e.raw.mach, i, j, k)
\* a run that did not converge is stored as zero or -1
Good(s, i, j, k) == Cell(s.ok, i, j, k)
Slices == e.raw.slices     \* one per amount of shaft power added: [kw, ok, fuel, aux]
RowsOf(P(_, _, _, _)) == UNION { { <<KeyT(q[1], q[2], q[3]), KeyH(q[1], q[2], q[3]), KeyM(q[1], q[2], q[3]), s.kw,
                                     Cell(e.raw.thrust, q[1], q[2], q[3]), Cell(s.fuel, q[1], q[2], q[3]), Cell(s.aux, q[1], q[2], q[3])>>
                                   : q \in { q \in (1..NI) \X (1..NJ) \X (1..NK) : P(s, q[1], q[2], q[3]) } } : s \in { Slices[n] : n \in 1..Len(Slices) } }
Must(s, i, j, k) == Good(s, i, j, k) /\ ~Open(e.deck, KeyH(i, j, k), KeyM(i, j, k))
May(s, i, j, k) == Good(s, i, j, k)
Deck == LET have == { e.rows[n] : n \in 1..Len(e.rows) }
        IN Chk(RowsOf(Must) \subseteq have, "the deck is built from every converged engine run of its tables", [deck |-> e.deck, n |-> Cardinality(RowsOf(Must) \ have)])
           \o Chk(have \subseteq RowsOf(May), "the deck is built from nothing but the converged engine runs of its tables", [deck |-> e.deck, n |-> Cardinality(have \ RowsOf(May))])
           \o Chk(Cardinality(have) = Len(e.rows), "every engine run enters the deck once", [deck |-> e.deck, n |-> Len(e.rows)])
Set(s) == { s[n] : n \in 1..Len(s) }
Face == Chk(Ports(e.deck) \subseteq Set(e.ins) /\ Set(e.ins) \subseteq Ports(e.deck) \cup (IF e.rubber THEN {"ac|propulsion|engine|rating"} ELSE {}),
            "engine models share one flight condition interface", e.ins)
        \o Chk(Outs(e.deck) \subseteq Set(e.outs), "engine models report thrust, fuel flow and their margin", e.outs)
\* ---- runs; units: table in lbf, lbm/s, degR or percent
Lbf == "4.4482216152605"
Lbm == "0.45359237"
AuxSI(v) == IF e.deck = "CFM56" THEN v // "1.8" ELSE v
Scale == IF e.rubber THEN e.rating // (RatingLbf(e.deck) ** Lbf) ELSE 1
FuelScale == IF e.rubber THEN (Scale ** LHV(FALSE)) // LHV(e.hydrogen) ELSE 1
Tab(n) == IF e.want[n] = <<>> THEN Ok
          ELSE Near(e.y.thrust[n], Scale ** (e.want[n][1] ** Lbf), "2e-3", "10", "thrust at a tabulated point is the tabulated one")
               \o Near(e.y.fuel[n], FuelScale ** (e.want[n][2] ** Lbm), "8e-3", "1e-3", "fuel flow at a tabulated point is the tabulated one")
               \o Near(e.y.aux[n], AuxSI(e.want[n][3]), "2e-3", IF e.deck = "CFM56" THEN 1 ELSE "0.6", "temperature or surge margin at a tabulated point is the tabulated one")
Run == Each(Len(e.want), Tab)
       \o Near(e.y.thrust, Scale ** e.deckrun.thrust, "1e-6", "1e-3", "scaled thrust is the deck's times rating over the deck's rating")
       \o Near(e.y.fuel, FuelScale ** e.deckrun.fuel, "1e-6", "1e-7", "scaled fuel flow carries the deck's fuel energy times rating over the deck's rating")
       \o Near(e.y.aux, e.deckrun.aux, "1e-6", "1e-5", "temperature or surge margin does not depend on the rating")
       \o Near(e.y.thrust, e.alone.thrust, "1e-6", "1e-3", "a node's thrust is that of the point alone")
       \o Near(e.y.fuel, e.alone.fuel, "1e-6", "1e-7", "a node's fuel flow is that of the point alone")
       \o Near(e.y.aux, e.alone.aux, "1e-6", "1e-5", "a node's margin is that of the point alone")
       \o (IF Has(e, "J") THEN
             (IF e.rubber THEN Near(e.J.trate, e.y.thrust // e.rating, "1e-8", "1e-12", "slope of thrust in the rating")
                               \o Near(e.J.frate, e.y.fuel // e.rating, "1e-8", "1e-15", "slope of fuel flow in the rating") ELSE Ok)
             \o NearN(e.J.tthr, e.J.fdt, "2e-4", "1", "slope of thrust in the throttle")
             \o NearN(e.J.fthr, e.J.fdf, "2e-3", "1e-5", "slope of fuel flow in the throttle")
           ELSE Ok)
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE e.ev = "Deck" -> Report(e.sid, Deck)
             [] e.ev = "Face" -> Report(e.sid, Face)
             [] e.ev = "Run" -> Report(e.sid, Run)
             [] e.ev = "Same" -> Report(e.sid, Near(e.a, e.b, "1e-6", "1e-5", "a twin engine in the same process gives the same results"))
             [] e.ev = "Exc" -> Report(e.sid, << <<"a legal program runs", e.what>> >>)
             [] OTHER -> TRUE
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
