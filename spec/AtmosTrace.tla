------------------------------ MODULE AtmosTrace ------------------------------
(* Replays recorded evaluations of the atmosphere and airspeed models.       *)
EXTENDS TraceLib, AtmosLaws
VARIABLES l, last
e == Trace[l]
X(n) == e.x["fltcond|" \o n]
Y(n) == e.y["fltcond|" \o n]
HasX(n) == Has(e.x, "fltcond|" \o n)
HasY(n) == Has(e.y, "fltcond|" \o n)
V(n) == IF HasY(n) THEN Y(n) ELSE X(n)
R == "1e-9"
Laws ==
    (IF HasY("T") THEN Near(Y("T"), Temp(X("h")) ++ X("TempIncrement"), "1e-8", 0, "temperature law") ELSE Ok)
 \o (IF HasY("p") THEN Near(Y("p"), Press(X("h")), "1e-8", 0, "pressure law") ELSE Ok)
 \o (IF HasY("T") THEN Near(Y("T") -- X("TempIncrement"), IsaT(X("h")), 0, "0.9", "temperature near the standard")  ELSE Ok)
 \o (IF HasY("p") THEN Near(Y("p"), IsaP(X("h")), "6e-3", 0, "pressure near the standard") ELSE Ok)
 \o (IF HasY("rho") THEN Near(Y("rho"), Rho(V("p"), V("T")), R, 0, "density is that of an ideal gas") ELSE Ok)
 \o (IF HasY("a") THEN Near(Y("a"), Sound(V("T")), R, 0, "speed of sound of a perfect gas") ELSE Ok)
 \o (IF HasY("Utrue") THEN Near(Y("Utrue"), Utrue(X("Ueas"), V("rho")), R, 0, "true airspeed from equivalent airspeed") ELSE Ok)
 \o (IF HasY("Ueas") THEN Near(Y("Ueas"), Ueas(X("Utrue"), V("rho")), R, 0, "equivalent airspeed from true airspeed") ELSE Ok)
 \o (IF HasY("M") THEN Near(Y("M"), Mach(V("Utrue"), V("a")), R, 0, "Mach number") ELSE Ok)
 \o (IF HasY("q") THEN Near(Y("q"), Q(V("rho"), V("Utrue")), R, 0, "dynamic pressure") ELSE Ok)
\* slopes to altitude: rows over nodes; nothing from other nodes
Diag(d) == [i \in 1..Len(d) |-> [j \in 1..Len(d) |-> IF i = j THEN d[i] ELSE 0]]
Slopes == IF ~Has(e, "J") THEN Ok
          ELSE Each(Len(e.J), LAMBDA k : LET s == e.J[k] IN
               IF s.of = "fltcond|T" THEN Near(s.J, Diag(DTemp(X("h"))), "1e-7", "1e-12", "temperature slope with altitude")
               ELSE IF s.of = "fltcond|p" THEN Near(s.J, Diag(DPress(X("h"))), "1e-7", "1e-10", "pressure slope with altitude") ELSE Ok)
\* within one evaluation: higher nodes are not warmer, denser or at higher pressure
Order == IF ~HasX("h") THEN Ok
         ELSE LET h == X("h") IN
              Each(Len(h), LAMBDA i : Each(Len(h), LAMBDA j :
                 IF ~FLt(h[i], h[j]) THEN Ok
                 ELSE (IF HasY("p") THEN Chk(FLe(Y("p")[j], Y("p")[i]), "pressure never increases with altitude", <<h[i], h[j]>>) ELSE Ok)
                   \o (IF HasY("T") /\ FEq(X("TempIncrement")[i], X("TempIncrement")[j])
                       THEN Chk(FLe(Y("T")[j], Y("T")[i] ++ "1e-9"), "temperature never increases with altitude", <<h[i], h[j]>>)
                         \o (IF HasY("rho") THEN Chk(FLe(Y("rho")[j], Y("rho")[i]), "density never increases with altitude", <<h[i], h[j]>>) ELSE Ok)
                       ELSE Ok)))
\* the two ways of giving the airspeed are inverse: the second model got the first one's answer
Round == IF ~Has(e, "want") THEN Ok ELSE Near(IF HasY("Ueas") THEN Y("Ueas") ELSE Y("Utrue"), e.want, "1e-10", 0, "true and equivalent airspeed are inverse")
Init == l = 1 /\ last = <<>>
Next == /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED last
        /\ CASE e.ev = "Eval" -> Report(e.sid, Laws \o Slopes \o Order \o Round)
             [] e.ev = "Exc" -> Report(e.sid, << <<"a legal program runs", e.what>> >>)
             [] OTHER -> TRUE
Spec == Init /\ [][Next]_<<l, last>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
