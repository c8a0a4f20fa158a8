------------------------------- MODULE LawLib -------------------------------
(* Reading a recorded evaluation: e.x inputs, e.y outputs (SI), e.o options  *)
(* given; options not given have their documented defaults.                  *)
EXTENDS TraceLib
R9 == "1e-9"
Opt(e, n, d) == Get(e.o, n, d)
X(e, n) == e.x[n]
Y(e, n) == e.y[n]
Lin(e, base, size, dinc, dbase) == (Opt(e, base \o "_inc", dinc) ** size) ++ Opt(e, base \o "_base", dbase)
Grav == "9.80665"
=============================================================================
