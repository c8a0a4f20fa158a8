------------------------------ MODULE ArchTrace ------------------------------
(* Replays evaluations of whole propulsion architectures on ArchGraph: every *)
(* wire carries, every sum adds up, every member device obeys its own law,   *)
(* failed propulsors are throttled off and the generator balance closes.     *)
EXTENDS DeviceLaws, PropMap
G == INSTANCE ArchGraph
VARIABLE l
e == Trace[l]
Knows(p, q) == Has(e.d, p) /\ Has(e.d[p], q)
V(p, q) == e.d[p][q]
\* tolerance of ports inside a solved loop
WireLaw(w) == IF Knows(w[1], w[2]) /\ Knows(w[3], w[4])
              THEN NearN(V(w[3], w[4]), V(w[1], w[2]), "1e-7", "1e-9", w[1] \o "." \o w[2] \o " reaches " \o w[3] \o "." \o w[4]) ELSE Ok
Total(ms) == LET S[i \in 0..Len(ms)] == IF i = 0 THEN 0 ELSE S[i - 1] ++ V(ms[i][1], ms[i][2]) IN S[Len(ms)]
SumLaw(s) == NearN(V("top", s[1]), Total(s[2]), "1e-7", "1e-9", s[1] \o " is the sum over its members")
V2(p) == e.d[p]
DevLaw(d) == DeviceLaw([c |-> d.c, o |-> d.o, x |-> V2(d.p), y |-> V2(d.p)])
FailLaw(p) == NearN(V(p, "throttle"), V("top", "throttle") ** V("top", "propulsor_active"), "1e-9", "1e-12", p \o " is throttled off when it failed")
BalLaw(b) == NearN(V(b[1], b[2]), V(b[3], b[4]), "1e-6", "1e-3", "the generator gives what the bus asks of it")
ResidLaw == IF Knows("eng_gen_resid", "eng_gen_residual")
            THEN NearN(V("eng_gen_resid", "eng_gen_residual"), V("gen1", "elec_power_out") -- V("hybrid_split", "power_out_B"), "1e-9", "1e-6", "the reported generator residual is available less required power") ELSE Ok
Law == LET A == G!Arch(e.c) IN
       Each(Len(A.wires), LAMBDA i : WireLaw(A.wires[i])) \o Each(Len(A.sums), LAMBDA i : SumLaw(A.sums[i]))
       \o Each(Len(A.dev), LAMBDA i : DevLaw(A.dev[i])) \o Each(Len(A.fails), LAMBDA i : FailLaw(A.fails[i]))
       \o Each(Len(A.balance), LAMBDA i : BalLaw(A.balance[i])) \o ResidLaw
\* a propeller run at tabulated points i (power coefficient), j (advance ratio)
MapLaw == LET n == Len(e.i)
              b == e.blades IN
          Near(e.cp, [k \in 1..n |-> CpAt(b, e.i[k])], "1e-9", "1e-12", "map run at the tabulated power coefficients")
       \o Near(e.J, [k \in 1..n |-> JAt(b, e.j[k])], "1e-9", "1e-12", "map run at the tabulated advance ratios")
       \o Near(e.eta, [k \in 1..n |-> EtaAt(b, e.i[k], e.j[k])], "1e-6", "1e-7", "propeller efficiency is the tabulated one at tabulated points")
StaticLaw == LET n == Len(e.i) IN
          Near(e.stat, [k \in 1..n |-> StaticAt(e.blades, e.i[k])], "1e-6", "1e-7", "static thrust per power is the tabulated one at tabulated points")
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE e.ev = "Arch" -> Report(e.sid, Law)
             [] e.ev = "Eval" -> Report(e.sid, DeviceLaw(e))
             [] e.ev = "Map" -> Report(e.sid, MapLaw)
             [] e.ev = "Static" -> Report(e.sid, StaticLaw)
             [] e.ev = "Solves" -> Report(e.sid, Solves(e))
             [] e.ev = "Unset" -> Report(e.sid, Unset(e))
             [] e.ev = "Exc" -> Report(e.sid, << <<"a legal program runs", e.what>> >>)
             [] OTHER -> TRUE
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
