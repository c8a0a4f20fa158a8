--------------------------- MODULE IntegratorTrace ---------------------------
(* Replays recorded integrator sessions.  The state is the declared program; *)
(* every Run must produce exactly the histories the rules prescribe for the  *)
(* inputs of that Run, and every Totals the slopes of the same rules.        *)
EXTENDS TraceLib, Quadrature
VARIABLES l, prog, runs
vars == <<l, prog, runs>>

NoProg == [method |-> "none"]
Init == l = 1 /\ prog = NoProg /\ runs = 0
e == Trace[l]

RT == "1e-10"
\* history of state k for the recorded inputs
H(k, r) == LET s == prog.states[k] IN
    Hist(prog.method, IF s.zs THEN 0 ELSE r.q0[k], r.f[k], Step(prog.ts, prog.n, r.t))

Scale(k, r) == FMaxOf(FAbs(H(k, r) \o <<1>>))
StateClauses(k, r) ==
    LET s == prog.states[k]
        y == H(k, r)
        at == "1e-11" ** Scale(k, r)
    IN (IF s.fo THEN Ok
        ELSE Near(r.q[k], y, RT, at, "history is the prescribed quadrature of its own rate")
          \o Near(r.q[k][1], IF s.zs THEN 0 ELSE r.q0[k], RT, at, "history starts at the initial value")
          \o Near(r.qf[k], r.q[k][Len(r.q[k])], "1e-13", 0, "final value is the last node"))
       \o Near(r.qf[k], y[Len(y)], RT, at, "final value is the prescribed quadrature")

\* d q / d f_j for a unit rate at node j
Col(j, r) == Hist(prog.method, 0, Unit(prog.n, j), Step(prog.ts, prog.n, r.t))
JacClauses(k, r) ==
    LET s == prog.states[k]
        n == prog.n
        h == Step(prog.ts, n, r.t)
        dydh == Hist(prog.method, 0, r.f[k], 1)
        cols == [j \in 1..n |-> IF n = 1 THEN <<0>> ELSE Col(j, r)]
        rows == [i \in 1..n |-> [j \in 1..n |-> cols[j][i]]]
        at == "1e-9" ** FMaxOf(<<FAbs(h), 1>>)
        at2 == "1e-9" ** FMaxOf(<<FAbs(dydh), 1>>)
        nt == Len(r.t)
        tsl(q, kk) == IF n = 1 THEN 0 ELSE StepSlope(prog.ts, n, kk) ** q
    IN Near(r.Jf_rate[k], rows[n], RT, at, "slope of final value to rate")
       \o Each(nt, LAMBDA kk : Near(r.Jf_t[k][kk], tsl(dydh[n], kk), RT, at2, "slope of final value to time"))
       \o (IF s.zs THEN Ok ELSE Near(r.Jf_q0[k], 1, RT, 0, "slope of final value to initial value"))
       \o (IF s.fo THEN Ok
           ELSE NearN(FFlat(r.J_rate[k]), FFlat(rows), RT, at, "slope of history to rate")
             \o Each(nt, LAMBDA kk : Near(r.J_t[k][kk], tsl(dydh, kk), RT, at2, "slope of history to time"))
             \o (IF s.zs THEN Ok ELSE Near(r.J_q0[k], FRep(1, n), RT, 0, "slope of history to initial value")))

\* a session of the multi-segment integrator: the segments are chained, uncounted ones add nothing
RECURSIVE Chain(_, _, _, _, _)
Chain(y, q0, i, r, p) ==
    IF i > Len(p.segs) THEN y
    ELSE LET fi == SubSeq(r.f, (i - 1) * p.n + 1, i * p.n)
             hi == Hist(p.method, q0, fi, r.t[i])
             z == IF p.segs[i] THEN hi ELSE FRep(q0, p.n)
         IN Chain(y \o z, z[Len(z)], i + 1, r, p)
SegClauses(r) ==
    LET y == Chain(<<>>, IF prog.zs THEN 0 ELSE r.q0, 1, r, prog)
        at == "1e-11" ** FMaxOf(<<FAbs(y), 1>>)
    IN (IF prog.fo THEN Ok ELSE Near(r.q, y, RT, at, "segment history is the chained quadrature"))
       \o Near(r.qf, y[Len(y)], RT, at, "final value is the chained quadrature")
       \o Near(r.dir_ad, r.dir_fd, "1e-6", r.dir_tol, "slopes of the chained quadrature")

\* units that the declared metadata imply
UnitClauses(r) == Each(Len(r.units), LAMBDA k :
    Near(r.factor[k], r.expect[k], "1e-12", 0, "declared units of history and rate are consistent"))

New == e.ev = "New" /\ prog' = e.prog /\ runs' = 0
Run == e.ev = "Run" /\ Report(e.sid, Each(Len(prog.states), LAMBDA k : StateClauses(k, e)))
       /\ runs' = runs + 1 /\ UNCHANGED prog
Totals == e.ev = "Totals" /\ Report(e.sid, Each(Len(prog.states), LAMBDA k : JacClauses(k, e))
                                        \o Near(e.cross, 0, 0, 0, "no sensitivity to another state"))
          /\ UNCHANGED <<prog, runs>>
SegRun == e.ev = "SegRun" /\ Report(e.sid, SegClauses(e)) /\ runs' = runs + 1 /\ UNCHANGED prog
\* an illegal declaration must be refused
Reject == e.ev = "Reject" /\ Report(e.sid, Chk(e.raised, "illegal declaration is rejected", e.what))
          /\ UNCHANGED <<prog, runs>>
Failed == e.ev = "Exc" /\ Report(e.sid, <<<<"a legal program runs", e.what>>>>) /\ UNCHANGED <<prog, runs>>

Next == l <= Len(Trace) /\ l' = l + 1 /\ (New \/ Run \/ Totals \/ SegRun \/ Reject \/ Failed)
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
