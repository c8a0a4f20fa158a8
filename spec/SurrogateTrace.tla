--------------------------- MODULE SurrogateTrace ---------------------------
(* Replays programs of SurrogateMC.  The specification keeps what every      *)
(* instance is set to; orc holds the direct analyses of the training grid    *)
(* for (grid, mesh size, geometry); a run must return exactly those of the   *)
(* state it is in.  The analyses' own premises (flight state, mesh, twist)   *)
(* are checked here too.                                                     *)
EXTENDS MeshLaws
At == INSTANCE AtmosLaws
VARIABLES l, plan, geo, orc
vars == <<l, plan, geo, orc>>
e == Trace[l]
NoOrc == [k \in {} |-> 0]
Key(p, i) == ToString(plan[p][i].grid) \o "-" \o ToString(plan[p][i].size) \o "-" \o ToString(geo[p][i])
\* ---- premises of a direct analysis at points M[k], h[k] with increment dT
FlightLaw(o) ==
    LET T == At!Temp(o.h) ++ o.dT
        rho == At!Rho(At!Press(o.h), T)
        v == o.M ** At!Sound(T)
    IN Near(o.v, v, R9, 0, "true airspeed of the analysis") \o Near(o.rho, rho, R9, 0, "density of the analysis")
       \o Near(o.re, (rho ** v) // ("1.792398e-5" -- ("3.329134e-10" ** o.h)), R9, 0, "Reynolds number of the analysis")
\* the points of the grid in order: Mach slowest, altitude fastest
GridLaw(o) == LET nM == Len(o.gM) na == Len(o.ga) nh == Len(o.gh) n == nM * (na * nh) IN
    NearN(o.M, [k \in 1..n |-> o.gM[((k - 1) \div (na * nh)) + 1]], 0, 0, "Mach numbers of the grid")
    \o NearN(o.alpha, [k \in 1..n |-> o.ga[(((k - 1) \div nh) % na) + 1]], 0, 0, "angles of attack of the grid")
    \o NearN(o.h, [k \in 1..n |-> o.gh[((k - 1) % nh) + 1]], 0, 0, "altitudes of the grid")
\* clamped B-spline of at most four control points
RECURSIVE Bezier(_, _)
Bezier(cp, t) == IF Len(cp) = 1 THEN FRep(cp[1], Len(t))
                 ELSE ((1 -- t) ** Bezier(SubSeq(cp, 1, Len(cp) - 1), t)) ++ (t ** Bezier(SubSeq(cp, 2, Len(cp)), t))
\* rotation of every chord about its quarter chord (flat wing)
XsM(m, i) == [j \in 1..Len(m[i]) |-> m[i][j][1]]
YsM(m, i) == [j \in 1..Len(m[i]) |-> m[i][j][2]]
ZsM(m, i) == [j \in 1..Len(m[i]) |-> m[i][j][3]]
TwistLaw(base, mesh, th) == LET n == Len(base)
                                x4 == ("0.75" ** XsM(base, 1)) ++ ("0.25" ** XsM(base, n)) IN
    Each(n, LAMBDA i : NearN(XsM(mesh, i), x4 ++ (FCos(th) ** (XsM(base, i) -- x4)), R9, R9, "streamwise positions of the twisted mesh")
                       \o NearN(ZsM(mesh, i), FNeg(FSin(th) ** (XsM(base, i) -- x4)), R9, R9, "vertical positions of the twisted mesh")
                       \o NearN(YsM(mesh, i), YsM(base, i), R9, R9, "twisting moves nothing spanwise"))
TwistOf(t) == IF t.panels = <<>> THEN Bezier(t.twist, Uni(Len(t.base[1]) - 1)) ELSE Carry(t.twist, t.panels, TRUE)
Premise(o) == FlightLaw(o) \o (IF Has(o, "gM") THEN GridLaw(o) ELSE Ok) \o (IF Has(o, "tw") THEN TwistLaw(o.tw.base, o.tw.mesh, TwistOf(o.tw)) ELSE Ok)
              \o (IF Has(o, "trap") THEN MeshLaw(o.trap) ELSE Ok)
\* ---- what runs return
Flatten(g) == FoldSeq(LAMBDA a, s : s \o FoldSeq(LAMBDA b, u : u \o b, <<>>, a), <<>>, g)
Want(o, r) == [CL |-> o.CL, CD |-> IF Has(r, "nw") THEN o.CD ++ r.nw ELSE o.CD]
Scale(v) == FMaxOf(FAbs(v))
Ident(i) == "instance " \o ToString(i) \o ": "
OneRun(p, i, r) == LET o == orc[Key(p, i)]
                       w == Want(o, r)
                       tol == IF Has(o, "failure") THEN "1e-6" ELSE R9 IN
    NearN(Flatten(r.CL), w.CL, tol, R9, Ident(i) \o "trained lift belongs to the current geometry, grid and options")
    \o NearN(Flatten(r.CD), w.CD, tol, "1e-11", Ident(i) \o "trained drag belongs to the current geometry, grid and options")
    \o (IF Has(o, "failure") THEN NearN(Flatten(r.failure), o.failure, tol, "1e-6", Ident(i) \o "trained failure index belongs to the current geometry, grid and options")
                                   \o Near(r.W, o.W, R9, 0, Ident(i) \o "wing weight belongs to the current geometry") ELSE Ok)
\* polar at training points idx (flat, 1-based), the rest in between
OnePolar(p, i, r) == LET o == orc[Key(p, i)] n == Len(r.idx) IN
    NearN([k \in 1..n |-> r.alpha[k]], [k \in 1..n |-> o.alpha[r.idx[k]]], "1e-6", "1e-6", Ident(i) \o "angle of attack meets the lift coefficient of a training point")
    \o NearN([k \in 1..n |-> r.drag[k]], [k \in 1..n |-> ((r.q[k] ** r.S) ** (o.CD[r.idx[k]] ++ r.nwv[k]))[1]], "1e-6", 0, Ident(i) \o "drag at a training point is that of the analysis plus the rest of the aircraft")
    \o NearN(r.surCL, r.CLin, "1e-7", "1e-9", Ident(i) \o "the balance meets the lift coefficient everywhere")
    \o NearN(r.drag, (r.q ** r.S) ** (r.surCD ++ r.nwadd), R9, 0, Ident(i) \o "drag is dynamic pressure times area times the drag coefficients")
    \o (IF Has(o, "failure") /\ Has(r, "failn") THEN NearN([k \in 1..n |-> r.failn[k]], [k \in 1..n |-> o.failure[r.idx[k]]], "1e-5", "1e-5", Ident(i) \o "failure index at a training point") \o Near(r.W, o.W, R9, 0, Ident(i) \o "wing weight of the polar") ELSE Ok)
OneSlope == LET k == Key(e.p, e.i)
                a == orc[k \o "+"] b == orc[k \o "-"]
                d(u, v) == (u -- v) // (2 ** e.eps)
                at(v) == "1e-4" ** (Scale(v) ++ "1e-5") IN
    NearN(e.j.CL, d(a.CL, b.CL), "2e-4", at(d(a.CL, b.CL)), "sensitivities of the lift belong to the current data")
    \o NearN(e.j.CD, d(a.CD, b.CD), "2e-4", at(d(a.CD, b.CD)), "sensitivities of the drag belong to the current data")
    \o (IF Has(a, "failure") THEN NearN(e.j.failure, d(a.failure, b.failure), "2e-3", "2e-3" ** (Scale(d(a.failure, b.failure)) ++ "1e-4"), "sensitivities of the failure index belong to the current data")
                                   \o Near(e.j.W, d(a.W, b.W), "2e-4", "1e-4" ** Scale(a.W), "sensitivities of the wing weight belong to the current data")
                                   \o NearN(e.j.nw, FRep(1, Len(e.j.nw)), R9, 0, "the rest of the aircraft's drag is added to the trained drag") ELSE Ok)
\* ---- single analyses
VlmLaw == FlightLaw(e.o)
    \o Near(e.y.CL, e.o.CL, R9, R9, "lift of the vortex lattice analysis") \o Near(e.y.CD, e.o.CD, R9, "1e-12", "drag of the vortex lattice analysis")
    \o Near(e.y.CDi, e.o.CDi, R9, "1e-12", "induced drag") \o Near(e.y.CDv, e.o.CDv, R9, "1e-12", "viscous drag") \o Near(e.y.CDw, e.o.CDw, R9, "1e-12", "wave drag")
    \o NearN(e.y.sec, e.o.sec, R9, R9, "sectional lift coefficients") \o NearN(e.y.forces, e.o.forces, "1e-8", "1e-6", "panel forces")
\* the Kreisselmeier-Steinhauser envelope of lift over its limit vanishes at maximum lift
KS(g, rho) == LET m == FMaxOf(g) IN m ++ (FLog(FSum(FExp(rho ** (g -- m)))) // rho)
ClmaxLaw == FlightLaw(e.o) \o Near(e.CLmax, e.o.CL, "1e-6", "1e-7", "maximum lift is the wing's lift at the critical angle")
    \o Near(KS(e.o.sec -- e.limit, e.rho), 0, 0, "1e-6", "the critical section just reaches its limit")
ExactLaw == Each(Len(e.o), LAMBDA k : FlightLaw(e.o[k]) \o (IF k = 1 THEN Premise(e.o[1]) ELSE Ok)
        \o Near(e.CLin[k], e.o[k].CL, "1e-5", "2e-6", "angle of attack meets the lift coefficient")
        \o Near(e.drag[k], (e.q[k] ** e.S) ** (e.o[k].CD ++ e.nw), "1e-6", 0, "drag of the coupled analysis plus the rest of the aircraft")
        \o Near(e.failure[k], e.o[k].failure, "1e-6", "1e-6", "failure index of the coupled analysis")
        \o Near(e.W, e.o[k].W, R9, 0, "wing weight of the coupled analysis"))
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Init == l = 1 /\ plan = <<>> /\ geo = <<>> /\ orc = NoOrc
Keep == UNCHANGED <<plan, geo, orc>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE e.ev = "Start" -> plan' = e.plan /\ geo' = [p \in 1..Len(e.plan) |-> [i \in 1..Len(e.plan[p]) |-> 1]] /\ orc' = NoOrc
             [] e.ev = "Setup" -> geo' = [geo EXCEPT ![e.p] = [i \in 1..Len(plan[e.p]) |-> 1]] /\ UNCHANGED <<plan, orc>>
             [] e.ev = "Set" -> geo' = [geo EXCEPT ![e.p] = [@ EXCEPT ![e.i] = e.g]] /\ UNCHANGED <<plan, orc>>
             [] e.ev = "Oracle" -> Report(e.sid, Premise(e.o)) /\ orc' = Upd(orc, e.key, e.o) /\ UNCHANGED <<plan, geo>>
             [] e.ev = "Run" -> Report(e.sid, Each(Len(e.r), LAMBDA i : OneRun(e.p, i, e.r[i]))) /\ Keep
             [] e.ev = "Polar" -> Report(e.sid, Each(Len(e.r), LAMBDA i : OnePolar(e.p, i, e.r[i]))) /\ Keep
             [] e.ev = "Slope" -> Report(e.sid, OneSlope) /\ Keep
             [] e.ev = "Failed" -> Report(e.sid, Chk(e.fired, "a legal program runs", e.what)) /\ Keep
             [] e.ev = "Vlm" -> Report(e.sid, VlmLaw) /\ Keep
             [] e.ev = "Clmax" -> Report(e.sid, ClmaxLaw) /\ Keep
             [] e.ev = "Exact" -> Report(e.sid, ExactLaw) /\ Keep
             [] e.ev = "Exc" -> Report(e.sid, << <<"a legal program runs", e.what>> >>) /\ Keep
             [] OTHER -> Keep
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
