----------------------------- MODULE StateTrace ------------------------------
(* Replays recorded trajectories.  The state is the declared program: phases *)
(* with their states (slots) and the links between phases.  Every Run must   *)
(* give every state the history that its own rate, its phase's duration and  *)
(* its start value prescribe, where the start value is the given one or the  *)
(* end value of the linked phase.                                            *)
EXTENDS TraceLib, Quadrature
VARIABLES l, prog
vars == <<l, prog>>
Init == l = 1 /\ prog = <<>>
e == Trace[l]
\* slot k: [phase, key, n]; links in order: [from, to, skip]
Find(p, key) == {k \in 1..Len(prog.slots) : prog.slots[k].phase = p /\ prog.slots[k].key = key}
InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x
Source(k) == LET s == prog.slots[k]
                 ds == {i \in 1..Len(prog.links) : prog.links[i].to = s.phase /\ ~InSeq(s.key, prog.links[i].skip) /\ Find(prog.links[i].from, s.key) # {}}
             IN IF ds = {} THEN 0 ELSE CHOOSE x \in Find(prog.links[CHOOSE i \in ds : TRUE].from, s.key) : TRUE
RECURSIVE StartOf(_), EndOf(_)
HistOf(k, q0) == Hist("simpson", q0, e.s[k].rate, IF prog.slots[k].n = 1 THEN 1 ELSE e.dur[prog.slots[k].phase] // (prog.slots[k].n - 1))
StartOf(k) == IF Source(k) = 0 THEN e.s[k].q0 ELSE EndOf(Source(k))
EndOf(k) == LET h == HistOf(k, StartOf(k)) IN h[Len(h)]
Slot(k) ==
    LET o == e.s[k]
        q0 == StartOf(k)
        h == HistOf(k, q0)
        at == "1e-10" ** FMaxOf(<<FAbs(h), FAbs(e.dur[prog.slots[k].phase]) ** FMaxOf(FAbs(o.rate)), "1e-12">>)
        lnk == Source(k) # 0
    IN IF Len(o.q) = 0 THEN Near(o.qf, h[Len(h)], "1e-10", at, "final value is the integral of its own rate over its phase") ELSE Near(o.q, h, "1e-10", at, "history is the integral of its own rate over its phase")
       \o Near(o.q[1], q0, "1e-10", at, IF lnk THEN "a linked state starts at the end of the previous phase" ELSE "an unlinked state keeps its own start value")
       \o (IF lnk THEN Near(o.q[1], e.s[Source(k)].qf, "1e-12", at, "linked phases are continuous") ELSE Ok)
       \o Near(o.qf, o.q[Len(o.q)], "1e-13", "1e-14" ** at, "final value is the last node")
Meta(k) == LET m == e.meta[k] IN
    Chk(m.units = m.wantunits, "state has the declared units", <<m.units, m.wantunits>>)
    \o Near(m.val, m.wantval, "1e-13", 0, "state has the declared default value")
    \o Near(m.bounds, m.wantbounds, "1e-13", 0, "state has the declared bounds")
    \o Chk(m.shape = prog.slots[k].n, "state has one value per node", m.shape)
New == e.ev = "New" /\ prog' = e.prog
Ev(name, op) == e.ev = name /\ UNCHANGED prog /\ Report(e.sid, op)
Next == l <= Len(Trace) /\ l' = l + 1 /\
    (\/ New \/ Ev("Run", Each(Len(prog.slots), Slot)) \/ Ev("Meta", Each(Len(prog.slots), Meta))
     \/ Ev("Slope", Near(e.ad, e.fd, "1e-6", e.tol, "end values respond to every rate, duration and start value along the chain"))
     \/ Ev("Reject", Chk(e.raised, "a contradictory declaration is rejected", e.what))
     \/ Ev("Exc", <<<<"a legal program runs", e.what>>>>))
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
