----------------------------- MODULE ModelTrace -----------------------------
(* Replays recorded sessions with one model of the library.                  *)
(*   Obs    a run at point p returned outputs y                              *)
(*   ObsJ   sensitivities asked for after a run at p                         *)
(*   Kept   the inputs after the run are those that were set                 *)
(*   Slope  outputs at p, p +- h d and p +- h/4 d and the reported           *)
(*          sensitivity in direction d                                       *)
(*   Rows   outputs of a batch of points, node by node                       *)
(* memo holds what the model returned for a point the first time.            *)
EXTENDS TraceLib
VARIABLES l, prog, memo
vars == <<l, prog, memo>>
Init == l = 1 /\ prog = <<>> /\ memo = <<>>
e == Trace[l]
Known(m, k) == \E i \in 1..Len(m) : m[i][1] = k
Lookup(m, k) == m[CHOOSE i \in 1..Len(m) : m[i][1] = k][2]

\* ---- C13: a function of the current point
Same(kind, val, rt, clause) ==
    IF ~Known(memo, <<kind, e.p>>) THEN Ok
    ELSE LET old == Lookup(memo, <<kind, e.p>>) IN
         Each(Len(val), LAMBDA k : IF FCloseN(val[k], old[k], rt, prog.at) THEN Ok
                                   ELSE << <<clause, [output |-> prog.outs[k], point |-> e.p, now |-> val[k], before |-> old[k]]>> >>)
Put(kind, val) == memo' = IF Known(memo, <<kind, e.p>>) THEN memo ELSE Append(memo, << <<kind, e.p>>, val>>)

\* ---- C11: reported sensitivity is the slope
SlopeOf(o) ==
    LET h == e.h
        D1 == (o.yp -- o.ym) // (2 ** h)
        D2 == (o.yq -- o.yn) // ("0.5" ** h)
        R == ((16 ** D2) -- D1) // 15
        up == (o.yq -- o.y0) // ("0.25" ** h)
        dn == (o.y0 -- o.yn) // ("0.25" ** h)
        noise == (("40" ** e.eps) ** (e.floor ++ FMaxOf(FAbs(FFlat(<<o.y0, o.yp>>))))) // h
        tol == (((e.rt ** FAbs(R)) ++ (3 ** FAbs(D1 -- D2))) ++ noise) ++ "1e-280"
        near == FStepLe(FAbs(o.ad -- R), tol)
        lo == FMin(up, dn) -- tol
        hi == FMax(up, dn) ++ tol
        between == FStepLe(lo, o.ad) ** FStepLe(o.ad, hi)
    IN IF ~(FFinite(o.yp) /\ FFinite(o.ym)) THEN Ok
       ELSE IF ~FFinite(o.ad) THEN << <<"sensitivities are finite where the outputs are", [output |-> o.n, input |-> e.wrt]>> >>
       ELSE IF FEq(FMinOf(FMax(near, between)), 1) THEN Ok
       ELSE << <<"reported sensitivity is the slope of the output", [output |-> o.n, input |-> e.wrt, reported |-> o.ad, slope |-> R, coarse |-> D1, fine |-> D2]>> >>
Slope == Each(Len(e.outs), LAMBDA k : SlopeOf(e.outs[k]))

\* ---- C12: the row of a node is the row of its point
\* rows[i]: the values of all per-node outputs at node i; shared: the outputs that have no nodes
RowFails == Each(Len(e.batch), LAMBDA i :
    IF ~Known(memo, ToString(e.batch[i])) THEN Ok
    ELSE LET old == Lookup(memo, ToString(e.batch[i])) IN
         Each(Len(prog.outs), LAMBDA k : IF FCloseN(e.rows[i][k], old[k], prog.rt, prog.at) THEN Ok
                  ELSE << <<"a node's result is that of its point alone", [output |-> prog.outs[k], batch |-> e.batch, node |-> i, now |-> e.rows[i][k], alone |-> old[k]]>> >>))
   \o (IF ~Known(memo, "shared") THEN Ok
       ELSE LET old == Lookup(memo, "shared") IN
            Each(Len(prog.souts), LAMBDA k : IF FCloseN(e.shared[k], old[k], prog.rt, prog.at) THEN Ok
                  ELSE << <<"a result without nodes does not depend on the nodes", [output |-> prog.souts[k], batch |-> e.batch, now |-> e.shared[k], before |-> old[k]]>> >>))
\* duplicates within the batch that introduces a point must agree as well
Dups == Each(Len(e.batch), LAMBDA i : Each(i - 1, LAMBDA j :
    IF e.batch[i] # e.batch[j] \/ Known(memo, ToString(e.batch[i])) THEN Ok
    ELSE Each(Len(prog.outs), LAMBDA k : IF FCloseN(e.rows[i][k], e.rows[j][k], prog.rt, prog.at) THEN Ok
                  ELSE << <<"duplicated nodes give duplicated results", [output |-> prog.outs[k], batch |-> e.batch]>> >>)))
RECURSIVE AddRows(_, _)
AddRows(m, i) == IF i > Len(e.batch) THEN m ELSE AddRows(IF Known(m, ToString(e.batch[i])) THEN m ELSE Append(m, <<ToString(e.batch[i]), e.rows[i]>>), i + 1)
LearnRows == LET m == AddRows(memo, 1) IN memo' = IF prog.learnshared /\ ~Known(m, "shared") THEN Append(m, <<"shared", e.shared>>) ELSE m

New == e.ev = "New" /\ prog' = e.prog /\ memo' = <<>>
Obs == e.ev = "Obs" /\ Report(e.sid, Same("y", e.y, prog.rt, "a run returns what it returned before for the same inputs")) /\ Put("y", e.y) /\ UNCHANGED prog
ObsJ == e.ev = "ObsJ" /\ Report(e.sid, Same("J", e.J, prog.rtJ, "sensitivities are what they were before for the same inputs")) /\ Put("J", e.J) /\ UNCHANGED prog
Kept == e.ev = "Kept" /\ Report(e.sid, Each(Len(e.set), LAMBDA k : IF FClose(e.got[k], e.set[k], e.rt, e.at) THEN Ok
              ELSE << <<"evaluating leaves the inputs alone", [input |-> prog.ins[k], now |-> e.got[k], set |-> e.set[k]]>> >>)) /\ UNCHANGED <<prog, memo>>
Rows == e.ev = "Rows" /\ Report(e.sid, RowFails \o Dups) /\ LearnRows /\ UNCHANGED prog
Ev(name, op) == e.ev = name /\ UNCHANGED <<prog, memo>> /\ Report(e.sid, op)
Next == l <= Len(Trace) /\ l' = l + 1 /\
    (\/ New \/ Obs \/ ObsJ \/ Kept \/ Rows \/ Ev("Slope", Slope) \/ Ev("Skip", Ok)
     \/ Ev("Exc", << <<"a legal program runs", e.what>> >>))
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
