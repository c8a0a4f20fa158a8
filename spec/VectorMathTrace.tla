--------------------------- MODULE VectorMathTrace ---------------------------
(* Replays recorded programs of vector relations.  The state is the declared *)
(* program; every Run must produce the meaning of each relation on its own   *)
(* inputs, every Jac its slopes, whatever else is declared and however often *)
(* the component was set up or run before.                                   *)
EXTENDS TraceLib, VectorMath
VARIABLES l, prog, nsetup
vars == <<l, prog, nsetup>>
Init == l = 1 /\ prog = <<>> /\ nsetup = 0
e == Trace[l]
RT == "1e-12"

\* ---------------- sums and products
Ones(eq) == IF eq.len = 1 THEN FRep(1, VecOut(eq)) ELSE [m \in 1..VecOut(eq) |-> FRep(1, eq.len)]
RECURSIVE SumFrom(_, _, _, _)
SumFrom(acc, x, sf, i) == IF i > Len(x) THEN acc ELSE SumFrom(acc ++ (sf[i] ** x[i]), x, sf, i + 1)
RECURSIVE ProdFrom(_, _, _, _, _)
\* product over every input but the skipped one
ProdFrom(acc, x, div, i, skip) ==
    IF i > Len(x) THEN acc
    ELSE ProdFrom(IF i = skip THEN acc ELSE IF div # <<>> /\ div[i] THEN acc // x[i] ELSE acc ** x[i], x, div, i + 1, skip)
RECURSIVE AbsSum(_, _, _, _)
AbsSum(acc, x, sf, i) == IF i > Len(x) THEN acc ELSE AbsSum(acc ++ FAbs(sf[i] ** x[i]), x, sf, i + 1)

IsDiv(eq, i) == eq.div # <<>> /\ eq.div[i]
Value(eq, q) == IF eq.kind = "add" THEN SumFrom(0 ** Ones(eq), q.x, q.sf, 1) ELSE q.sf[1] ** ProdFrom(Ones(eq), q.x, eq.div, 1, 0)
Slope(eq, q, i) ==   \* per row of the output
    FFlat(IF eq.kind = "add" THEN q.sf[i] ** Ones(eq)
          ELSE LET rest == q.sf[1] ** ProdFrom(Ones(eq), q.x, eq.div, 1, i)
               IN IF IsDiv(eq, i) THEN FNeg(rest // (q.x[i] ** q.x[i])) ELSE rest ** Ones(eq))
\* unit of a product: exponents add, factors multiply; the recorded output is in its own reported unit
RECURSIVE PowFrom(_, _, _, _)
PowFrom(acc, upow, div, i) == IF i > Len(upow) THEN acc
    ELSE PowFrom([k \in 1..Len(acc) |-> IF div # <<>> /\ div[i] THEN acc[k] - upow[i][k] ELSE acc[k] + upow[i][k]], upow, div, i + 1)
UnitFactor(eq, q) == ProdFrom(1, q.ufac, eq.div, 1, 0)
FRepI(x, n) == [i \in 1..n |-> x]
MathRun(k) ==
    LET eq == prog.eqs[k]
        q == e.q[k]
        v == Value(eq, q)
    IN IF eq.kind = "add"
       THEN LET at == "1e-13" ** FMaxOf(<<AbsSum(0 ** Ones(eq), q.x, q.sf, 1), "1e-300">>) IN
            Near(q.y, v, RT, at, "sum is the scaled sum of its own inputs")
       ELSE Near(q.y ** q.yfac, v ** UnitFactor(eq, q), RT, 0, "product is the scaled product and quotient of its own inputs")
            \o Chk(q.ypow = PowFrom(FRepI(0, Len(q.ypow)), q.upow, eq.div, 1), "product unit is derived from the input units", <<q.ypow, q.upow>>)
MathJac(k) ==
    LET eq == prog.eqs[k]
        q == e.q[k]
    IN Each(eq.nin, LAMBDA i : LET s == Slope(eq, q, i)
            dense == [r \in 1..Len(s) |-> [c \in 1..(eq.vec[i] * eq.len) |-> IF Reads(eq, i, r) = c THEN s[r] ELSE 0]]
            f == IF eq.kind = "add" THEN 1 ELSE UnitFactor(eq, q) // q.yfac
       IN Near(q.J[i], f ** dense, RT, 0, "slope to own input"))
       \o Near(q.cross, 0, 0, 0, "no slope to the inputs of another equation")
MathMeta(k) == LET m == e.meta[k] IN
    Near(m.val, m.wantval, "1e-14", 0, "declared initial value") \o Near(m.bounds, m.wantbounds, "1e-14", 0, "declared bounds")
    \o Near(m.units, m.wantunits, "1e-14", 0, "every quantity is taken in the units given for it")

\* ---------------- joins and splits; e.q[k] = [whole, parts, ...] observed and given
PartRun(k) ==
    LET r == prog.rels[k]
        q == e.q[k]
    IN CASE r.kind = "cat" -> Near(q.out, Join(q.given), RT, 0, "join places every input's nodes in order")
         [] r.kind = "split" -> Near(q.out, Split(q.given, r.sizes), RT, 0, "split gives every output its own block")
         [] OTHER -> Near(q.out, q.given, RT, 0, "split and join undo each other")
                     \o (IF r.kind = "catsplit" THEN Near(q.mid, Join(q.given), RT, 0, "join places every input's nodes in order")
                         ELSE Near(q.mid, Split(q.given, r.sizes), RT, 0, "split gives every output its own block"))
PartJac(k) ==
    LET r == prog.rels[k]
        q == e.q[k]
        w == r.len
        n == Total(r)
        ident == [a \in 1..(n * w) |-> [b \in 1..(n * w) |-> IF a = b THEN 1 ELSE 0]]
    IN Near(q.J, ident, 0, 0, "every entry goes to exactly its own place") \o Near(q.cross, 0, 0, 0, "no slope to another relation")

IsMath == "eqs" \in DOMAIN prog
N == IF IsMath THEN Len(prog.eqs) ELSE Len(prog.rels)
Legal == IF IsMath THEN \A i \in 1..N : LegalMath(prog.eqs[i]) ELSE \A i \in 1..N : LegalParts(prog.rels[i])

New == e.ev = "New" /\ prog' = e.prog /\ nsetup' = 0
Setup == /\ e.ev = "Setup" /\ nsetup' = nsetup + 1 /\ UNCHANGED prog
         /\ Report(e.sid, IF e.dup THEN Chk(e.raised, "a repeated output name is rejected", e.what)
                          ELSE IF Legal THEN Chk(~e.raised, "a legal program is accepted", e.what)
                          ELSE Chk(e.raised, "an inconsistent definition is rejected", e.what))
Meta == e.ev = "Meta" /\ UNCHANGED <<prog, nsetup>> /\ Report(e.sid, Each(N, MathMeta))
Run == e.ev = "Run" /\ UNCHANGED <<prog, nsetup>> /\ Report(e.sid, IF IsMath THEN Each(N, MathRun) ELSE Each(N, PartRun))
Jac == e.ev = "Jac" /\ UNCHANGED <<prog, nsetup>> /\ Report(e.sid, IF IsMath THEN Each(N, MathJac) ELSE Each(N, PartJac))
Reject == e.ev = "Reject" /\ UNCHANGED <<prog, nsetup>> /\ Report(e.sid, Chk(e.raised, "an ill-formed definition is rejected", e.what))
Failed == e.ev = "Exc" /\ UNCHANGED <<prog, nsetup>> /\ Report(e.sid, <<<<"a legal program runs", e.what>>>>)
Next == l <= Len(Trace) /\ l' = l + 1 /\ (New \/ Setup \/ Meta \/ Run \/ Jac \/ Reject \/ Failed)
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
