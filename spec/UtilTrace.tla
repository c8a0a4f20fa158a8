------------------------------ MODULE UtilTrace ------------------------------
(* Replays recorded sessions of the small utilities: selector, extrema,      *)
(* linear interpolation, relabelled variables, dictionary variables and the  *)
(* finite-difference time derivative.                                        *)
EXTENDS TraceLib
VARIABLES l, prog
vars == <<l, prog>>
Init == l = 1 /\ prog = <<>>
e == Trace[l]
Unit(n, j) == [i \in 1..n |-> IF i = j THEN 1 ELSE 0]
Diag(n, d) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN d[i] ELSE 0]]

\* ---- selector
Valid(s) == \A i \in 1..Len(s) : s[i] \in 0..(prog.nopts - 1)
Sel == LET n == prog.nn IN
    IF ~Valid(e.sel) THEN Chk(e.raised, "a selector that names no option is rejected", e.sel)
    ELSE Chk(~e.raised, "a valid selector runs", e.what)
      \o (IF e.raised THEN Ok
          ELSE Near(e.out, [i \in 1..n |-> e.x[e.sel[i] + 1][i]], 0, 0, "selector forwards the option named at each node")
            \o (IF e.J = <<>> THEN Ok ELSE Each(prog.nopts, LAMBDA k :
                 Near(e.J[k], Diag(n, [i \in 1..n |-> IF e.sel[i] = k - 1 THEN 1 ELSE 0]), 0, 0, "slope follows the option taken"))))
\* ---- extrema
Ext == Near(e.mx, FMaxOf(e.x), 0, 0, "largest entry") \o Near(e.mn, FMinOf(e.x), 0, 0, "smallest entry")
    \o (IF e.ties THEN Ok ELSE LET n == Len(e.x) IN
        Near(e.Jmx[1], [i \in 1..n |-> IF FEq(e.x[i], FMaxOf(e.x)) THEN 1 ELSE 0], 0, 0, "slope of the largest entry")
     \o Near(e.Jmn[1], [i \in 1..n |-> IF FEq(e.x[i], FMinOf(e.x)) THEN 1 ELSE 0], 0, 0, "slope of the smallest entry"))
\* ---- interpolation
Interp == LET n == Len(e.out)
              w == [i \in 1..n |-> (i - 1) // (n - 1)]
              sc == "1e-14" ** FMaxOf(FAbs(<<e.a, e.b>>))
          IN Near(e.out[1], e.a, 0, sc, "first point is the start value") \o Near(e.out[n], e.b, 0, sc, "last point is the end value")
          \o Near(e.out, e.a ++ (w ** (e.b -- e.a)), "1e-13", sc, "affine in between")
          \o Near(e.Ja, [i \in 1..n |-> <<1 -- w[i]>>], "1e-13", "1e-15", "slope to the start value")
          \o Near(e.Jb, [i \in 1..n |-> <<w[i]>>], "1e-13", "1e-15", "slope to the end value")
\* ---- labels and dictionaries: values, units and shapes carried through unchanged
Carry == Each(Len(e.vars), LAMBDA k : LET v == e.vars[k] IN
              Near(v.out, v.given, "1e-13", 0, "value carried unchanged")
           \o Chk(v.units = v.wantunits, "units carried unchanged", <<v.units, v.wantunits>>)
           \o Chk(v.shape = v.wantshape, "shape carried unchanged", <<v.shape, v.wantshape>>)
           \o (IF Has(v, "J") THEN Near(v.J, Diag(Len(v.J), FRep(1, Len(v.J))), 0, 0, "slope of a relabelled variable is one")
                                   \o Near(v.cross, 0, 0, 0, "relabelled variables are independent") ELSE Ok))
Reads == Chk(e.raised <=> (e.outcome = "refused"), "reading an entry: present entries are read, absent ones refused", <<e.path, e.what>>)
\* ---- finite-difference time derivative.  J: rows over nodes, dt: per segment
P == 2 * prog.nint + 1
Seg(i) == ((i - 1) \div P) + 1
Deriv ==
    LET n == Len(e.q)
        top == IF prog.order = 4 THEN 4 ELSE 2
        moment(i, p) == FSum([j \in 1..n |-> IF Seg(j) # Seg(i) THEN 0 ELSE (e.Jq[i][j] ** e.dt[Seg(i)]) ** FPow(j - i, p)])
        sc == FMaxOf(<<FMaxOf(FAbs(FFlat(e.Jq))) ** FMaxOf(FAbs(e.q)), "1e-300">>)
    IN NearN(e.dqdt, FMatVec(e.Jq, e.q), "1e-11", "1e-13" ** sc, "the derivative is linear in the quantity")
       \o Chk(\A i \in 1..n : \A j \in 1..n : Seg(i) # Seg(j) => FEq(e.Jq[i][j], 0), "no data from another segment is used", "")
       \o Each(n, LAMBDA i : Each(top + 1, LAMBDA pp : Near(moment(i, pp - 1), IF pp = 2 THEN 1 ELSE 0, 0, "1e-9", "exact for every polynomial of its order")))
       \o Each(Len(e.dt), LAMBDA s : NearN(e.Jdt[s], [i \in 1..n |-> IF Seg(i) = s THEN FNeg(e.dqdt[i] // e.dt[s]) ELSE 0], "1e-10", "1e-13" ** (sc // FMinOf(FAbs(e.dt))), "slope to the segment's own spacing"))
Poly == NearN(e.dqdt, e.exact, "1e-9", e.tol, "exact derivative of a polynomial of its order")

New == e.ev = "New" /\ prog' = e.prog
Ev(name, op) == e.ev = name /\ UNCHANGED prog /\ Report(e.sid, op)
Next == l <= Len(Trace) /\ l' = l + 1 /\
    (\/ New \/ Ev("Sel", Sel) \/ Ev("Ext", Ext) \/ Ev("Interp", Interp) \/ Ev("Carry", Carry) \/ Ev("Read", Reads)
     \/ Ev("Deriv", Deriv) \/ Ev("Poly", Poly)
     \/ Ev("Reject", Chk(e.raised, "an unsupported definition is rejected", e.what))
     \/ Ev("Exc", <<<<"a legal program runs", e.what>>>>))
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
