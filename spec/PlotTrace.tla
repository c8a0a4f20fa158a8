------------------------------ MODULE PlotTrace ------------------------------
(* What was drawn, judged against the histories it was drawn from.           *)
(*  Traj: one figure per variable; Grid: pages of panels; Mesh, Press: wings *)
EXTENDS LawLib
VARIABLE l
e == Trace[l]
\* data: case -> variable -> phase -> history (in the units asked for)
Whole(c, v) == FlattenSeq(e.data[c][v])
Label(given, i, name) == IF given = <<>> THEN name ELSE given[i]
LineOk(n, x, y, what) == Near(n.x, x, "1e-12", "1e-12", what \o ": abscissa") \o Near(n.y, y, "1e-12", "1e-12", what \o ": values of every phase in order and in the units asked for")
Traj == Chk(Len(e.figs) = Len(e.yvars), "one figure for every variable", Len(e.figs))
        \o (IF Len(e.figs) # Len(e.yvars) THEN Ok ELSE
            Each(Len(e.yvars), LAMBDA i :
              IF Len(e.figs[i].lines) # 1 THEN << <<"one line in every figure", Len(e.figs[i].lines)>> >>
              ELSE LineOk(e.figs[i].lines[1], Whole(1, 1), Whole(1, i + 1), "trajectory")
                   \o Chk(e.figs[i].xlabel = e.xlabel /\ e.figs[i].ylabel = Label(e.ylabels, i, e.yvars[i]) /\ e.figs[i].title = e.title, "a figure carries the labels asked for", e.figs[i].ylabel)))
\* grid
NP == ((Len(e.yvars) - 1) \div (e.rows * e.cols)) + 1
Panel(i) == LET pg == e.pages[((i - 1) \div (e.rows * e.cols)) + 1]
                k == ((i - 1) % (e.rows * e.cols)) + 1
            IN pg.axes[k]
PanelOk(i) == LET a == Panel(i)
                  last == (((i - 1) % (e.rows * e.cols)) \div e.cols) + 1 = e.rows
              IN (IF Len(a.lines) # Len(e.data) THEN << <<"every case is drawn once in every panel", Len(a.lines)>> >>
                  ELSE Each(Len(e.data), LAMBDA c : LineOk(a.lines[c], Whole(c, 1), Whole(c, i + 1), "grid")))
                 \o Chk(a.ylabel = Label(e.ylabels, i, e.yvars[i]), "a panel is labelled with its own variable", a.ylabel)
                 \o Chk(~last \/ a.xlabel = e.xlabel, "the last row carries the abscissa's label", a.xlabel)
Grid == IF Len(e.pages) # NP \/ (\E p \in 1..Len(e.pages) : Len(e.pages[p].axes) # e.rows * e.cols)
        THEN << <<"pages have the layout asked for", [n |-> Len(e.pages)]>> >>
        ELSE Each(Len(e.yvars), PanelOk)
             \o Chk(~e.save \/ e.saved = [p \in 1..NP |-> <<e.stem \o "_" \o ToString(p - 1) \o ".pdf", p>>], "every page is saved once under its own number", e.saved)
             \o Each(NP * e.rows * e.cols - Len(e.yvars), LAMBDA k : Chk(e.pages[NP].axes[e.rows * e.cols + 1 - k].lines = <<>>, "unused panels stay empty", k))
\* ---- wings: mesh[i][j] = <<x, y, z>>, chordwise from the leading edge, spanwise from tip to root
NX == Len(e.mesh)
NY == Len(e.mesh[1])
XM(i, j) == e.mesh[i][j][1]
YM(i, j) == e.mesh[i][j][2]
\* the whole wing has the mirrored half after the drawn one, sharing the root
FullX(i, j) == IF j <= NY THEN FNeg(XM(i, j)) ELSE FNeg(XM(i, 2 * NY - j))
FullY(i, j) == IF j <= NY THEN YM(i, j) ELSE FNeg(YM(i, 2 * NY - j))
NF == 2 * NY - 1
Mesh == LET chordwise == [j \in 1..NF |-> [i \in 1..NX |-> <<FullY(i, j), FullX(i, j)>>]]
            spanwise == [i \in 1..NX |-> [j \in 1..NF |-> <<FullY(i, j), FullX(i, j)>>]]
            Same(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Len(a[k]) = Len(b[k])
            Both(a, b) == Same(e.segs[1], a) /\ Same(e.segs[2], b)
        IN IF Len(e.segs) # 2 THEN << <<"the mesh is drawn with lines both ways", Len(e.segs)>> >>
           ELSE IF Both(spanwise, chordwise) THEN Near(FFlat(e.segs[1]), FFlat(spanwise), 0, "1e-12", "spanwise mesh lines") \o Near(FFlat(e.segs[2]), FFlat(chordwise), 0, "1e-12", "chordwise mesh lines")
           ELSE IF Both(chordwise, spanwise) THEN Near(FFlat(e.segs[2]), FFlat(spanwise), 0, "1e-12", "spanwise mesh lines") \o Near(FFlat(e.segs[1]), FFlat(chordwise), 0, "1e-12", "chordwise mesh lines")
           ELSE << <<"the mesh is drawn with lines both ways", "sizes">> >>
\* ---- the frame a wing is drawn in; only drawn when no axes were handed in are figure and axes made and returned
Chordmost == FMaxOf([j \in 1..NY |-> XM(NX, j)])
Foremost == FNeg(FMaxOf([j \in 1..NY |-> FNeg(XM(1, j))]))
HalfSpan == FMaxOf([j \in 1..NY |-> FNeg(YM(1, j))])
Frame == LET back == IF e.draws = "mesh" THEN << >> ELSE << "c" >>
         IN Chk(e.kinds = (IF e.made THEN back \o << "f", "a" >> ELSE back), "figure and axes are returned when none were handed in, contours always", e.kinds)
            \o Chk(e.square, "a wing is drawn to scale", e.draws)
            \o Chk(e.off = e.bare, "the axis is turned off when asked", e.off)
            \o Chk(e.fixed = e.fit, "the limits are fitted only when asked", e.fixed)
            \o (IF e.fit THEN NearN(e.lim, << FNeg(HalfSpan), HalfSpan >>, "1e-12", 0, "the limits fit the span") ELSE Ok)
            \o (IF e.made THEN NearN(e.size, << 10, (10 ** FAbs(Chordmost -- Foremost)) // ((IF e.whole THEN 2 ELSE 1) ** HalfSpan) >>, "1e-9", 0, "a made figure has the proportions of the wing") ELSE Ok)
            \o Chk(e.mesh = e.after, "drawing leaves the mesh alone", e.draws)
\* the outline runs along the leading edge one way and along the trailing edge the other
OnPath(pts, x, y) == \E k \in 1..Len(pts) : FClose(pts[k][1], x, 0, "1e-9") /\ FClose(pts[k][2], y, 0, "1e-9")
Outline == IF Len(e.outline) # 1 THEN << <<"the wing is filled once", Len(e.outline)>> >>
           ELSE Each(NF, LAMBDA j : Chk(OnPath(e.outline[1], FullY(1, j), FullX(1, j)) /\ OnPath(e.outline[1], FullY(1, j), FullX(NX, j)), "the filled wing reaches from leading to trailing edge", j))
\* ---- force per area at the nodes: a quarter-chord force, averaged from the panels around
Area(i, j) == LET w == ((YM(i, j + 1) -- YM(i, j)) ++ (YM(i + 1, j + 1) -- YM(i + 1, j))) // 2
                  c == ((XM(i + 1, j) -- XM(i, j)) ++ (XM(i + 1, j + 1) -- XM(i, j + 1))) // 2
              IN w ** c
Pr(i, j) == e.forces[i][j][e.dir + 1] // Area(i, j)
\* weights of the panels ahead and behind of row i, and left and right of column j
RowW(i) == IF i = 1 THEN << <<1, 1>> >> ELSE IF i = NX THEN << <<NX - 1, 1>> >> ELSE << <<i - 1, "0.25">>, <<i, "0.75">> >>
ColW(j) == IF j = 1 THEN << <<1, 1>> >> ELSE IF j = NY THEN << <<NY - 1, 1>> >> ELSE << <<j - 1, "0.5">>, <<j, "0.5">> >>
Node(i, j) == LET r == RowW(i)
                  c == ColW(j)
              IN FSum([k \in 1..(Len(r) * Len(c)) |-> LET p == r[((k - 1) \div Len(c)) + 1]
                                                         q == c[((k - 1) % Len(c)) + 1]
                                                     IN (p[2] ** q[2]) ** Pr(p[1], q[1])])
Press == LET side == e.wing
             cols == IF side = "both" THEN 2 * NY ELSE NY
             jj(j) == IF j <= NY THEN j ELSE 2 * NY + 1 - j
             sg(j) == IF side = "right" \/ j > NY THEN -1 ELSE 1
             row(Op(_, _)) == FlattenSeq([i \in 1..NX |-> [j \in 1..cols |-> Op(i, j)]])
         IN IF Len(e.z) # NX * cols THEN << <<"the contours cover the wing asked for", Len(e.z)>> >>
            ELSE Near(e.z, row(LAMBDA i, j : Node(i, jj(j))), "1e-9", "1e-9" ** FMaxOf(FAbs(e.z)), "contours show force per panel area")
                 \o Near(e.x, row(LAMBDA i, j : sg(j) ** YM(i, jj(j))), 0, "1e-12", "contours lie over the span")
                 \o Near(e.y, row(LAMBDA i, j : FNeg(XM(i, jj(j)))), 0, "1e-12", "contours lie along the chord")
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE e.ev = "Traj" -> Report(e.sid, Traj)
             [] e.ev = "Grid" -> Report(e.sid, Grid)
             [] e.ev = "Mesh" -> Report(e.sid, Mesh \o Outline)
             [] e.ev = "Frame" -> Report(e.sid, Frame)
             [] e.ev = "Forces" -> Report(e.sid, Chk(e.before = e.after, "drawing leaves the forces alone", 0))
             [] e.ev = "Press" -> Report(e.sid, Press)
             [] e.ev = "Reject" -> Report(e.sid, Chk(e.raised, "an impossible wing or force direction is refused", e.what))
             [] e.ev = "Exc" -> Report(e.sid, << <<"a legal program runs", e.what>> >>)
             [] OTHER -> TRUE
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
