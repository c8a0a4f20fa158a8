------------------------------ MODULE MeshLaws ------------------------------
(* Planform relations and the meshes and section data generated from them.   *)
EXTENDS LawLib
\* ---- meshes: e.y.mesh[i][j] = <<x, y, z>>, i streamwise, j from tip to root
M(e) == e.y["mesh"]
Xs(e, i) == [j \in 1..Len(M(e)[i]) |-> M(e)[i][j][1]]
Ys(e, i) == [j \in 1..Len(M(e)[i]) |-> M(e)[i][j][2]]
Zs(e, i) == [j \in 1..Len(M(e)[i]) |-> M(e)[i][j][3]]
Nx(e) == Len(M(e)) - 1
\* fraction of the chord / region, cosine spaced or uniform
CosW(n) == "0.5" ** (1 -- FCos(FLinspace(0, Pi, n + 1)))
Uni(n) == FLinspace(0, 1, n + 1)
Spread(cos, n) == IF cos THEN CosW(n) ELSE Uni(n)
\* values given at the sections, carried to the nodes of all regions
RECURSIVE Carry(_, _, _)
Carry(v, panels, cos) ==
    LET n == panels[1]
        here == v[1] ++ ((v[2] -- v[1]) ** Spread(cos, n))
    IN IF Len(panels) = 1 THEN here ELSE SubSeq(here, 1, n) \o Carry(Tail(v), Tail(panels), cos)
Total(panels) == FoldSeq(LAMBDA n, s : s + n, 0, panels)
Size(e, nx, ny) == Chk(Len(M(e)) = nx + 1 /\ \A i \in 1..Len(M(e)) : Len(M(e)[i]) = ny + 1, "number of mesh nodes", [specified |-> <<nx + 1, ny + 1>>, recorded |-> <<Len(M(e)), Len(M(e)[1])>>])
Tidy(e) == LET rows == {i \in 1..(Nx(e) + 1) : \E j \in 1..(Len(M(e)[i]) - 1) : ~FLt(Ys(e, i)[j], Ys(e, i)[j + 1])}
               cols == {i \in 1..Nx(e) : ~FAllLe(Xs(e, i), Xs(e, i + 1))}
           IN Chk(rows = {}, "nodes run from tip to root", rows) \o Chk(cols = {}, "nodes run from leading to trailing edge", cols)
\* area of the full wing spanned by the mesh
MeshArea(e) == LET c == Xs(e, Nx(e) + 1) -- Xs(e, 1)
                   y == Ys(e, 1)
                   n == Len(c)
               IN FDot(SubSeq(c, 1, n - 1) ++ SubSeq(c, 2, n), SubSeq(y, 2, n) -- SubSeq(y, 1, n - 1))
Flat(e) == Each(Nx(e) + 1, LAMBDA i : Near(Zs(e, i), 0, 0, 0, "the mesh is flat"))
\* trapezoidal wing: straight quarter-chord line through the origin
Trap(e) ==
    LET S == X(e, "S") AR == X(e, "AR") tp == X(e, "taper")
        half == FSqrt(AR ** S) // 2
        root == S // (half ** (1 ++ tp))
        w == Uni(e.num_y)
        y == FNeg(half) ** (1 -- w)
        c == root ** (tp ++ ((1 -- tp) ** w))
        x4 == FNeg(y) ** FTan(X(e, "sweep"))
    IN Size(e, e.num_x, e.num_y)
       \o Each(Nx(e) + 1, LAMBDA i : NearN(Ys(e, i), y, R9, 0, "spanwise stations of the trapezoidal mesh")
           \o NearN(Xs(e, i), x4 ++ (c ** (Uni(e.num_x)[i] -- "0.25")), R9, R9, "streamwise positions of the trapezoidal mesh"))
       \o Near(MeshArea(e), S, R9, 0, "the mesh has the requested area") \o Tidy(e) \o Flat(e)
\* wing of sections
Root(v) == v \o <<"0">>
SecArea(y, c) == LET n == Len(c) IN FDot(SubSeq(c, 1, n - 1) ++ SubSeq(c, 2, n), SubSeq(y, 2, n) -- SubSeq(y, 1, n - 1))
SecMesh(e) ==
    LET y == Root(X(e, "y_sec")) c == X(e, "chord_sec") x == X(e, "x_LE_sec")
        A == SecArea(y, c)
        f == IF Has(e.x, "S") THEN FSqrt(X(e, "S") // A) ELSE <<"1">>
        W == CosW(e.num_x)
        yn == f ** Carry(y, e.panels, TRUE)
        cn == f ** Carry(c, e.panels, TRUE)
        xn == f ** Carry(x, e.panels, TRUE)
    IN Size(e, e.num_x, Total(e.panels))
       \o Each(Nx(e) + 1, LAMBDA i : NearN(Ys(e, i), yn, R9, 0, "spanwise stations of the section mesh")
           \o NearN(Xs(e, i), xn ++ (cn ** W[i]), R9, R9, "streamwise positions of the section mesh"))
       \o (IF Has(e.x, "S") THEN Near(MeshArea(e), X(e, "S"), R9, 0, "the mesh has the requested area")
           ELSE Near(Y(e, "S"), A, R9, 0, "area of the sections") \o Near(MeshArea(e), Y(e, "S"), R9, 0, "the mesh has the reported area"))
       \o Tidy(e) \o Flat(e)
\* data at the sections
Linear(e) == NearN(Y(e, "property_node"), Carry(X(e, "property_sec"), e.panels, e.cos), R9, R9, "section data at the mesh nodes")
Thick(e) == LET v == Carry(X(e, "section_toverc"), e.panels, e.cos) n == Len(v) IN
    NearN(Y(e, "panel_toverc"), "0.5" ** (SubSeq(v, 1, n - 1) ++ SubSeq(v, 2, n)), R9, 0, "thickness of a panel is the mean of its two sides")
\* ---- planform relations
Cut(e, v) == SubSeq(v, Opt(e, "idx_sec_start", 0) + 1, IF Has(e.o, "idx_sec_end") THEN e.o["idx_sec_end"] + 1 ELSE Len(v))
Head1(v) == SubSeq(v, 1, Len(v) - 1)
SecAreaLaw(e) == Near(Y(e, "S"), SecArea(Cut(e, Root(X(e, "y_sec"))), Cut(e, X(e, "chord_sec"))) ** (Opt(e, "chord_frac_end", 1) -- Opt(e, "chord_frac_start", 0)), R9, 0, "area of the selected sections")
\* with chord c(y) and leading edge x(y) linear between sections: integrals of c^2 and c (x + c/4) over c
SecMac(e) ==
    LET y == Cut(e, Root(X(e, "y_sec"))) c == Cut(e, X(e, "chord_sec")) x == Cut(e, X(e, "x_LE_sec"))
        w == Tail(y) -- Head1(y)
        c1 == Head1(c) c2 == Tail(c)
        q1 == Head1(x) ++ (c1 // 4) q2 == Tail(x) ++ (c2 // 4)
        area == FDot(w, c1 ++ c2) // 2
    IN Near(Y(e, "MAC"), (FDot(w, ((c1 ** c1) ++ (c1 ** c2)) ++ (c2 ** c2)) // 3) // area, R9, 0, "mean aerodynamic chord of the selected sections")
       \o NearN(Y(e, "x_c4MAC"), (FDot(w, ((2 ** (c1 ** q1)) ++ (2 ** (c2 ** q2))) ++ ((c1 ** q2) ++ (c2 ** q1))) // 6) // area, R9, R9, "streamwise location of the mean aerodynamic chord")
SecSweep(e) ==
    LET y == Cut(e, Root(X(e, "y_sec"))) c == Cut(e, X(e, "chord_sec")) x == Cut(e, X(e, "x_LE_sec"))
        w == Tail(y) -- Head1(y)
        c1 == Head1(c) c2 == Tail(c)
        d == (Head1(x) ++ (c1 // 4)) -- (Tail(x) ++ (c2 // 4))
        cosine == w // FSqrt((w ** w) ++ (d ** d))
        A == w ** (c1 ++ c2)
    IN Near(FCos(Y(e, "c4sweep")), FDot(cosine, A) // FSum(A), R9, 0, "area-averaged quarter-chord sweep")
MacTrap(S, AR, tp) == (("2" // "3") ** (((2 ** FSqrt(S // AR)) // (1 ++ tp)) ** ((1 ++ tp) ++ (tp ** tp)))) // (1 ++ tp)
PlanLaw(e) == CASE e.c = "WingMACTrapezoidal" -> Near(Y(e, "MAC"), MacTrap(X(e, "S_ref"), X(e, "AR"), X(e, "taper")), R9, 0, "mean aerodynamic chord of a trapezoidal wing")
    [] e.c = "WingSpan" -> Near(Y(e, "span") ^^ 2, X(e, "S_ref") ** X(e, "AR"), R9, 0, "span of a wing")
    [] e.c = "WingAspectRatio" -> Near(Y(e, "AR") ** X(e, "S_ref"), X(e, "span") ^^ 2, R9, 0, "aspect ratio of a wing")
    [] e.c = "CylinderSurfaceArea" -> Near(Y(e, "A"), FProd(<<Pi, X(e, "D")[1], X(e, "L")[1]>>), R9, 0, "area of a cylinder")
    [] e.c = "HStabVolumeCoefficientSizing" -> Near(Y(e, "ac|geom|hstab|S_ref") ** X(e, "ac|geom|hstab|c4_to_wing_c4"), (Opt(e, "C_ht", 1) ** X(e, "ac|geom|wing|S_ref")) ** X(e, "ac|geom|wing|MAC"), R9, 0, "horizontal tail volume coefficient")
    [] e.c = "VStabVolumeCoefficientSizing" -> Near(Y(e, "ac|geom|vstab|S_ref") ** X(e, "ac|geom|vstab|c4_to_wing_c4"), (Opt(e, "C_vt", "0.09") ** X(e, "ac|geom|wing|S_ref")) ** FSqrt(X(e, "ac|geom|wing|AR") ** X(e, "ac|geom|wing|S_ref")), R9, 0, "vertical tail volume coefficient")
MeshLaw(e) == CASE e.c = "TrapezoidalPlanformMesh" -> Trap(e)
    [] e.c = "SectionPlanformMesh" -> SecMesh(e)
    [] e.c = "SectionLinearInterp" -> Linear(e)
    [] e.c = "ThicknessChordRatioInterp" -> Thick(e)
    [] e.c = "WingAreaFromSections" -> SecAreaLaw(e)
    [] e.c = "WingMACFromSections" -> SecMac(e)
    [] e.c = "WingSweepFromSections" -> SecSweep(e)
    [] OTHER -> PlanLaw(e)
\* ---- one wing, described twice: v holds the outcomes of several components
SameWing(e) == LET v == e.v IN
    Near(v["span_trap"], v["span_mesh"], R9, 0, "the trapezoidal mesh spans what the planform relation says")
    \o Near(v["AR_back"], v["AR"], R9, 0, "aspect ratio and span are each other's inverse")
    \o Near(v["MAC_sec"], v["MAC_trap"], R9, 0, "both mean aerodynamic chords agree on a trapezoidal wing")
    \o Near(v["S_sec"], v["S"], R9, 0, "sections read off the trapezoidal mesh have its area")
    \o Near(v["sweep_sec"], FAbs(v["sweep"]), "1e-6", "1e-7", "sections read off the trapezoidal mesh have its sweep")
    \o NearN(v["x4_sec"], v["x4"], R9, R9, "quarter chord of the mean chord lies on the quarter-chord line")
Split(e) == LET v == e.v IN Near(FSum(v["parts"]), v["whole"], R9, 0, "areas of adjoining regions add up to the whole")
=============================================================================
