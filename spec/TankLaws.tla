------------------------------ MODULE TankLaws ------------------------------
(* Liquid hydrogen tanks: cylinder of the given length with hemispherical    *)
(* end caps.  Walls carry their design pressure, and every shell weighs its  *)
(* area times its thickness times its density.                               *)
EXTENDS LawLib
Volume(r, L) == ((4 // 3) ** (Pi ** (r ^^ 3))) ++ (Pi ** ((r ^^ 2) ** L))
Area(r, L) == (4 ** (Pi ** (r ^^ 2))) ++ (2 ** (Pi ** (r ** L)))
\* a pressurised wall: hoop stress is the yield stress over the safety factor
HoopWall(p, r, sf, yield) == ((p ** r) ** sf) // yield
\* a wall in external pressure buckles as a cylinder or as a sphere, whichever needs more
BucklingWall(p, r, L, sf, E, stiff) ==
    stiff ** FMax((((p ** sf) ** (L ** (r ^^ "1.5"))) // ("0.92" ** E)) ^^ "0.4", r ** FSqrt((p ** sf) // ("0.365" ** E)))
MLI(N, r, L, foil, spacer) == ((foil ++ spacer) ** N) ** Area(r, L)
Inner(e) == LET r == X(e, "radius")
                L == X(e, "length")
                t == HoopWall(X(e, "design_pressure_differential"), r, Opt(e, "safety_factor", 2), Opt(e, "yield_stress", 470200000))
            IN Near(Y(e, "thickness"), t, R9, 0, "a pressure wall is as thick as its hoop stress needs")
            \o Near(Y(e, "weight"), (Area(r, L) ** t) ** Opt(e, "density", 2699), R9, 0, "a pressure wall weighs its shell")
Outer(e) == LET r == X(e, "radius")
                L == X(e, "length")
                t == BucklingWall(X(e, "design_pressure_differential"), r, L, Opt(e, "safety_factor", 2), Opt(e, "youngs_modulus", "8e10"), Opt(e, "stiffening_multiplier", "0.8"))
            IN Near(Y(e, "thickness"), t, R9, 0, "a vacuum wall is as thick as its buckling pressure needs")
            \o Near(Y(e, "weight"), (Area(r, L) ** t) ** Opt(e, "density", 2699), R9, 0, "a vacuum wall weighs its shell")
Layers(e) == Near(Y(e, "weight"), MLI(X(e, "N_layers"), X(e, "radius"), X(e, "length"), Opt(e, "foil_layer_areal_weight", "0.018"), Opt(e, "spacer_layer_areal_weight", "0.012")), R9, 0, "insulation weighs its layers")
\* the whole structure, from the tank's own dimensions and options
Structure(e) ==
    LET r == X(e, "radius")
        L == X(e, "length")
        ro == r ++ X(e, "vacuum_gap")
        wi == (Area(r, L) ** HoopWall(X(e, "max_expected_operating_pressure"), r, Opt(e, "inner_safety_factor", "1.5"), Opt(e, "inner_yield_stress", 413700000))) ** Opt(e, "inner_density", 2796)
        wo == (Area(ro, L) ** BucklingWall(X(e, "environment_design_pressure"), ro, L, Opt(e, "outer_safety_factor", 2), Opt(e, "outer_youngs_modulus", "8e10"), Opt(e, "stiffening_multiplier", "0.8"))) ** Opt(e, "outer_density", 2699)
    IN Opt(e, "weight_fudge_factor", "1.1") ** ((wi ++ wo) ++ MLI(X(e, "N_layers"), r, L, "0.018", "0.012"))
Walls(e) == Near(Y(e, "weight"), Structure(e), R9, 0, "tank structure is both walls and insulation times the fudge factor")
FullMass(e, r, L) == Opt(e, "LH2_density", "70.85") ** Volume(r, L)
Start(e) == Opt(e, "fill_level_init", "0.95") ** FullMass(e, X(e, "radius"), X(e, "length"))
Fill(e) == NearN(Y(e, "m_liq"), Start(e) -- X(e, "delta_m_liq"), "1e-10", "1e-10", "hydrogen left is the initial fill minus what was drawn")
        \o NearN(Y(e, "fill_level"), Y(e, "m_liq") // FullMass(e, X(e, "radius"), X(e, "length")), "1e-10", "1e-12", "fill level is the share of the tank's volume")
TankLaw(e) == CASE e.c = "PressureVesselWallThickness" -> Inner(e)
                [] e.c = "VacuumWallThickness" -> Outer(e)
                [] e.c = "MLIWeight" -> Layers(e)
                [] e.c = "VacuumTankWeight" -> Walls(e)
                [] e.c = "InitialLH2MassModification" -> Fill(e)
=============================================================================
