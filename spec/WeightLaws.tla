----------------------------- MODULE WeightLaws -----------------------------
(* The documented weight regressions (in pounds, feet, horsepower, ...) and  *)
(* operating costs.                                                          *)
EXTENDS LawLib, WeightBook
V(e, n) == IF Has(e.x, n) THEN e.x[n] ELSE e.y[n]
Lb(e, n) == V(e, n) // "0.45359237"
Ft(e, n) == V(e, n) // "0.3048"
Inch(e, n) == V(e, n) // "0.0254"
Ft2(e, n) == V(e, n) // "0.09290304"
Ft3(e, n) == V(e, n) // "0.028316846592"
Hp(e, n) == V(e, n) // "745.7"
Lbf(e, n) == V(e, n) // "4.44822162"
Kn(e, n) == V(e, n) // "0.5144444444444445"
Psi(e, n) == V(e, n) // "6894.75729317"
Psf(e, n) == V(e, n) // "4.882427636383051"
MTOW(e) == Lb(e, "ac|weights|MTOW")
Is(e, n, val, clause) == Near(Lb(e, n), val, R9, 0, clause)
\* ---- small turboprops
NultTP(e) == Opt(e, "n_ult", "5.7")
WingTP(e) == LET c == FCos(V(e, "ac|geom|wing|c4sweep")) IN
    Is(e, "W_wing", FProd(<<
      "0.036", (Ft2(e, "ac|geom|wing|S_ref") ^^ "0.758")[1], (Lb(e, "ac|weights|W_fuel_max") ^^ "0.0035")[1],
      ((V(e, "ac|geom|wing|AR") // (c ^^ 2)) ^^ "0.6")[1], (Psf(e, "ac|q_cruise") ^^ "0.006")[1], (V(e, "ac|geom|wing|taper") ^^ "0.04")[1],
      (((100 ** V(e, "ac|geom|wing|toverc")) // c) ^^ "-0.3")[1], ((NultTP(e) ** MTOW(e)) ^^ "0.49")[1]>>), "small turboprop wing weight")
EmpTP(e) == Is(e, "W_empennage", "0.04" ** ((NultTP(e) ** ((Ft2(e, "ac|geom|vstab|S_ref") ++ Ft2(e, "ac|geom|hstab|S_ref")) ^^ 2)) ^^ "0.75"), "small turboprop empennage weight")
FusTP(e) == LET L == Ft(e, "ac|geom|fuselage|length")
                h == Ft(e, "ac|geom|fuselage|height")
                press == "11.9" ** (((Pi ** ((Ft(e, "ac|geom|fuselage|width") ++ h) // 2)) ** (L ** "6.4")) ^^ "0.271")
                shell == FProd(<<"0.052", (Ft2(e, "ac|geom|fuselage|S_wet") ^^ "1.086")[1], ((NultTP(e) ** MTOW(e)) ^^ "0.177")[1], (Ft(e, "ac|geom|hstab|c4_to_wing_c4") ^^ "-0.051")[1], ((L // h) ^^ "-0.072")[1], (Psf(e, "ac|q_cruise") ^^ "0.241")[1]>>)
            IN Is(e, "W_fuselage", shell ++ press, "small turboprop fuselage weight")
NacTP(e) == Is(e, "W_nacelle", "2.5" ** FSqrt(Hp(e, "P_TO")), "small single-turboprop nacelle weight")
NacMulti(e) == Is(e, "W_nacelle", "0.14" ** Hp(e, "P_TO"), "multi-turboprop nacelle weight")
GearTP(e) == LET w == NultTP(e) ** Lb(e, "ac|weights|MLW") IN
    Is(e, "W_gear", ("0.095" ** ((w ^^ "0.768") ** ((Ft(e, "ac|geom|maingear|length") // 12) ^^ "0.409"))) ++ ("0.125" ** ((w ^^ "0.566") ** ((Ft(e, "ac|geom|nosegear|length") // 12) ^^ "0.845"))), "small turboprop gear weight")
FuelTP(e) == Is(e, "W_fuelsystem", ("2.49" ** ((Lb(e, "ac|weights|W_fuel_max") // Opt(e, "Kfsp", "6.55")) ^^ "0.726")) ** ("0.5" ^^ "0.363"), "small turboprop fuel system weight")
EquipTP(e) ==
    LET b == FSqrt(Ft2(e, "ac|geom|wing|S_ref") ** V(e, "ac|geom|wing|AR"))
        n == V(e, "ac|num_passengers_max")
        avi == "2.117" ** (110 ^^ "0.933")
        controls == "0.23" ** (MTOW(e) ^^ "0.666")
        hydraulics == "0.2673" ** ((Ft(e, "ac|geom|fuselage|length") ** b) ^^ "0.937")
        electrical == "12.57" ** ((Lb(e, "W_fuelsystem") ++ avi) ^^ "0.51")
        air == ("0.265" ** ((MTOW(e) ^^ "0.52") ** (n ^^ "0.68"))) ** ((avi ^^ "0.17") ** "0.95")
        furnish == "0.412" ** ((n ^^ "1.145") ** (MTOW(e) ^^ "0.489"))
    IN Is(e, "W_equipment", (((controls ++ electrical) ++ (avi ++ air)) ++ ((30 ++ ("1.2" ** n)) ++ furnish)) ++ (("0.003" ** MTOW(e)) ++ hydraulics), "small turboprop equipment weight")
\* ---- jet transports
Nult(e) == Opt(e, "n_ult", "3.75")
Nland(e) == Opt(e, "n_land_ult", "4.2")
WingJet(e) == LET S == Ft2(e, "ac|geom|wing|S_ref") IN
    Is(e, "W_wing", FProd(<<"0.0051", ((MTOW(e) ** Nult(e)) ^^ "0.557")[1], (S ^^ "0.649")[1], (V(e, "ac|geom|wing|AR") ^^ "0.5")[1], (V(e, "ac|geom|wing|toverc") ^^ "-0.4")[1],
      ((1 ++ V(e, "ac|geom|wing|taper")) ^^ "0.1")[1], (FCos(V(e, "ac|geom|wing|c4sweep")) ^^ (-1))[1], ((Opt(e, "control_surface_area_frac", "0.1") ** S) ^^ "0.1")[1]>>), "jet transport wing weight")
HConst(e) == IF Has(e.x, "HstabConst") THEN X(e, "HstabConst")
             ELSE 1 ++ ((Ft(e, "ac|geom|fuselage|height") ** Opt(e, "fuselage_width_frac", "0.5")) // FSqrt(Ft2(e, "ac|geom|hstab|S_ref") ** V(e, "ac|geom|hstab|AR")))
HConstLaw(e) == Near(Y(e, "HstabConst"), HConst(e), R9, 0, "fuselage width term of the stabilizer weight")
HstabJet(e) == LET t == Ft(e, "ac|geom|hstab|c4_to_wing_c4") IN
    Is(e, "W_hstab", FProd(<<"0.0379", Opt(e, "K_uht", 1), (HConst(e) ^^ "-0.25")[1], (MTOW(e) ^^ "0.639")[1], Nult(e) ^^ "0.1", (Ft2(e, "ac|geom|hstab|S_ref") ^^ "0.75")[1], (("0.3" ** t) ^^ "0.704")[1], (1 // t)[1],
      (1 // FCos(V(e, "ac|geom|hstab|c4sweep")))[1], (V(e, "ac|geom|hstab|AR") ^^ "0.166")[1], (1 ++ Opt(e, "elevator_area_frac", "0.2")) ^^ "0.1">>), "jet transport horizontal tail weight")
VstabJet(e) == Is(e, "W_vstab", FProd(<<"0.0026", (IF Opt(e, "T_tail", FALSE) THEN 2 ELSE 1) ^^ "0.225", (MTOW(e) ^^ "0.556")[1], Nult(e) ^^ "0.536", (Ft(e, "ac|geom|vstab|c4_to_wing_c4") ^^ "0.375")[1], (Ft2(e, "ac|geom|vstab|S_ref") ^^ "0.5")[1],
      (1 // FCos(V(e, "ac|geom|vstab|c4sweep")))[1], (V(e, "ac|geom|vstab|AR") ^^ "0.35")[1], (V(e, "ac|geom|vstab|toverc") ^^ "-0.5")[1]>>), "jet transport vertical tail weight")
Kws(e) == IF Has(e.x, "K_ws") THEN X(e, "K_ws")
          ELSE LET l == V(e, "ac|geom|wing|taper") IN
               (("0.75" ** ((1 ++ (2 ** l)) // (1 ++ l))) ** (FSqrt(Ft2(e, "ac|geom|wing|S_ref") ** V(e, "ac|geom|wing|AR")) ** FTan(V(e, "ac|geom|wing|c4sweep")))) // Ft(e, "ac|geom|fuselage|length")
KwsLaw(e) == Near(Y(e, "K_ws"), Kws(e), R9, 0, "wing sweep term of the fuselage weight")
FusJet(e) == Is(e, "W_fuselage", FProd(<<"0.328", Opt(e, "K_door", 1), Opt(e, "K_lg", 1), (MTOW(e) ^^ "0.5")[1], Nult(e) ^^ "0.5", (Ft(e, "ac|geom|fuselage|length") ^^ "0.35")[1], (Ft2(e, "ac|geom|fuselage|S_wet") ^^ "0.302")[1],
      ((1 ++ Kws(e)) ^^ "0.04")[1], (Ft(e, "ac|geom|fuselage|height") ^^ "-0.1")[1]>>), "jet transport fuselage weight")
MainGear(e, k) == Is(e, "W_mlg", FProd(<<"0.0106", Opt(e, k, 1), (Lb(e, "ac|weights|MLW") ^^ "0.888")[1], Nland(e) ^^ "0.25", (Inch(e, "ac|geom|maingear|length") ^^ "0.4")[1], (V(e, "ac|geom|maingear|num_wheels") ^^ "0.321")[1],
      (V(e, "ac|geom|maingear|num_shock_struts") ^^ "-0.5")[1], (Kn(e, "ac|aero|Vstall_land") ^^ "0.1")[1]>>), "jet transport main gear weight")
NoseGear(e, k) == Is(e, "W_nlg", FProd(<<"0.032", Opt(e, k, 1), (Lb(e, "ac|weights|MLW") ^^ "0.646")[1], Nland(e) ^^ "0.2", (Inch(e, "ac|geom|nosegear|length") ^^ "0.5")[1], (V(e, "ac|geom|nosegear|num_wheels") ^^ "0.45")[1]>>), "jet transport nose gear weight")
Thrust(e) == Lbf(e, "ac|propulsion|engine|rating")
Neng(e) == V(e, "ac|propulsion|num_engines")
OneEngine(e) == Thrust(e) // "5.5"
EngJet(e) == Is(e, "W_engine", OneEngine(e), "engine weight follows its rated thrust")
Engs(e) == Is(e, "W_engines", OneEngine(e) ** Neng(e), "engines weigh the number of engines times one engine")
EngSys(e, one) == Is(e, "W_thrust_rev", "0.034" ** (Thrust(e) ** Neng(e)), "thrust reverser weight")
          \o Is(e, "W_eng_control", "0.26" ** (Neng(e) ** FSqrt(Thrust(e))), "engine control weight")
          \o Is(e, "W_fuelsystem", ("1.07" ** (Lb(e, "ac|weights|W_fuel_max") ^^ "0.58")) ** ((Neng(e) ^^ "0.43") ** (V(e, "ac|aero|Mach_max") ^^ "0.34")), "jet transport fuel system weight")
          \o Is(e, "W_eng_start", ("9.33" ** ((one // 1000) ^^ "1.078")) ** Neng(e), "engine starter weight")
NacJet(e) == Is(e, "W_nacelle", "0.065" ** (Thrust(e) ** Neng(e)), "jet transport nacelle weight")
Pax(e) == V(e, "ac|num_passengers_max")
Deck(e) == V(e, "ac|num_flight_deck_crew")
Cabin(e) == V(e, "ac|num_cabin_crew")
Furnish(e) == Is(e, "W_furnishings", (((55 ** Deck(e)) ++ (32 ** Pax(e))) ++ ((15 ** Cabin(e)) ++ (Opt(e, "K_lav", "0.7") ** (Pax(e) ^^ "1.33"))))
      ++ (((Opt(e, "K_buf", 4) ** (Pax(e) ^^ "1.12")) ++ (109 ** (((Pax(e) ** (1 ++ Psi(e, "ac|cabin_pressure"))) // 100) ^^ "0.505"))) ++ ("0.771" ** (MTOW(e) // 1000))), "furnishing weight")
Volume(e) == IF Has(e.x, "ac|geom|V_pressurized") THEN Ft3(e, "ac|geom|V_pressurized")
             ELSE ((Pi // 4) ** (Ft(e, "ac|geom|fuselage|height") ^^ 2)) ** (Ft(e, "ac|geom|fuselage|length") ** Opt(e, "cabin_length_frac", "0.75"))
Equip(e) == LET people == Deck(e) ++ (Cabin(e) ++ Pax(e)) IN
       Is(e, "W_flight_controls", Opt(e, "coeff_fc", "0.768") ** (MTOW(e) ^^ (2 // 3)), "flight control weight")
    \o Is(e, "W_avionics", Opt(e, "coeff_avionics", "0.5") ** (((Deck(e) ** (15 ++ ("0.000032" ** MTOW(e)))) ++ (Neng(e) ** (5 ++ ("0.000006" ** MTOW(e))))) ++ ("0.01215" ** MTOW(e))), "avionics weight")
    \o Is(e, "W_electrical", 1163 ** (((Lb(e, "W_fuelsystem") ++ Lb(e, "W_avionics")) // 1000) ^^ "0.506"), "electrical system weight")
    \o Is(e, "W_ac_pressurize_antiice", 469 ** (((Volume(e) ** people) // 10000) ^^ "0.419"), "air conditioning and anti-icing weight")
    \o Is(e, "W_oxygen", 7 ** (people ^^ "0.702"), "oxygen system weight")
    \o Is(e, "W_APU", Opt(e, "APU_weight_frac", "0.0085") ** MTOW(e), "auxiliary power unit weight")
CabinBWB(e) == Is(e, "W_cabin", ("1.803246" ** (MTOW(e) ^^ "0.166552")) ** (Ft2(e, "ac|geom|centerbody|S_cabin") ^^ "1.061158"), "blended-wing-body cabin weight")
AftBWB(e) == Is(e, "W_aftbody", ("0.53" ** ((1 ++ ("0.05" ** Neng(e))) ** Ft2(e, "ac|geom|centerbody|S_aftbody"))) ** ((MTOW(e) ^^ "0.2") ** (V(e, "ac|geom|centerbody|taper_aftbody") ++ "0.5")), "blended-wing-body aft body weight")
\* ---- the books
RECURSIVE Total(_, _)
Total(e, S) == IF S = {} THEN "0" ELSE LET p == CHOOSE q \in S : TRUE IN V(e, p) ++ Total(e, S \ {p})
SmallBook(e) == LET st == Structural(e.c) IN
       Near(Y(e, "W_structure"), Total(e, st), R9, 0, "structural weight is the sum of its parts")
    \o Near(Y(e, "W_structure_adjusted"), V(e, "structural_fudge") ** Total(e, st), R9, 0, "adjusted structure is the fudge factor times its parts")
    \o Near(Y(e, "OEW"), (V(e, "structural_fudge") ** Total(e, st)) ++ Total(e, Others(e.c)), R9, 0, "empty weight is the fudged structure plus every other part once")
\* what the book assumes until it is told otherwise
SmallDefaults(e) == Near(e.x["W_fluids"], 20, R9, 0, "fluids weigh 20 kg") \o Near(e.x["structural_fudge"], "1.6", R9, 0, "small turboprop structural fudge factor")
BigBook(e, sf, tf) ==
    LET st == Structural(e.c)
        s == Opt(e, "structural_fudge", sf) ** ((Opt(e, "wing_weight_multiplier", 1) ** Y(e, "W_wing")) ++ Total(e, st \ {"W_wing"}))
    IN Near(Y(e, "W_structure"), s, R9, 0, "structure is the fudge factor times the structural parts")
    \o Near(Y(e, "OEW"), Opt(e, "total_fudge", tf) ** (s ++ Total(e, Others(e.c))), R9, 0, "empty weight is the fudged structure plus every other part once")
SmallParts(e) == WingTP(e) \o EmpTP(e) \o FusTP(e) \o NacTP(e) \o GearTP(e) \o FuelTP(e) \o EquipTP(e)
BigParts(e) == WingJet(e) \o MainGear(e, "kneeling_main_gear_parameter") \o NoseGear(e, "kneeling_nose_gear_parameter") \o Engs(e) \o EngSys(e, OneEngine(e)) \o NacJet(e) \o Furnish(e) \o Equip(e)
CostBook(e) ==
    LET n == Opt(e, "n_components", 1)
        nb == Opt(e, "n_batteries", 0)
        sum(base, m, end) == FSum(<<"0">> \o [i \in 1..m |-> X(e, base \o "_" \o ToString(i) \o end)[1]])
        premium == Opt(e, "OEM_premium", "1.1")
        airframe == ((X(e, "OEW") -- sum("component", n, "_weight")) ** Opt(e, "airframe_cost_per_kg", 266)) ** premium
        total == airframe ++ (sum("component", n, "_NR_cost") ** premium)
        fuel == X(e, "fuel_burn") ** Opt(e, "fuel_cost_per_kg", "2.5" // "3.08")
        elec == (sum("battery", nb, "_energy_used") // 1000000) ** Opt(e, "electricity_cost_per_MJ", "0.01")
        batt == sum("battery", nb, "_NR_cost") // Opt(e, "battery_replacement_cycles", 1500)
        trips == (Opt(e, "aircraft_daily_cycles", 5) ** 365) ** Opt(e, "aircraft_life_years", 15)
        at == "1e-10" ** (FAbs(total) // trips)
    IN NearN(Y(e, "airframe_NR_cost"), airframe, R9, "1e-6", "airframe cost excludes the propulsion components")
    \o NearN(Y(e, "total_NR_cost"), total, R9, "1e-6", "non-recurring cost is airframe plus components")
    \o Near(Y(e, "fuel_cost"), fuel, R9, 0, "fuel cost")
    \o (IF nb = 0 THEN Ok ELSE Near(Y(e, "electricity_cost"), elec, R9, 0, "electricity cost") \o Near(Y(e, "trip_battery_cost"), batt, R9, 0, "battery replacement cost"))
    \o Near(Y(e, "trip_energy_cost"), fuel ++ elec, R9, 0, "trip energy cost is fuel plus electricity")
    \o NearN(Y(e, "trip_direct_operating_cost"), ((fuel ++ elec) ++ batt) ++ (total // trips), R9, "1e-9", "direct operating cost is energy, batteries and the trip's share of the airplane")
\* a part moves only when an input it depends on does
Unmoved(e) == LET D == Deps(e.c)
                  bad == {p \in DOMAIN D : e.changed \notin D[p] /\ ~(p \in DOMAIN e.x) /\ ~FSame(e.y[p], e.prev[p])}
              IN Chk(bad = {}, "changing an input a part does not depend on leaves the part unchanged", [changed |-> e.changed, parts |-> bad])
WeightLaw(e) == CASE e.c = "WingWeight_SmallTurboprop" -> WingTP(e)
    [] e.c = "EmpennageWeight_SmallTurboprop" -> EmpTP(e)
    [] e.c = "FuselageWeight_SmallTurboprop" -> FusTP(e)
    [] e.c = "NacelleWeight_SmallSingleTurboprop" -> NacTP(e)
    [] e.c = "NacelleWeight_MultiTurboprop" -> NacMulti(e)
    [] e.c = "LandingGearWeight_SmallTurboprop" -> GearTP(e)
    [] e.c = "FuelSystemWeight_SmallTurboprop" -> FuelTP(e)
    [] e.c = "EquipmentWeight_SmallTurboprop" -> EquipTP(e)
    [] e.c = "WingWeight_JetTransport" -> WingJet(e)
    [] e.c = "HstabConst_JetTransport" -> HConstLaw(e)
    [] e.c = "HstabWeight_JetTransport" -> HstabJet(e)
    [] e.c = "VstabWeight_JetTransport" -> VstabJet(e)
    [] e.c = "FuselageKws_JetTransport" -> KwsLaw(e)
    [] e.c = "FuselageWeight_JetTransport" -> FusJet(e)
    [] e.c = "MainLandingGearWeight_JetTransport" -> MainGear(e, "kneeling_gear_parameter")
    [] e.c = "NoseLandingGearWeight_JetTransport" -> NoseGear(e, "kneeling_gear_parameter")
    [] e.c = "EngineWeight_JetTransport" -> EngJet(e)
    [] e.c = "EngineSystemsWeight_JetTransport" -> EngSys(e, Lb(e, "W_engine"))
    [] e.c = "NacelleWeight_JetTransport" -> NacJet(e)
    [] e.c = "FurnishingWeight_JetTransport" -> Furnish(e)
    [] e.c = "EquipmentWeight_JetTransport" -> Equip(e)
    [] e.c = "CabinWeight_BWB" -> CabinBWB(e)
    [] e.c = "AftbodyWeight_BWB" -> AftBWB(e)
    [] e.c \in {"SingleTurboPropEmptyWeight", "TwinSeriesHybridEmptyWeight"} -> SmallParts(e) \o SmallBook(e)
    [] e.c = "JetTransportEmptyWeight" -> BigParts(e) \o HstabJet(e) \o VstabJet(e) \o FusJet(e) \o BigBook(e, "1.2", "1.15")
    [] e.c = "BWBEmptyWeight" -> BigParts(e) \o CabinBWB(e) \o AftBWB(e) \o BigBook(e, 1, 1)
    [] e.c = "TurbopropOperatingCost" -> CostBook(e)
=============================================================================
