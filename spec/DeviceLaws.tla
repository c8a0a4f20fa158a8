------------------------------ MODULE DeviceLaws ------------------------------
(* Power devices: what each output is, as a function of inputs and options.  *)
(* e is a recorded evaluation: e.x inputs, e.y outputs (SI), e.o options     *)
(* given; options not given have their documented defaults.                  *)
EXTENDS LawLib
CostPerW == "0.1342281879194631"   \* 100 USD / 745 W

Motor(e) == LET eta == Opt(e, "efficiency", 1)
                load == X(e, "throttle") ** X(e, "elec_power_rating")
            IN Near(Y(e, "elec_load"), load, R9, 0, "motor load is throttle times rating")
            \o Near(Y(e, "shaft_power_out"), eta ** load, R9, 0, "motor delivers its efficiency share")
            \o NearN(Y(e, "shaft_power_out") ++ Y(e, "heat_out"), Y(e, "elec_load"), "1e-12", "1e-9", "motor power in equals power out plus heat")
            \o Near(Y(e, "component_sizing_margin"), X(e, "throttle"), R9, 0, "motor margin is the fraction of rated power")
            \o Near(Y(e, "component_weight"), Lin(e, "weight", X(e, "elec_power_rating"), "0.0002", 0), R9, 0, "motor weight is linear in the rating")
            \o Near(Y(e, "component_cost"), Lin(e, "cost", X(e, "elec_power_rating"), CostPerW, 1), R9, 0, "motor cost is linear in the rating")
Generator(e) == LET eta == Opt(e, "efficiency", 1) IN
               Near(Y(e, "elec_power_out"), eta ** X(e, "shaft_power_in"), R9, 0, "generator delivers its efficiency share")
            \o NearN(Y(e, "elec_power_out") ++ Y(e, "heat_out"), X(e, "shaft_power_in"), "1e-12", "1e-9", "generator power in equals power out plus heat")
            \o Near(Y(e, "component_sizing_margin"), (eta ** X(e, "shaft_power_in")) // X(e, "elec_power_rating"), R9, 0, "generator margin is delivered over rated power")
            \o Near(Y(e, "component_weight"), Lin(e, "weight", X(e, "elec_power_rating"), "0.0002", 0), R9, 0, "generator weight is linear in the rating")
            \o Near(Y(e, "component_cost"), Lin(e, "cost", X(e, "elec_power_rating"), CostPerW, 1), R9, 0, "generator cost is linear in the rating")
\* the first output's share of the input power, before losses
ShareA(e) == IF Opt(e, "rule", "fraction") = "fraction" THEN X(e, "power_in") ** X(e, "power_split_fraction")
             ELSE FMin(X(e, "power_in"), X(e, "power_split_amount"))
Splitter(e) == LET eta == Opt(e, "efficiency", 1)
                   a == ShareA(e)
                   P == X(e, "power_in")
               IN Near(Y(e, "power_out_A"), eta ** a, R9, "1e-9", "splitter sends the commanded share to its first output")
               \o NearN(Y(e, "power_out_B"), eta ** (P -- a), R9, "1e-9", "splitter sends the rest to its second output")
               \o NearN((Y(e, "power_out_A") ++ Y(e, "power_out_B")) ++ Y(e, "heat_out"), P, "1e-12", "1e-9", "splitter power in equals power out plus heat")
               \o Near(Y(e, "component_sizing_margin"), P // X(e, "power_rating"), R9, 0, "splitter margin is the fraction of rated power")
               \o Near(Y(e, "component_weight"), Lin(e, "weight", X(e, "power_rating"), 0, 0), R9, 0, "splitter weight is linear in the rating")
               \o Near(Y(e, "component_cost"), Lin(e, "cost", X(e, "power_rating"), 0, 0), R9, 0, "splitter cost is linear in the rating")
Turboshaft(e) == LET P == X(e, "throttle") ** X(e, "shaft_power_rating") IN
               Near(Y(e, "shaft_power_out"), P, R9, 0, "engine power is throttle times rating")
            \o Near(Y(e, "fuel_flow"), P ** Opt(e, "psfc", "1.013794644e-7"), R9, 0, "fuel flow is power times specific consumption")
            \o Near(Y(e, "component_sizing_margin"), X(e, "throttle"), R9, 0, "engine margin is the fraction of rated power")
            \o Near(Y(e, "component_weight"), Lin(e, "weight", X(e, "shaft_power_rating"), 0, 0), R9, 0, "engine weight is linear in the rating")
            \o Near(Y(e, "component_cost"), Lin(e, "cost", X(e, "shaft_power_rating"), "1.04", 0), R9, 0, "engine cost is linear in the rating")
Battery(e) == LET eta == Opt(e, "efficiency", 1)
                  L == X(e, "elec_load")
              IN NearN(Y(e, "heat_out"), (1 -- eta) ** L, R9, "1e-9", "battery heat is the lost share of its load")
            \o Near(Y(e, "max_energy"), X(e, "battery_weight") ** X(e, "specific_energy"), R9, 0, "battery energy is weight times specific energy")
            \o Near(Y(e, "component_sizing_margin"), L // (Opt(e, "specific_power", 5000) ** X(e, "battery_weight")), R9, 0, "battery margin is load over power capability")
            \o Near(Y(e, "component_cost"), Lin(e, "cost", X(e, "battery_weight"), 50, 1), R9, 0, "battery cost is linear in the weight")
\* ---- propeller
Rev(w) == w // (2 ** Pi)          \* revolutions per second
PropCoef(e) == LET n == Rev(X(e, "rpm"))
                   D == X(e, "diameter")
               IN Near(Y(e, "cp"), X(e, "shaft_power_in") // ((X(e, "fltcond|rho") ** FPow(n, 3)) ** FPow(D, 5)), R9, 0, "power coefficient")
               \o Near(Y(e, "J"), X(e, "fltcond|Utrue") // (n ** D), R9, "1e-12", "advance ratio")
               \o Near(Y(e, "prop_Vtip"), (Pi ** n) ** D, R9, 0, "tip speed")
\* thrust coefficient: static below J = 0.1, efficiency map above 0.2, linear between
CT(cp, J, eta, st) == LET s == st ** cp
                          d == (cp ** eta) // FMax(J, "1e-30")
                          w == (J -- "0.1") // "0.1"
                      IN FWhere(FStepLe(J, "0.1"), s, FWhere(FStepLe("0.2", J), d, ((1 -- w) ** s) ++ (w ** d)))
ThrustOf(e, cp, J, eta, st) == (CT(cp, J, eta, st) ** X(e, "fltcond|rho")) ** (FPow(Rev(X(e, "rpm")), 2) ** FPow(X(e, "diameter"), 4))
Thrust(e) == NearN(Y(e, "thrust"), ThrustOf(e, X(e, "cp"), X(e, "J"), X(e, "eta_prop"), X(e, "ct_over_cp")), R9, "1e-12", "propeller thrust")
\* Roskam, Part V eq. 6.14, in horsepower, feet and pounds
PropWeight(e) == "0.45359237" ** ("0.108" ** ((((X(e, "diameter") // "0.3048") ** (X(e, "power_rating") // "745.6998715822702")) ** FSqrt(Opt(e, "num_blades", 4))) ^^ "0.782"))
PropW(e) == Near(Y(e, "component_weight"), PropWeight(e), "1e-6", 0, "propeller weight")
Propeller(e) == PropCoef(e) \o PropW(e)
             \o NearN(Y(e, "thrust"), ThrustOf(e, Y(e, "cp"), Y(e, "J"), Y(e, "eta_prop"), Y(e, "ct_over_cp")), R9, "1e-12", "propeller thrust")
DeviceLaw(e) == CASE e.c = "SimpleMotor" -> Motor(e) [] e.c = "SimpleGenerator" -> Generator(e) [] e.c = "PowerSplit" -> Splitter(e)
                  [] e.c = "SimpleTurboshaft" -> Turboshaft(e) [] e.c = "SimpleBattery" -> Battery(e)
                  [] e.c = "PropCoefficients" -> PropCoef(e) [] e.c = "ThrustCalc" -> Thrust(e) [] e.c = "WeightCalc" -> PropW(e) [] e.c = "SimplePropeller" -> Propeller(e)
=============================================================================
