------------------------------ MODULE ArchGraph ------------------------------
(* The assembled propulsion architectures: member devices, what drives each  *)
(* of their ports, and which outputs are sums over members.                  *)
(* A wire <<s, p, d, q>>: port q of device d receives port p of device s.    *)
(* "top" is the architecture's own boundary.                                 *)
EXTENDS Integers, Sequences
W(s, p, d, q) == <<s, p, d, q>>
Dev(p, c, o) == [p |-> p, c |-> c, o |-> o]
None == [x \in {} |-> 0]
RATING(k) == "ac|propulsion|" \o k \o "|rating"
DIAM == "ac|propulsion|propeller|diameter"
Eng(p) == Dev(p, "SimpleTurboshaft", [weight_inc |-> "0.00014", weight_base |-> "104"])
Mot(p) == Dev(p, "SimpleMotor", [efficiency |-> "0.97"])
Gen(p) == Dev(p, "SimpleGenerator", [efficiency |-> "0.97"])
Prop(p) == Dev(p, "SimplePropeller", None)
Air(p) == << W("top", "fltcond|rho", p, "fltcond|rho"), W("top", "fltcond|Utrue", p, "fltcond|Utrue") >>
\* a propeller on a driver, with the driver's rating
PropOn(p, d, rating, diam) == << W(d, "shaft_power_out", p, "shaft_power_in"), W("top", rating, p, "power_rating"), W("top", diam, p, "diameter") >> \o Air(p)
Range == << Eng("eng1"), Gen("gen1") >>
RangeWires == << W("top", RATING("engine"), "eng1", "shaft_power_rating"), W("eng1", "shaft_power_out", "gen1", "shaft_power_in") >>
GenRating(r) == << W("top", r, "gen1", "elec_power_rating") >>
BattWires(w) == << W("hybrid_split", "power_out_A", "batt1", "elec_load"), W("top", w, "batt1", "battery_weight") >>
WBATT == "ac|weights|W_battery"
SPECE == "ac|propulsion|battery|specific_energy"

Turboprop == [dev |-> <<Eng("eng1"), Prop("prop1")>>,
    wires |-> PropOn("prop1", "eng1", RATING("engine"), DIAM)
        \o << W("top", "throttle", "eng1", "throttle"), W("top", RATING("engine"), "eng1", "shaft_power_rating"),
              W("eng1", "fuel_flow", "top", "fuel_flow"), W("prop1", "thrust", "top", "thrust") >>,
    sums |-> <<>>, fails |-> <<>>, balance |-> <<>>]
TwinTurboprop == [dev |-> <<Eng("eng1"), Eng("eng2"), Prop("prop1"), Prop("prop2")>>,
    wires |-> PropOn("prop1", "eng1", RATING("engine"), DIAM) \o PropOn("prop2", "eng2", RATING("engine"), DIAM)
        \o << W("top", "throttle", "eng1", "throttle"), W("top", RATING("engine"), "eng1", "shaft_power_rating"), W("top", RATING("engine"), "eng2", "shaft_power_rating") >>,
    sums |-> << <<"fuel_flow", << <<"eng1", "fuel_flow">>, <<"eng2", "fuel_flow">> >> >>,
                <<"thrust", << <<"prop1", "thrust">>, <<"prop2", "thrust">> >> >>,
                <<"engines_weight", << <<"eng1", "component_weight">>, <<"eng2", "component_weight">> >> >>,
                <<"propellers_weight", << <<"prop1", "component_weight">>, <<"prop2", "component_weight">> >> >> >>,
    fails |-> <<"eng2">>, balance |-> <<>>]
Split == Dev("hybrid_split", "PowerSplit", None)
Batt(o) == Dev("batt1", "SimpleBattery", o)
TwinMotors == PropOn("prop1", "motor1", RATING("motor"), DIAM) \o PropOn("prop2", "motor2", RATING("motor"), DIAM)
    \o << W("top", "throttle", "motor1", "throttle"), W("top", RATING("motor"), "motor1", "elec_power_rating"), W("top", RATING("motor"), "motor2", "elec_power_rating") >>
TwinDevs == Range \o <<Mot("motor1"), Mot("motor2"), Prop("prop1"), Prop("prop2"), Split, Batt([efficiency |-> "0.97"])>>
Bus(load, extra) == <<load, << <<"motor1", "elec_load">>, <<"motor2", "elec_load">> >> \o extra>>
TwinSums == << <<"thrust", << <<"prop1", "thrust">>, <<"prop2", "thrust">> >> >>,
               <<"motors_weight", << <<"motor1", "component_weight">>, <<"motor2", "component_weight">> >> >>,
               <<"propellers_weight", << <<"prop1", "component_weight">>, <<"prop2", "component_weight">> >> >> >>
TwinWires(load) == TwinMotors \o RangeWires \o GenRating(RATING("generator")) \o BattWires(WBATT)
    \o << W("top", load, "hybrid_split", "power_in"), W("top", SPECE, "batt1", "specific_energy"),
          W("eng1", "fuel_flow", "top", "fuel_flow"), W("hybrid_split", "power_out_A", "top", "battery_load") >>
GenBalance == << <<"gen1", "elec_power_out", "hybrid_split", "power_out_B">> >>
TwinSeries == [dev |-> TwinDevs, wires |-> TwinWires("motors_elec_load"), sums |-> <<Bus("motors_elec_load", <<>>)>> \o TwinSums,
    fails |-> <<"motor2">>, balance |-> GenBalance]
Series == [dev |-> << Dev("eng1", "SimpleTurboshaft", None), Gen("gen1"), Mot("motor1"), Prop("prop1"), Split, Batt(None) >>,
    wires |-> PropOn("prop1", "motor1", "dv_motor1_rating", "dv_prop1_diameter") \o RangeWires \o GenRating("dv_gen1_rating") \o BattWires("dv_batt1_weight")
        \o << W("top", "throttle", "motor1", "throttle"), W("top", "dv_motor1_rating", "motor1", "elec_power_rating"), W("motor1", "elec_load", "hybrid_split", "power_in"),
              W("eng1", "fuel_flow", "top", "fuel_flow"), W("prop1", "thrust", "top", "thrust") >>,
    sums |-> <<>>, fails |-> <<>>, balance |-> <<>>]
SingleSeries == [dev |-> Range \o <<Mot("motor1"), Prop("prop1"), Split, Batt(None)>>,
    wires |-> PropOn("prop1", "motor1", RATING("motor"), DIAM) \o RangeWires \o GenRating(RATING("generator")) \o BattWires(WBATT)
        \o << W("top", RATING("motor"), "motor1", "elec_power_rating"), W("motor1", "elec_load", "hybrid_split", "power_in"),
              W("eng1", "fuel_flow", "top", "fuel_flow"), W("prop1", "thrust", "top", "thrust"), W("option", "specific_energy", "batt1", "specific_energy"),
              W("motor1", "component_weight", "top", "motors_weight"), W("prop1", "component_weight", "top", "propellers_weight") >>,
    sums |-> <<>>, fails |-> <<>>, balance |-> <<>>]
AllElectric(hx) == [dev |-> << Dev("motor1", "SimpleMotor", [efficiency |-> "0.97", weight_inc |-> "0.0002", weight_base |-> 0]), Prop("prop1"), Batt([efficiency |-> "0.97"]) >>,
    wires |-> PropOn("prop1", "motor1", RATING("motor"), DIAM)
        \o << W("top", "throttle", "motor1", "throttle"), W("top", RATING("motor"), "motor1", "elec_power_rating"), W("motor1", "elec_load", "batt1", "elec_load"),
              W("top", WBATT, "batt1", "battery_weight"), W("option", "specific_energy", "batt1", "specific_energy"), W("prop1", "thrust", "top", "thrust"),
              W("motor1", "heat_out", "motorheatsink", "q_in"), W("motor1", "component_weight", "motorheatsink", "mass"),
              W("motorheatsink", "T_out", hx, "T_in_hot"), W(hx, "T_out_hot", "reservoir", "T_in"), W("reservoir", "T_out", "motorheatsink", "T_in"),
              W("top", "mdot_coolant", "motorheatsink", "mdot_coolant"), W("top", "mdot_coolant", hx, "mdot_hot"), W("top", "mdot_coolant", "reservoir", "mdot_coolant"),
              W("top", "coolant_mass", "reservoir", "mass"), W("top", "rho_coolant", hx, "rho_hot") >>,
    sums |-> <<>>, fails |-> <<>>, balance |-> <<>>]
DuctWires == << W("top", "area_nozzle", "duct", "area_nozzle"), W("top", "fltcond|Utrue", "duct", "fltcond|Utrue"), W("top", "fltcond|rho", "duct", "fltcond|rho"),
                W("top", "fltcond|T", "hx", "T_in_cold"), W("top", "fltcond|rho", "hx", "rho_cold"), W("duct", "mdot", "hx", "mdot_cold"), W("hx", "delta_p_cold", "duct", "delta_p_hex") >>
AllElectricIncomp == LET A == AllElectric("hx") IN [A EXCEPT !.wires = @ \o DuctWires]
AllElectricComp == LET A == AllElectric("duct") IN [A EXCEPT !.wires = @ \o << W("top", "fltcond|p", "duct", "p_inf"), W("top", "fltcond|T", "duct", "T_inf"), W("top", "fltcond|Utrue", "duct", "Utrue") >>]
HX == "ac|propulsion|thermal|hx|"
Channels(d) == << W("top", HX \o "mdot_coolant", d, "mdot_coolant"), W("top", HX \o "channel_width", d, "channel_width"), W("top", HX \o "channel_height", d, "channel_height"),
                  W("top", HX \o "channel_length", d, "channel_length"), W("top", HX \o "n_parallel", d, "n_parallel") >>
NOZ == "ac|propulsion|thermal|duct|area_nozzle"
ThermalSums == << <<"motors_heat", << <<"motor1", "heat_out">>, <<"motor2", "heat_out">> >> >> >>
ThermalWires == Channels("batteryheatsink") \o Channels("motorheatsink") \o Tail(DuctWires)
    \o << W("batt1", "heat_out", "batteryheatsink", "q_in"), W("top", WBATT, "batteryheatsink", "mass"), W("top", "motors_heat", "motorheatsink", "q_in"),
          W("top", "motors_weight", "motorheatsink", "mass"), W("batteryheatsink", "T_out", "motorheatsink", "T_in"), W("top", NOZ, "duct", "area_nozzle"),
          W("top", HX \o "mdot_coolant", "hx", "mdot_hot"), W("top", "rho_coolant", "hx", "rho_hot") >>
Thermal == [dev |-> TwinDevs,
    wires |-> TwinWires("motors_elec_load") \o ThermalWires
        \o << W("motorheatsink", "T_out", "hx", "T_in_hot"), W("hx", "T_out_hot", "reservoir", "T_in"), W("reservoir", "T_out", "batteryheatsink", "T_in"),
              W("top", HX \o "mdot_coolant", "reservoir", "mdot_coolant"), W("top", HX \o "coolant_mass", "reservoir", "mass") >>,
    sums |-> <<Bus("motors_elec_load", <<>>)>> \o TwinSums \o ThermalSums, fails |-> <<"motor2">>, balance |-> GenBalance]
REF == "ac|propulsion|thermal|refrig|"
Refrigerated == [dev |-> TwinDevs,
    wires |-> TwinWires("total_elec_load") \o ThermalWires
        \o << W("motorheatsink", "T_out", "refrig", "T_in_cold"), W("refrig", "T_out_cold", "batteryheatsink", "T_in"), W("refrig", "T_out_hot", "hx", "T_in_hot"),
              W("hx", "T_out_hot", "refrig", "T_in_hot"), W("top", HX \o "mdot_coolant", "refrig", "mdot_coolant"), W("top", REF \o "rating", "refrig", "power_rating"),
              W("top", REF \o "specific_power", "refrig", "specific_power"), W("top", REF \o "eff", "refrig", "eff_factor") >>,
    sums |-> <<Bus("total_elec_load", << <<"refrig", "elec_load">> >>)>> \o TwinSums \o ThermalSums, fails |-> <<"motor2">>, balance |-> GenBalance]
Arch(c) == CASE c = "TurbopropPropulsionSystem" -> Turboprop [] c = "TwinTurbopropPropulsionSystem" -> TwinTurboprop
             [] c = "TwinSeriesHybridElectricPropulsionSystem" -> TwinSeries [] c = "SeriesHybridElectricPropulsionSystem" -> Series
             [] c = "SingleSeriesHybridElectricPropulsionSystem" -> SingleSeries
             [] c = "AllElectricSinglePropulsionSystemWithThermal_Incompressible" -> AllElectricIncomp
             [] c = "AllElectricSinglePropulsionSystemWithThermal_Compressible" -> AllElectricComp
             [] c = "TwinSeriesHybridElectricThermalPropulsionSystem" -> Thermal [] c = "TwinSeriesHybridElectricThermalPropulsionRefrigerated" -> Refrigerated
=============================================================================
