----------------------------- MODULE WeightBook -----------------------------
(* The build-ups of empty weight and operating cost: which reported items    *)
(* each total adds up, and which inputs each item depends on.                *)
EXTENDS TLC
LOCAL WingTP == {"ac|weights|MTOW", "ac|weights|W_fuel_max", "ac|geom|wing|S_ref", "ac|geom|wing|AR", "ac|geom|wing|c4sweep", "ac|geom|wing|taper", "ac|geom|wing|toverc", "ac|q_cruise"}
LOCAL Small == [W_wing |-> WingTP,
    W_empennage |-> {"ac|geom|hstab|S_ref", "ac|geom|vstab|S_ref"},
    W_fuselage |-> {"ac|weights|MTOW", "ac|geom|fuselage|length", "ac|geom|fuselage|height", "ac|geom|fuselage|width", "ac|geom|fuselage|S_wet", "ac|geom|hstab|c4_to_wing_c4", "ac|q_cruise"},
    W_nacelle |-> {"P_TO"},
    W_gear |-> {"ac|weights|MLW", "ac|geom|maingear|length", "ac|geom|nosegear|length"},
    W_fuelsystem |-> {"ac|weights|W_fuel_max"},
    W_equipment |-> {"ac|weights|MTOW", "ac|num_passengers_max", "ac|geom|fuselage|length", "ac|geom|wing|AR", "ac|geom|wing|S_ref", "ac|weights|W_fuel_max"},
    W_engine |-> {"W_engine"}, W_propeller |-> {"W_propeller"}, W_fluids |-> {}]
LOCAL Engines == {"ac|propulsion|engine|rating", "ac|propulsion|num_engines"}
LOCAL People == {"ac|num_flight_deck_crew", "ac|num_cabin_crew", "ac|num_passengers_max"}
LOCAL Fuel == {"ac|weights|W_fuel_max", "ac|propulsion|num_engines", "ac|aero|Mach_max"}
LOCAL Avi == {"ac|num_flight_deck_crew", "ac|weights|MTOW", "ac|propulsion|num_engines"}
LOCAL Transport == [W_wing |-> {"ac|weights|MTOW", "ac|geom|wing|S_ref", "ac|geom|wing|AR", "ac|geom|wing|c4sweep", "ac|geom|wing|taper", "ac|geom|wing|toverc"},
    W_mlg |-> {"ac|weights|MLW", "ac|geom|maingear|length", "ac|geom|maingear|num_wheels", "ac|geom|maingear|num_shock_struts", "ac|aero|Vstall_land"},
    W_nlg |-> {"ac|weights|MLW", "ac|geom|nosegear|length", "ac|geom|nosegear|num_wheels"},
    W_nacelle |-> Engines, W_engines |-> Engines, W_thrust_rev |-> Engines, W_eng_control |-> Engines, W_eng_start |-> Engines,
    W_fuelsystem |-> Fuel,
    W_furnishings |-> {"ac|num_passengers_max", "ac|num_flight_deck_crew", "ac|num_cabin_crew", "ac|cabin_pressure", "ac|weights|MTOW"},
    W_flight_controls |-> {"ac|weights|MTOW"}, W_avionics |-> Avi, W_electrical |-> Avi \cup Fuel,
    W_oxygen |-> People, W_APU |-> {"ac|weights|MTOW"}]
LOCAL Jet == [W_hstab |-> {"ac|weights|MTOW", "ac|geom|hstab|S_ref", "ac|geom|hstab|AR", "ac|geom|hstab|c4sweep", "ac|geom|hstab|c4_to_wing_c4", "ac|geom|fuselage|height"},
    W_vstab |-> {"ac|weights|MTOW", "ac|geom|vstab|S_ref", "ac|geom|vstab|AR", "ac|geom|vstab|c4sweep", "ac|geom|vstab|toverc", "ac|geom|vstab|c4_to_wing_c4"},
    W_fuselage |-> {"ac|weights|MTOW", "ac|geom|fuselage|length", "ac|geom|fuselage|S_wet", "ac|geom|fuselage|height", "ac|geom|wing|taper", "ac|geom|wing|S_ref", "ac|geom|wing|AR", "ac|geom|wing|c4sweep"},
    W_ac_pressurize_antiice |-> People \cup {"ac|geom|fuselage|height", "ac|geom|fuselage|length"}] @@ Transport
LOCAL Blended == [W_cabin |-> {"ac|geom|centerbody|S_cabin", "ac|weights|MTOW"},
    W_aftbody |-> {"ac|geom|centerbody|S_aftbody", "ac|geom|centerbody|taper_aftbody", "ac|propulsion|num_engines", "ac|weights|MTOW"},
    W_ac_pressurize_antiice |-> People \cup {"ac|geom|V_pressurized"}] @@ Transport
LOCAL Cost == [airframe_NR_cost |-> {"OEW", "component_1_weight", "component_2_weight"},
    total_NR_cost |-> {"OEW", "component_1_weight", "component_2_weight", "component_1_NR_cost", "component_2_NR_cost"},
    fuel_cost |-> {"fuel_burn"}, electricity_cost |-> {"battery_1_energy_used"}, trip_battery_cost |-> {"battery_1_NR_cost"},
    trip_energy_cost |-> {"fuel_burn", "battery_1_energy_used"}]
Deps(c) == CASE c = "SingleTurboPropEmptyWeight" -> Small
             [] c = "TwinSeriesHybridEmptyWeight" -> [W_motors |-> {"W_motors"}, W_generator |-> {"W_generator"}] @@ Small
             [] c = "JetTransportEmptyWeight" -> Jet
             [] c = "BWBEmptyWeight" -> Blended
             [] c = "TurbopropOperatingCost" -> Cost
\* what the structural fudge factor applies to
Structural(c) == CASE c \in {"SingleTurboPropEmptyWeight", "TwinSeriesHybridEmptyWeight"} -> {"W_wing", "W_fuselage", "W_nacelle", "W_empennage", "W_gear"}
                   [] c = "JetTransportEmptyWeight" -> {"W_wing", "W_hstab", "W_vstab", "W_fuselage", "W_mlg", "W_nlg", "W_nacelle"}
                   [] c = "BWBEmptyWeight" -> {"W_wing", "W_cabin", "W_aftbody", "W_mlg", "W_nlg", "W_nacelle"}
                   [] c = "TurbopropOperatingCost" -> {"airframe_NR_cost"}
Families == {"SingleTurboPropEmptyWeight", "TwinSeriesHybridEmptyWeight", "JetTransportEmptyWeight", "BWBEmptyWeight", "TurbopropOperatingCost"}
Parts(c) == DOMAIN Deps(c)
Inputs(c) == UNION {Deps(c)[p] : p \in Parts(c)}
Others(c) == Parts(c) \ Structural(c)
=============================================================================
