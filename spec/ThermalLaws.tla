----------------------------- MODULE ThermalLaws -----------------------------
(* Thermal components: heat taken from one side is given to the other or     *)
(* stored, coolant is conserved, and the declared efficiency, resistance,    *)
(* pressure-loss and weight laws hold.                                       *)
EXTENDS LawLib, Quadrature
LOCAL At == "1e-9"
Cp(e) == Opt(e, "specific_heat", 3801)
\* heat carried away by a coolant stream
Carried(mdot, cp, tin, tout) == (mdot ** cp) ** (tout -- tin)
\* heat balances: relative to the enthalpy flow, which is what limits their accuracy
HeatNear(act, exp, scale, clause) == NearN(act, exp, "1e-8", "1e-11" ** FMaxOf(<<1, FMaxOf(FAbs(scale))>>), clause)
\* stored heat: lumped mass
Stores(e, m, c, qin, qout, clause) == NearN((m ** c) ** Y(e, "dTdt"), qin -- qout, "1e-8", "1e-7" , clause)
\* a temperature history is the integral of the rate that the heat balance gives
HistLaw(e, T, ini, rate) == LET n == Len(Y(e, T)) IN
    NearN(Y(e, T) -- X(e, ini), Hist("simpson", "0", rate, X(e, "duration") // (n - 1)), "1e-6", "1e-6", "temperature history integrates net heat over heat capacity from the initial temperature")

Perfect(e) == HeatNear(Carried(X(e, "mdot_coolant"), Cp(e), X(e, "T_in"), Y(e, "T_out")), X(e, "q"), X(e, "mdot_coolant") ** Cp(e) ** X(e, "T_in"), "coolant carries away exactly the heat given to it")
           \o Near(Y(e, "T_average"), "0.5" ** (X(e, "T_in") ++ Y(e, "T_out")), R9, 0, "average coolant temperature")
WithMass(e) == Stores(e, X(e, "mass"), Opt(e, "specific_heat", 921), X(e, "q_in"), X(e, "q_out"), "a lumped mass warms at net heat over heat capacity")
\* constant-temperature channel: hydraulic-diameter Nusselt correlation, one-stream effectiveness
PlateNTU(e, w, h, L, n, mdot, cp) ==
    LET area == 2 ** ((w ++ h) ** (L ** n))
        dh == (2 ** (w ** h)) // (w ++ h)
        coef == (Opt(e, "nusselt", "7.54") ** Opt(e, "fluid_k", "0.405")) // dh
    IN (area ** coef) // (mdot ** cp)
Eff1(ntu) == 1 -- FExp(FNeg(ntu))
PlateHeat(e, Ts, cp) == (Eff1(PlateNTU(e, X(e, "channel_width"), X(e, "channel_height"), X(e, "channel_length"), X(e, "n_parallel"), X(e, "mdot_coolant"), cp))
                          ** (X(e, "mdot_coolant") ** cp)) ** (Ts -- X(e, "T_in"))
Plate(e) == LET cp == Cp(e) IN
       NearN(Y(e, "q"), PlateHeat(e, X(e, "T_surface"), cp), "1e-8", "1e-8", "cold plate heat follows its effectiveness")
    \o HeatNear(Carried(X(e, "mdot_coolant"), cp, X(e, "T_in"), Y(e, "T_out")), Y(e, "q"), X(e, "mdot_coolant") ** cp ** X(e, "T_in"), "coolant carries away the heat the plate gives")
\* heat-producing part on a cold plate
CooledComp(e) ==
    LET cp == Opt(e, "specific_heat_coolant", 3801)
        q == Carried(X(e, "mdot_coolant"), cp, X(e, "T_in"), Y(e, "T_out"))
        flow == X(e, "mdot_coolant") ** cp ** X(e, "T_in")
    IN HeatNear(q, PlateHeat(e, Y(e, "T"), cp), flow, "heat leaves the part as its cold plate allows")
       \o (IF Opt(e, "quasi_steady", FALSE) THEN NearN(q, X(e, "q_in"), "1e-6", "1e-11" ** FMaxOf(FAbs(flow)), "a quasi-steady part gives the coolant all its heat")
          ELSE HistLaw(e, "T", "T_initial", (X(e, "q_in") -- q) // (X(e, "mass") ** Opt(e, "specific_heat_object", 921))))
ReservoirRate(e) == Near(Y(e, "dTdt"), (X(e, "mdot_coolant") ** (X(e, "T_in") -- X(e, "T_out"))) // X(e, "mass"), "1e-9", "1e-10", "a reservoir warms by the enthalpy of the stream through it")
Reservoir(e) == HistLaw(e, "T_out", "T_initial", (X(e, "mdot_coolant") ** (X(e, "T_in") -- Y(e, "T_out"))) // X(e, "mass"))
Split(e) == Near(Y(e, "mdot_out_A"), X(e, "mdot_in") ** X(e, "mdot_split_fraction"), R9, "1e-13", "the splitter sends the commanded share of the flow")
         \o NearN(Y(e, "mdot_out_A") ++ Y(e, "mdot_out_B"), X(e, "mdot_in"), "1e-12", "1e-14", "splitting conserves coolant")
Combine(e) == NearN(Y(e, "mdot_out"), X(e, "mdot_in_A") ++ X(e, "mdot_in_B"), "1e-12", "1e-14", "combining conserves coolant")
           \o NearN(Y(e, "mdot_out") ** Y(e, "T_out"), (X(e, "mdot_in_A") ** X(e, "T_in_A")) ++ (X(e, "mdot_in_B") ** X(e, "T_in_B")), "1e-11", "1e-12", "combining conserves enthalpy")
\* ---- refrigeration
SoftCOP(eta, tc, th) ==
    LET d == th -- tc
        a == (((tc // d) ** FTanh(d)) ** eta) ++ (5 ** (1 -- FTanh(d ++ 3)))
        wa == FExp("-1.5" ** a)
        wb == FExp("-15")
    IN ((a ** wa) ++ (10 ** wb)) // (wa ++ wb)
COP(e) == NearN(Y(e, "COP"), SoftCOP(X(e, "eff_factor"), X(e, "T_c"), X(e, "T_h")), "1e-9", "1e-12", "coefficient of performance is the capped Carnot share")
Pump2(e) == Near(FNeg(Y(e, "q_in_1")), X(e, "COP") ** X(e, "power_rating"), R9, 0, "heat taken from the cold side is COP times work")
         \o NearN(Y(e, "q_in_1") ++ Y(e, "q_in_2"), X(e, "power_rating"), "1e-9", "1e-9", "heat given to the hot side is heat taken plus work")
PumpWeight(e) == Near(Y(e, "component_weight"), X(e, "power_rating") // X(e, "specific_power"), R9, 0, "heat pump weight is power over specific power")
Bypassed(e, b, tc, th, ref, clause) ==
       NearN(Y(e, "T_out_cold"), (b ** X(e, "T_in_hot")) ++ ((1 -- b) ** tc), R9, 0, "cold outlet mixes by the bypass")
    \o NearN(Y(e, "T_out_hot"), (b ** X(e, "T_in_cold")) ++ ((1 -- b) ** th), R9, 0, "hot outlet mixes by the bypass")
    \o NearN(Y(e, "elec_load"), ((1 -- b) ** X(e, "power_rating")) // "0.95", R9, "1e-9", "refrigeration power is the share not bypassed")
Selector2(e) == Bypassed(e, X(e, "bypass"), X(e, "T_out_refrig_cold"), X(e, "T_out_refrig_hot"), 0, "")
Chiller(e) ==
    LET n == Len(X(e, "T_in_hot"))
        b == IF Opt(e, "nonlinear_bypass_control", FALSE) THEN X(e, "bypass") ELSE FLinspace(X(e, "control.bypass_start")[1], X(e, "control.bypass_end")[1], n)
        flow == X(e, "mdot_coolant") ** Cp(e)
        P == X(e, "power_rating")
        th == X(e, "T_in_hot") ++ ((P ** (Y(e, "COP") ++ 1)) // flow)
        tc == X(e, "T_in_cold") -- ((P ** Y(e, "COP")) // flow)
    IN Bypassed(e, b, tc, th, 0, "")
    \o NearN(Y(e, "COP"), SoftCOP(X(e, "eff_factor"), tc, th), "1e-5", "1e-8", "coefficient of performance is the capped Carnot share")
    \o HeatNear(flow ** ((Y(e, "T_out_hot") ++ Y(e, "T_out_cold")) -- (X(e, "T_in_hot") ++ X(e, "T_in_cold"))), (1 -- b) ** P, flow ** X(e, "T_in_hot"), "the chiller adds to its streams exactly its work")
    \o PumpWeight(e)
\* ---- battery ribbon and motor jacket
\* heat that stays: as a reported rate, as a history, or none at all
Stored(e, T, cap, net, flow, clause) ==
    IF T \in DOMAIN e.x \/ Has(e.x, "T_battery") THEN NearN(cap ** Y(e, "dTdt"), net, "1e-8", "1e-10" ** FMaxOf(FAbs(flow)), clause)
    ELSE IF Opt(e, "quasi_steady", FALSE) THEN NearN(net, 0, 0, "1e-7" ** FMaxOf(FAbs(X(e, "q_in"))), "quasi-steady: nothing is stored")
    ELSE HistLaw(e, T, "T_initial", net // cap)
Ribbon(e, Tb) ==
    LET D(n, v) == Opt(e, n, v)
        cells == (X(e, "battery_weight") ** D("battery_weight_fraction", "0.65")) // D("cell_mass", "0.07")
        ribs == cells // (2 ** X(e, "n_cpb"))
        m1 == X(e, "mdot_coolant") // ribs
        cp == D("coolant_specific_heat", 3801)
        h == (D("nusselt", "7.54") ** D("fluid_k", "0.405")) // (2 ** X(e, "t_channel"))
        area == (2 ** D("cell_height", "0.07")) ** (X(e, "n_cpb") ** D("cell_diameter", "0.021"))
        K1 == ((m1 ** cp) ** Eff1((h ** area) // (m1 ** cp))) // (2 ** X(e, "n_cpb"))    \* coolant side, per cell
        K2 == (8 ** Pi) ** (D("cell_height", "0.07") ** D("cell_kr", "0.3"))               \* inside a cell
        q == (K1 ** K2) // (K1 ++ K2)
        flow == X(e, "mdot_coolant") ** cp ** X(e, "T_in")
        out == Carried(X(e, "mdot_coolant"), cp, X(e, "T_in"), Y(e, "T_out"))
    IN HeatNear(out, cells ** (q ** (Tb -- X(e, "T_in"))), flow, "battery heat crosses cells and channel in series")
    \o Stored(e, "T", (cells ** D("cell_mass", "0.07")) ** D("cell_specific_heat", 875), X(e, "q_in") -- out, flow, "the battery warms at net heat over the heat capacity of its cells")
    \o HeatNear(cells ** (K2 ** (Tb -- Y(e, "T_surface"))), out, flow, "heat reaching the cell surface is heat carried away")
    \o NearN(Y(e, "T_core") -- Tb, Tb -- Y(e, "T_surface"), "1e-8", "1e-9", "core is as far above the mean as the surface is below")
Bandolier(e) == Ribbon(e, X(e, "T_battery"))
             \o HeatNear(Y(e, "q"), Carried(X(e, "mdot_coolant"), Opt(e, "coolant_specific_heat", 3801), X(e, "T_in"), Y(e, "T_out")), X(e, "mdot_coolant") ** 3801 ** X(e, "T_in"), "reported battery heat is what the coolant carries away")
CooledBattery(e) == Ribbon(e, Y(e, "T"))
Jacket(e, T) ==
    LET cp == Opt(e, "coolant_specific_heat", 3801)
        ua == (Opt(e, "case_cooling_coefficient", 1100) // Opt(e, "case_area_coefficient", 650000)) ** X(e, "power_rating")
        C == X(e, "mdot_coolant") ** cp
        out == Carried(X(e, "mdot_coolant"), cp, X(e, "T_in"), Y(e, "T_out"))
    IN HeatNear(out, (C ** Eff1(ua // C)) ** (T -- X(e, "T_in")), C ** X(e, "T_in"), "motor heat follows the jacket's effectiveness")
    \o Stored(e, "T", X(e, "motor_weight") ** Opt(e, "motor_specific_heat", 921), X(e, "q_in") -- out, C ** X(e, "T_in"), "the motor warms at net heat over its heat capacity")
MotorJacket(e) == Jacket(e, X(e, "T")) \o HeatNear(Y(e, "q"), Carried(X(e, "mdot_coolant"), Opt(e, "coolant_specific_heat", 3801), X(e, "T_in"), Y(e, "T_out")), X(e, "mdot_coolant") ** 3801 ** X(e, "T_in"), "reported motor heat is what the coolant carries away")
CooledMotor(e) == Jacket(e, Y(e, "T"))
\* ---- pump and hose
Pump(e) == LET P == ((X(e, "mdot_coolant") // X(e, "rho_coolant")) ** X(e, "delta_p")) // Opt(e, "efficiency", "0.35") IN
           Near(Y(e, "elec_load"), P, R9, 0, "pump power is volume flow times pressure rise over efficiency")
        \o Near(Y(e, "component_sizing_margin"), P // X(e, "power_rating"), R9, 0, "pump margin is power over rated power")
        \o Near(Y(e, "component_weight"), Lin(e, "weight", X(e, "power_rating"), 1 // 450, 0), R9, 0, "pump weight is linear in the rating")
Blasius(re) == "0.3164" // FPow(re, "0.25")
\* smooth pipe: Darcy-Weisbach with Blasius friction, from mass flow
PipeLoss(mdot, rho, mu, d, L) == LET A == (Pi // 4) ** (d ** d)
                                     U == mdot // (rho ** A)
                                 IN (Blasius((rho ** U ** d) // mu) ** (L // d)) ** ("0.5" ** (rho ** U ** U))
Hose(e) == LET d == X(e, "hose_diameter")
               L == X(e, "hose_length")
               t == (d ** X(e, "hose_design_pressure")) // (2 ** Opt(e, "hose_operating_stress", 2070000))
               wall == (Pi ** t) ** (d ++ t)
           IN Near(Y(e, "delta_p"), PipeLoss(X(e, "mdot_coolant"), X(e, "rho_coolant"), X(e, "mu_coolant"), d, L), "1e-8", 0, "hose pressure loss is the smooth-pipe loss")
           \o Near(Y(e, "component_weight"), L ** ((wall ** Opt(e, "hose_density", "1356.3")) ++ (((Pi // 4) ** (d ** d)) ** X(e, "rho_coolant")[1])), R9, 0, "hose weight is its wall at hoop stress plus the coolant inside")
\* ---- ammonia heat pipe
AmT == <<"-75.0", "-70.0", "-65.0", "-60.0", "-55.0", "-50.0", "-45.0", "-40.0", "-35.0", "-30.0", "-25.0", "-20.0", "-15.0", "-10.0", "-5.0", "0.0", "5.0", "10.0", "15.0", "20.0", "25.0", "30.0", "35.0", "40.0", "45.0", "50.0", "60.0", "70.0", "80.0", "90.0", "100.0">>
AmL == <<"730.94", "725.27", "719.53", "713.78", "707.91", "702.0", "696.04", "689.99", "683.85", "677.64", "671.37", "665.03", "658.54", "651.98", "645.33", "638.57", "631.67", "624.69", "617.55", "610.28", "602.85", "595.24", "588.16", "579.48", "571.3", "562.87", "545.23", "526.32", "505.71", "482.9", "456.93">>
AmV == <<"0.078241", "0.11141", "0.15552", "0.21321", "0.28596", "0.38158", "0.4994", "0.64508", "0.82318", "1.0386", "1.2969", "1.6039", "1.9659", "2.3874", "2.8827", "3.4528", "4.1086", "4.8593", "5.7153", "6.6876", "7.7882", "9.031", "10.431", "12.006", "13.775", "15.761", "20.5", "26.5", "34.1", "43.9", "56.8">>
AmP == <<"7930.0", "10920.0", "15610.0", "21900.0", "30160.0", "40870.0", "54540.0", "71770.0", "93190.0", "119600.0", "151600.0", "190200.0", "236300.0", "290800.0", "354800.0", "429400.0", "515700.00000000006", "614900.0", "728300.0", "857100.0", "1003000.0", "1166000.0", "1350000.0", "1554000.0", "1781000.0", "2032000.0", "2613000.0", "3312000.0", "4144000.0", "5123000.0", "6264000.0">>
Celsius(t) == t -- "273.15"
\* at tabulated temperatures e.i (index list) the properties are the tabulated ones
Between(e, n, tab) == Near(Y(e, n), FInterp(Celsius(X(e, "temp")), AmT, tab), "0.03", 0, "between tabulated temperatures the property follows its neighbours")
Ammonia(e) == IF ~Has(e, "i") THEN Between(e, "rho_liquid", AmL) \o Between(e, "rho_vapor", AmV) \o Between(e, "vapor_pressure", AmP) ELSE
       Near(Y(e, "rho_liquid"), [k \in 1..Len(e.i) |-> AmL[e.i[k] + 1]], "1e-9", 0, "liquid density is the tabulated one at tabulated temperatures")
    \o Near(Y(e, "rho_vapor"), [k \in 1..Len(e.i) |-> AmV[e.i[k] + 1]], "1e-9", 0, "vapor density is the tabulated one at tabulated temperatures")
    \o Near(Y(e, "vapor_pressure"), [k \in 1..Len(e.i) |-> AmP[e.i[k] + 1]], "1e-9", 0, "vapor pressure is the tabulated one at tabulated temperatures")
Latent == "1371200"
PipeWall(e, p, D) == ((p ** D) ** Opt(e, "stress_safety_factor", 4)) // (Opt(e, "yield_stress", 572) ** 1000000)
PipeMass(e, p, D, L) == ((Pi ** D) ** PipeWall(e, p, D)) ** (L ** Opt(e, "rho_wall", 2810))
PipeWeight(e) == Near(Y(e, "wall_thickness"), PipeWall(e, X(e, "design_pressure"), X(e, "inner_diam")), R9, 0, "wall thickness carries the design pressure")
              \o Near(Y(e, "heat_pipe_weight"), PipeMass(e, X(e, "design_pressure"), X(e, "inner_diam"), X(e, "length")), R9, 0, "heat pipe weight is its wall")
Radial(e, D, t) == LET w == Opt(e, "wick_thickness", 0)
                       wall == FLog(((D ++ (2 ** t)) // D)) // Opt(e, "wall_conduct", 196)
                       wick == FLog((D // (D -- (2 ** w)))) // Opt(e, "wick_conduct", 4)
                   IN ((wall ++ wick) // (2 ** Pi)) ** ((1 // Opt(e, "length_evap", "0.25")) ++ (1 // Opt(e, "length_cond", "0.25")))
Resistance(e) == Near(Y(e, "thermal_resistance"), Radial(e, X(e, "inner_diam"), X(e, "wall_thickness")) ++ (IF Opt(e, "vapor_resistance", FALSE) THEN X(e, "delta_T") // X(e, "q") ELSE 0),
                      R9, 0, "heat pipe resistance is wall and wick at both ends plus the vapor")
VaporDrop(e, q, T, rho, p, D, L) == LET dp == PipeLoss(q // Opt(e, "latent_heat", Latent), rho, Opt(e, "visc_base", "9e-6") ++ (Opt(e, "visc_inc", "4e-8") ** Celsius(T)), D, L) IN ("35.976" // p) ** dp
DropLaw(e) == Near(Y(e, "delta_T"), VaporDrop(e, X(e, "q"), X(e, "temp"), X(e, "rho_vapor"), X(e, "vapor_pressure"), X(e, "inner_diam"), X(e, "length")), "1e-8", 0, "vapor temperature drop follows its pressure loss")
QMax(e, D, T, rl, rv) ==
    LET sig == Opt(e, "surface_tension_base", "0.026") ++ (Opt(e, "surface_tension_incr", "-2.3e-4") ** Celsius(T))
        bond == D ** FSqrt((Grav ** (rl -- rv)) // sig)
        k == FPow((rl // rv), "0.14") ** FPow(FTanh(FPow(bond, "0.25")), 2)
        tilt == FCos((Opt(e, "theta", 0) ** Pi) // 180)
        g == FPow((((Grav ** tilt) ** sig) ** (rl -- rv)), "0.25")
    IN ((k ** ((Pi // 4) ** (D ** D))) ** (Opt(e, "latent_heat", Latent) ** g)) // FPow(FPow(rl, "-0.25") ++ FPow(rv, "-0.25"), 2)
QMaxPart(e) == Near(Y(e, "q_max"), QMax(e, X(e, "inner_diam"), X(e, "temp"), X(e, "rho_liquid"), X(e, "rho_vapor")), "1e-8", 0, "heat pipe limit is the flooding limit")
\* e.now, e.design: ammonia properties at the operating and design temperatures, from the property component
QMaxPipe(e) == Near(Y(e, "q_max"), QMax(e, X(e, "inner_diam"), X(e, "temp"), e.now.rho_liquid, e.now.rho_vapor), "1e-8", 0, "heat pipe limit is the flooding limit")
            \o Near(Y(e, "heat_pipe_weight"), PipeMass(e, e.design.vapor_pressure, X(e, "inner_diam"), X(e, "length")), "1e-8", 0, "heat pipe weight is its wall")
            \o Near(Y(e, "wall_thickness"), PipeWall(e, e.design.vapor_pressure, X(e, "inner_diam")), "1e-8", 0, "wall thickness carries the design pressure")
            \o Near(Y(e, "design_pressure"), e.design.vapor_pressure, "1e-9", 0, "design pressure is the vapor pressure at the design temperature")
HeatPipe(e) ==
    LET n == X(e, "n_pipes")
        q1 == X(e, "q") // n
        D == X(e, "inner_diam")
        p == e.design.vapor_pressure
        drop == VaporDrop(e, q1, X(e, "T_evap"), e.now.rho_vapor, e.now.vapor_pressure, D, X(e, "length"))
    IN NearN(X(e, "T_evap") -- Y(e, "T_cond"), (q1 ** Radial(e, D, PipeWall(e, p, D))) ++ drop, "1e-8", "1e-9", "temperature drop is heat per pipe times its resistance")
    \o Near(Y(e, "weight"), n ** PipeMass(e, p, D, X(e, "length")), "1e-8", 0, "heat pipe weight is its wall, for every pipe")
    \o Near(Y(e, "q_max"), n ** QMax(e, D, X(e, "T_evap"), e.now.rho_liquid, e.now.rho_vapor), "1e-8", 0, "heat pipe limit is the flooding limit, for every pipe")
ThermalLaw(e) == CASE e.c = "PerfectHeatTransferComp" -> Perfect(e) [] e.c = "ThermalComponentWithMass" -> WithMass(e)
    [] e.c = "ConstantSurfaceTemperatureColdPlate_NTU" -> Plate(e) [] e.c = "LiquidCooledComp" -> CooledComp(e)
    [] e.c = "CoolantReservoirRate" -> ReservoirRate(e) [] e.c = "CoolantReservoir" -> Reservoir(e)
    [] e.c = "FlowSplit" -> Split(e) [] e.c = "FlowCombine" -> Combine(e) [] e.c = "COPExplicit" -> COP(e) [] e.c = "COPHeatPump" -> Pump2(e)
    [] e.c = "HeatPumpWeight" -> PumpWeight(e) [] e.c = "LinearSelector" -> Selector2(e) [] e.c = "HeatPumpWithIntegratedCoolantLoop" -> Chiller(e)
    [] e.c = "BandolierCoolingSystem" -> Bandolier(e) [] e.c = "LiquidCooledBattery" -> CooledBattery(e) [] e.c = "MotorCoolingJacket" -> MotorJacket(e)
    [] e.c = "LiquidCooledMotor" -> CooledMotor(e) [] e.c = "SimplePump" -> Pump(e) [] e.c = "SimpleHose" -> Hose(e)
    [] e.c = "AmmoniaProperties" -> Ammonia(e) [] e.c = "HeatPipeWeight" -> PipeWeight(e) [] e.c = "HeatPipeThermalResistance" -> Resistance(e)
    [] e.c = "HeatPipeVaporTempDrop" -> DropLaw(e) [] e.c = "QMaxAnalyticalPart" -> QMaxPart(e) [] e.c = "QMaxHeatPipe" -> QMaxPipe(e) [] e.c = "HeatPipe" -> HeatPipe(e)
=============================================================================
