"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["openconcept/" + f for f in files],
            state=[dict(name=a, meaning=b, where="openconcept/" + c) for a, b, c in state],
            mechanism=[dict(name=a, where="openconcept/" + b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Numerical time integration is exact, anchored and independent per state",
  "For any number of states, method, phase duration and number of time nodes, each integrated history starts at the given initial value, its reported final value equals its last node, and its node values are the prescribed fourth-order quadrature (Simpson or BDF3) of its own rate, so polynomial rates within the method's order are integrated exactly. "
  "The three ways of giving the time step (step, duration, start and end time) agree for the same physical time grid, and adding, removing or reordering other states never changes a state's history. "
  "States with different rate units, state units or time units are scaled consistently, and the reported sensitivities are those of the same quadrature.",
  ["inputs", "configurations", "histories"], "every method, node count, time specification, unit choice, start/end-value option and set of states, for all rate histories, durations and initial values",
  "Tests integrate a handful of fixed rates with one or two states; the claim is over all rate histories, state sets and configurations and over re-use of the same component.",
  ["utilities/math/integrals.py"],
  [("Integrator.setup/compute/compute_partials", "utilities/math/integrals.py"), ("bdf3_cache_matrix / simpson cache", "utilities/math/integrals.py")],
  [("cached integration matrices", "operator that maps rates to increments", "utilities/math/integrals.py"), ("self._state_vars", "registered states and options", "utilities/math/integrals.py")],
  ["Integrator outputs and compute_totals through a Problem"])

p("C02", "Phases linked in a trajectory share a continuous state, and only as asked",
  "When two phases are linked, every state the two phases both integrate starts the second phase at exactly the value with which it ended the first, whatever its nesting depth, units, or number of phases in the chain; skipped states and unlinked phases keep their own initial values. "
  "The final value of a state in the last linked phase is therefore its first initial value plus the sum of what every phase in the chain added. "
  "Linking is by the phase objects given and is unaffected by other trajectories built in the same process.",
  ["programs", "configurations", "inputs"], "every trajectory program (any sequence of adding phases and nested models, linking any pairs with any skip list) and all rates, durations and initial values",
  "Tests link two or three fixed phases; the claim quantifies over trajectory programs (link graphs, skip lists, nesting) and over several trajectories in one process.",
  ["mission/mission_groups.py", "utilities/math/integrals.py"],
  [("TrajectoryGroup.link_phases/_link_phases", "mission/mission_groups.py"), ("PhaseGroup state collection", "mission/mission_groups.py")],
  [("trajectory link list", "ordered pairs of phases and skipped states", "mission/mission_groups.py")],
  ["values of <state>_initial and <state>_final of every phase"])

p("C03", "Integrated states declared by metadata are wired to the right rate and clock",
  "Any output declared as a rate to integrate, at any depth inside a phase, yields one state with the requested name, units, default value and bounds, and that state's history is the time integral of that very output over that phase's own duration. "
  "All integrators in one phase share the phase's single duration, and no other phase's duration affects them. "
  "Declarations with contradictory or incomplete metadata are rejected rather than silently mis-wired.",
  ["programs", "configurations", "inputs"], "every tree of groups and components declaring any set of rates with any naming, unit, default and promotion options, for all rates and durations",
  "Tests cover two small hand-written models; the claim ranges over all declaration programs and nesting shapes.",
  ["mission/mission_groups.py"],
  [("IntegratorGroup.configure / _setup_procs", "mission/mission_groups.py"), ("PhaseGroup.configure duration hookup", "mission/mission_groups.py"), ("find_integrators_in_model", "mission/mission_groups.py")],
  [("collected integrator addresses", "which integrators belong to which phase", "mission/mission_groups.py")],
  ["state histories, units and initial values of a Problem built from the declarations"])

p("C04", "A converged mission closes: range, altitude, reserve and fuel conditions hold",
  "In every converged mission the segments are continuous in range, altitude, time and fuel used; climb ends at the cruise altitude, descent ends at the altitude it started from on takeoff or the requested ground elevation, and the distance covered from first to last main-mission segment equals the requested mission range. "
  "When reserves are included the reserve segments together cover the requested reserve range, the reserve climb ends at the reserve altitude and the reserve cruise keeps it, and the loiter lasts the requested time at the loiter altitude (reserve climb and loiter start from altitudes of their own). "
  "At every point the aircraft weight is takeoff weight minus all fuel burned up to that point.",
  ["inputs", "configurations"], "every mission profile type, node count, range, altitude, speed schedule and fuel-burn behaviour for which the solver converges",
  "Tests check a few hundred-digit outputs of four aircraft at one mission each; the closure conditions must hold for all missions and profile options.",
  ["mission/profiles.py", "mission/phases.py", "mission/mission_groups.py"],
  [("BasicMission / FullMissionAnalysis / MissionWithReserve", "mission/profiles.py"), ("ClimbAnglePhase, BFLImplicitSolve and mission closure balances", "mission/profiles.py")],
  (), ["segment histories of range, altitude, time, fuel and weight after run_model"])

p("C05", "Every solved flight segment is in force balance at consistent flight conditions",
  "At every node of a converged climb, cruise, descent, reserve or loiter segment thrust equals drag plus the weight component along the flight path, lift equals the weight component normal to it, and the throttle is the one that produces that thrust. "
  "Horizontal and vertical speed combine to the true airspeed of the specified equivalent or vertical speed schedule, range grows at ground speed and altitude at vertical speed. "
  "In ground-roll and rotation segments the acceleration is the net force over mass including rolling friction or braking.",
  ["inputs", "configurations"], "every segment type, node count, speed and altitude schedule and aircraft model for which the solver converges",
  "Tests only compare end-of-mission numbers of example aircraft; the balance must hold at every node for every aircraft and schedule.",
  ["mission/phases.py", "atmospherics/compute_atmos_props.py"],
  [("SteadyFlightPhase", "mission/phases.py"), ("Groundspeeds / SteadyFlightCL / SteadyVerticalFlightComp", "mission/phases.py"), ("GroundRollPhase / RotationPhase", "mission/phases.py")],
  (), ["per-node segment outputs after run_model"])

p("C06", "Takeoff segments chain into a consistent balanced-field analysis",
  "In a converged takeoff the accelerate, continue, abort and rotation segments share speed, distance and weight at their common points; the engine-failed branch starts at the decision speed, and the abort branch brakes from the decision speed to rest. "
  "When the balanced field is solved, accelerate-stop and accelerate-go distances are equal unless the decision speed is limited by the rotation speed or by its lower limit, and the decision speed always lies within those limits. "
  "Reported climb gradient, transition and 35- or 50-foot-obstacle geometry follow from the same thrust, drag, weight and speeds (the simplified robust rotation is stated for its default 35-foot obstacle).",
  ["inputs", "configurations"], "every takeoff configuration, friction, obstacle height, thrust loss and speed combination; every case of the decision-speed logic",
  "Tests evaluate one aircraft per takeoff type; the decision logic has several limit cases that the nominal aircraft never reach.",
  ["mission/phases.py", "mission/profiles.py"],
  [("BFLImplicitSolve", "mission/phases.py"), ("TakeoffTransition / TakeoffClimb / ClimbAngleComp / StallSpeed / TakeoffPhase wiring", "mission/phases.py")],
  [("v1 decision solution", "decision speed and its limit case", "mission/phases.py")], ["segment histories and takeoff outputs after run_model"])

p("C07", "Element-wise sums are right for any system of sums",
  "For any collection of sums defined in one component (each with its own inputs), each output equals the sum of exactly its own inputs times their own scaling factors, in the sum's units whatever units the inputs were given in, at every node and for vector-valued nodes, with single-node inputs broadcast to all nodes. "
  "Defining, reordering or repeating other sums never changes one sum's result, and the reported sensitivities are exact. "
  "Invalid definitions (mismatched number of scaling factors, duplicate outputs, inconsistent shapes) are rejected.",
  ["programs", "inputs", "configurations"], "every sequence of sum definitions (units, scaling, vector sizes, construction styles), repeated setup, and all input values",
  "Tests instantiate six fixed systems; the definition language is unbounded and includes repeated setup.",
  ["utilities/math/add_subtract_comp.py"], [("AddSubtractComp.add_equation/compute/compute_partials", "utilities/math/add_subtract_comp.py")],
  [("_add_systems", "ordered list of equations", "utilities/math/add_subtract_comp.py")], ["outputs and partials through a Problem"])

p("C08", "Element-wise products and quotients are right for any system of them",
  "For any collection of products and quotients in one component, each output equals its scaling factor times the product of its multiplied inputs over the product of its divided inputs, in the output's declared or derived units, at every node and vector component, with single-node inputs broadcast. "
  "Defining, reordering or repeating other equations never changes one equation's result, and the reported sensitivities are exact. "
  "Invalid definitions are rejected.",
  ["programs", "inputs", "configurations"], "every sequence of equation definitions (which inputs divide, units, scaling, vector sizes, construction styles), repeated setup, and all input values",
  "Tests instantiate a few fixed systems; the definition language is unbounded.",
  ["utilities/math/multiply_divide_comp.py"], [("ElementMultiplyDivideComp.add_equation/compute/compute_partials", "utilities/math/multiply_divide_comp.py")],
  [("_add_systems", "ordered list of equations", "utilities/math/multiply_divide_comp.py")], ["outputs and partials through a Problem"])

p("C09", "Splitting and joining vectors lose, repeat and reorder nothing",
  "Joining vectors places every input's nodes in declaration order into the output, each exactly once, and splitting gives every output its own consecutive block, so that splitting a joined vector (or joining a split one) along the same sizes returns the original values for any number of relations, vector width and unit. "
  "Relations in one component never disturb each other and sensitivities are exact. "
  "Definitions whose sizes or names are inconsistent are rejected.",
  ["programs", "inputs", "configurations"], "every sequence of relation definitions, sizes, widths, units and repeated setup, and all values",
  "Tests use fixed 3- to 5-way splits; the definition language is unbounded.",
  ["utilities/math/combine_split_comp.py"], [("VectorConcatenateComp", "utilities/math/combine_split_comp.py"), ("VectorSplitComp", "utilities/math/combine_split_comp.py")],
  (), ["outputs and partials through a Problem"])

p("C10", "Selection, extrema, interpolation and labelling utilities pick the right data",
  "At every node a selector forwards exactly the option its selector value names, and rejects a selector that names none; the extremum components return the true largest or smallest entry; the linear interpolator passes through both endpoint values and is affine in between. "
  "Relabelled design variables and dictionary-driven inputs carry their value, units and shape through unchanged under every name, including nested names. "
  "The reported sensitivities match the branch actually taken.",
  ["inputs", "configurations"], "every number and naming of options, every selector vector, node count, dictionary nesting, units and all values including ties away from kinks",
  "Tests sample a few selector vectors and dictionaries.",
  ["utilities/selector.py", "utilities/math/max_min_comp.py", "utilities/linearinterp.py", "utilities/dvlabel.py", "utilities/dict_indepvarcomp.py"],
  [("SelectorComp", "utilities/selector.py"), ("MaxComp/MinComp", "utilities/math/max_min_comp.py"), ("LinearInterpolator", "utilities/linearinterp.py"), ("DVLabel", "utilities/dvlabel.py"), ("DictIndepVarComp", "utilities/dict_indepvarcomp.py")],
  (), ["outputs and partials through a Problem"])

p("C11", "Sensitivities reported by every component are the slopes of its outputs",
  "For every model in the library, in every configuration and on every branch of its formulas, the reported sensitivity of each output to each input is the true slope of the output the model itself computes at that input, and an input with no reported sensitivity has no effect on the output. "
  "This holds at whatever point the model was evaluated last, however it got there. "
  "Reported sensitivities are finite wherever the outputs are smooth.",
  ["inputs", "configurations", "histories"], "every library component, option setting, node count and formula branch, and all inputs in the physical domain away from kinks, in any order of evaluations",
  "Tests run partial checks at one default point per component, so branches, options and inputs the default point misses are never differentiated.",
  ["propulsion", "thermal", "weights", "aerodynamics", "atmospherics", "energy_storage", "geometry", "stability", "costs", "utilities", "mission/phases.py"],
  [("every compute_partials / declared constant partials / linearize", "")],
  (), ["compute_totals of a Problem around each component versus differences of run_model"])

p("C12", "Nodes are independent: per-node results do not depend on their neighbours",
  "For every model with a number-of-nodes option that has no time integration, evaluating a vector of operating points gives at each node exactly what evaluating that point alone gives, regardless of order, count or values of the other nodes. "
  "Duplicated nodes give duplicated results and permuted nodes give permuted results. "
  "Scalar design inputs affect all nodes alike. (A linearly time-interpolated bypass is a history over the nodes and is outside this statement.)",
  ["inputs", "configurations"], "every vectorized component or group, option setting and node count, all operating points including ones on different formula branches at different nodes",
  "Tests use nearly uniform vectors at one node count; mixing branches across nodes and comparing node counts is not done.",
  ["propulsion", "thermal", "aerodynamics", "atmospherics", "energy_storage", "mission/phases.py"],
  [("vectorized compute of every component", "")], (), ["outputs of Problems with different node counts"])

p("C13", "Results depend only on current inputs, not on what was evaluated before",
  "For every model in the library the outputs and sensitivities are a function of its current inputs and configuration alone: re-running, evaluating other points in between, requesting sensitivities in any order, setting the problem up again, or creating and running other instances of the same or other configuration in the same process changes nothing. "
  "Evaluating a model never changes its inputs. "
  "Two instances given the same inputs agree. Models closed by a solver agree to the tolerance of their solver.",
  ["histories", "inputs", "configurations"], "every library component and option setting and every sequence of set, run, differentiate, re-setup and other-instance steps",
  "Each test builds a fresh problem and runs it once, so nothing exercises what a second evaluation, re-setup or second instance sees.",
  ["propulsion", "thermal", "weights", "aerodynamics", "atmospherics", "energy_storage", "geometry", "utilities", "mission/phases.py"],
  [("absence of state carried between calls", "")],
  [("instance and class attributes written by compute/setup", "anything cached between evaluations", "atmospherics, utilities, aerodynamics, thermal")],
  ["outputs and totals after every step of a history"])

p("C14", "Trained aerodynamic surrogates always belong to the current geometry",
  "Drag, lift and wave-drag surrogates return, at every training flight condition, the value of the underlying aerodynamic analysis of the geometry and options currently set, however many other geometries were trained before and in what order. "
  "Training data is reused only when every input that determines it is the same, whether reuse happens within one instance or between instances in the same process, and instances with different training grids, mesh sizes or options never see each other's data. "
  "The surrogate's sensitivities belong to the same data as its values.",
  ["histories", "configurations", "inputs"], "every sequence of geometry changes, runs, sensitivity requests and additional surrogate instances with same or different grids and options",
  "Tests build one instance per process and change the geometry at most once.",
  ["aerodynamics/openaerostruct/drag_polar.py", "aerodynamics/openaerostruct/aerostructural.py"],
  [("VLMDataGen / OASDataGen cached training data", "aerodynamics/openaerostruct/drag_polar.py")],
  [("class-level training cache", "last trained inputs and data", "aerodynamics/openaerostruct/drag_polar.py")], ["VLMDragPolar / AerostructDragPolar outputs through a Problem"])

p("C15", "The atmosphere and airspeed relations are the standard ones at every altitude",
  "At every altitude temperature and pressure follow the 1976 standard troposphere and lower-stratosphere laws (joined smoothly within 500 m of the tropopause, plus any temperature increment added to the temperature only), density obeys the ideal gas law and speed of sound the perfect-gas relation. "
  "True and equivalent airspeed are related through the local density ratio and are mutual inverses, Mach is true airspeed over speed of sound and dynamic pressure is half density times true airspeed squared. "
  "Temperature, pressure and density never increase with altitude, and results are smooth through the join.",
  ["inputs"], "all altitudes from below sea level to 20 km, all airspeeds and temperature increments, any node count",
  "Tests compare ten altitudes with tabulated values.",
  ["atmospherics/temperature_comp.py", "atmospherics/pressure_comp.py", "atmospherics/density_comp.py", "atmospherics/speedofsound_comp.py", "atmospherics/true_airspeed.py", "atmospherics/mach_number_comp.py", "atmospherics/dynamic_pressure_comp.py", "atmospherics/compute_atmos_props.py", "atmospherics/atmospherics_data.py"],
  [("TemperatureComp/PressureComp/DensityComp/SpeedOfSoundComp/TrueAirspeedComp/EquivalentAirspeedComp", "atmospherics")], (), ["ComputeAtmosphericProperties outputs"])

p("C16", "Power devices conserve energy and account weight, cost and sizing",
  "At every node each motor, generator, power splitter, turboshaft and battery converts its input power to output power and heat so that input equals output plus heat, with the declared efficiency, in every configuration (a battery reports as heat the lost share of its load). "
  "A splitter sends the commanded share (by fraction, or by fixed power clipped to the available power) to its first output and the rest to its second. "
  "Component weight, cost, fuel flow and sizing margin are the declared linear functions of rating, throttle and power.",
  ["inputs", "configurations"], "every device, split rule, efficiency, rating, throttle and power including clipped cases, any node count",
  "Tests sample one efficiency and a short vector per device; conservation over all rules and clipped cases is not stated.",
  ["propulsion/motor.py", "propulsion/generator.py", "propulsion/splitter.py", "propulsion/turboshaft.py", "energy_storage/battery.py"],
  [("SimpleMotor/SimpleGenerator/PowerSplit/SimpleTurboshaft/SimpleBattery", "propulsion")], (), ["device outputs through a Problem"])

p("C17", "Battery charge bookkeeping follows the drawn energy",
  "A battery's charge fraction starts at its initial value and at every time equals the initial value minus the energy drawn since (including losses as declared) divided by the battery's total energy, whatever the load history, phase split or node count. "
  "Splitting a discharge into several linked phases gives the same final charge as the same discharge in one phase when the integration resolves it exactly. "
  "Charging (negative load) restores charge by the same rule.",
  ["inputs", "histories", "configurations"], "all load histories, battery sizes, efficiencies, initial charges and partitions of the same discharge into phases",
  "Tests discharge one battery with one constant load.",
  ["energy_storage/battery.py", "mission/mission_groups.py", "utilities/math/integrals.py"],
  [("SOCBattery", "energy_storage/battery.py")], (), ["SOC histories through phases"])

p("C18", "Propulsion systems balance shaft, electrical and fuel power across the architecture",
  "In every assembled propulsion architecture total thrust, fuel flow, electrical load and weight are the sums over its member devices with failed propulsors removed, and each propeller receives exactly the shaft power of its motor or turbine. "
  "In the series hybrid the bus power drawn by the motors equals battery plus generator power in the commanded split, and the generator receives the shaft power of its engine. "
  "Propeller thrust, power, advance ratio and tip speed satisfy their defining non-dimensional relations. "
  "At ordinary settings an architecture with internal feedback finds its operating point.",
  ["inputs", "configurations"], "every architecture, number of propellers and engines, throttle, hybridization, failure flag and flight condition",
  "Tests check a few output numbers of each architecture at default settings.",
  ["propulsion/systems/simple_turboprop.py", "propulsion/systems/simple_all_electric.py", "propulsion/systems/simple_series_hybrid.py", "propulsion/systems/thermal_series_hybrid.py", "propulsion/propeller.py"],
  [("TurbopropPropulsionSystem / AllElectric... / SeriesHybrid...", "propulsion/systems"), ("SimplePropeller and its subcomponents", "propulsion/propeller.py")], (), ["architecture outputs through a Problem"])

p("C19", "Thermal networks conserve heat and coolant",
  "In every thermal component heat removed from one side equals heat given to the other or stored, and the coolant leaving equals the coolant entering at the mixed or heated temperature: splitters and combiners conserve mass and enthalpy, lumped masses warm at net heat over heat capacity, and quasi-steady elements balance heat exactly. "
  "Chiller, heat pump, pump, hose and heat pipe outputs obey their declared efficiency, power, pressure-loss and resistance laws, with bypass mixing by the bypass fraction. "
  "Declared weights and limits follow the same inputs, and models with feedback find their operating point at ordinary settings.",
  ["inputs", "configurations"], "every thermal component and option (quasi-steady or time-dependent, fluid, bypass, geometry), all heat loads, flows and temperatures",
  "Tests regress on single default points; conservation is never asserted for all inputs and options.",
  ["thermal/thermal.py", "thermal/manifold.py", "thermal/chiller.py", "thermal/pump.py", "thermal/hose.py", "thermal/heat_pipe.py", "thermal/motor_cooling.py", "thermal/battery_cooling.py"],
  [("every compute in thermal/", "thermal")], (), ["component outputs through a Problem"])

p("C20", "Cooling ducts and heat exchangers satisfy gas dynamics and heat balance",
  "In every converged duct, stagnation and static states, Mach number, area and mass flow satisfy the isentropic and continuity relations at every station, mass flow is the same at all stations, and net force is the momentum and pressure balance between inlet and nozzle. "
  "In a heat exchanger the heat leaving the hot side enters the cold side, never exceeds the effectiveness limit of the smaller capacity stream, and outlet temperatures follow from it. "
  "Pressure drops and weight follow from the given geometry and fluid properties. "
  "Station settings nobody set change nothing (no heat, no loss), and at ordinary settings a solution is found.",
  ["inputs", "configurations"], "all duct and heat exchanger geometries, fluids, mass flows, temperatures and flight conditions for which the solver converges, in every duct type",
  "Tests regress on one or two operating points.",
  ["thermal/ducts.py", "thermal/heat_exchanger.py"],
  [("ImplicitCompressibleDuct / ExplicitIncompressibleDuct and station components", "thermal/ducts.py"), ("HXGroup and its components", "thermal/heat_exchanger.py")], (), ["station outputs through a Problem"])

p("C21", "Hydrogen tank mass is conserved and its structure follows its geometry",
  "The hydrogen in a tank at any time is the initial fill minus what has been drawn, the initial fill is the requested fraction of the tank's internal volume, and total weight is hydrogen plus structure plus insulation. "
  "Tank walls and insulation have the mass of their geometric shells at the thickness that carries the design pressure, for any radius, length and option. "
  "Results are independent of node count.",
  ["inputs", "configurations", "histories"], "all tank geometries, pressures, options, fill levels and fuel-flow histories, including over linked phases",
  "Tests regress on single geometries.",
  ["energy_storage/hydrogen/LH2_tank_no_boil_off.py", "energy_storage/hydrogen/structural.py"],
  [("LH2TankNoBoilOff", "energy_storage/hydrogen/LH2_tank_no_boil_off.py"), ("VacuumTankWeight and pressure vessel components", "energy_storage/hydrogen/structural.py")], (), ["tank outputs through a Problem"])

p("C22", "Empty-weight and cost build-ups are the sums of their documented parts",
  "Aircraft empty weight is the structural fudge factor times the structural components plus the other component groups, each part entering exactly once and equal to the part's own reported weight, in every option setting. "
  "Each part weight follows its documented regression for every input, and operating cost totals are the sums of their documented items. "
  "Changing an input that a part does not depend on leaves that part unchanged.",
  ["inputs", "configurations"], "all design inputs in the regressions' domain and every option of the weight and cost models",
  "Tests check totals at one aircraft each.",
  ["weights/weights_turboprop.py", "weights/weights_jet_transport.py", "weights/weights_BWB.py", "weights/weights_twin_hybrid.py", "costs/costs_commuter.py"],
  [("weight regressions and their summation groups", "weights"), ("OperatingCost / CostsCommuter", "costs/costs_commuter.py")], (), ["part and total weights through a Problem"])

p("C23", "Aerodynamic force models follow their polar, lift and stall definitions",
  "Drag is dynamic pressure times reference area times the polar drag coefficient for every lift coefficient, lift is the same with the lift coefficient, and stall speed is the speed at which maximum lift carries the weight. "
  "Parasite drag build-ups are the sums of their components' friction, form and interference contributions in every configuration (clean or takeoff), and wave drag is zero below and growing above the critical Mach number. "
  "Fractions laminar, flap and slat options act only on what they describe.",
  ["inputs", "configurations"], "all flight conditions, geometries and every option of the drag and lift models",
  "Tests regress on one aircraft per model.",
  ["aerodynamics/aerodynamics.py", "aerodynamics/drag_jet_transport.py", "aerodynamics/drag_BWB.py", "aerodynamics/CL_max_estimation.py", "aerodynamics/openaerostruct/wave_drag.py"],
  [("PolarDrag/Lift/StallSpeed", "aerodynamics/aerodynamics.py"), ("ParasiteDrag_JetTransport", "aerodynamics/drag_jet_transport.py")], (), ["outputs through a Problem"])

p("C24", "Planform geometry and generated meshes describe the same wing",
  "For every planform definition the generated mesh has the requested area, span, taper, sweep, section chords and thicknesses, nodes in order from tip to root and leading to trailing edge without crossing or duplicates, and the mean aerodynamic chord, span, area, chord and tail-volume relations of the planform components hold exactly. "
  "Mesh node counts change only the resolution, not the planform. "
  "Section thickness and other section data are interpolated between the sections that bound each station.",
  ["inputs", "configurations"], "all planform parameters, numbers of sections and panels, and all generators",
  "Tests check a few meshes.",
  ["aerodynamics/openaerostruct/mesh_gen.py", "geometry/wing_planform.py", "stability/tail_volume_coefficient_sizing.py"],
  [("TrapezoidalPlanformMesh / SectionPlanformMesh / ThicknessChordRatioInterp / SectionLinearInterp", "aerodynamics/openaerostruct/mesh_gen.py"), ("WingMACTrapezoidal / WingSpan / WingSections", "geometry/wing_planform.py")], (), ["mesh and planform outputs through a Problem"])

p("C25", "Finite-difference time derivatives are exact for low-order polynomials",
  "The derivative component returns, for every quantity, segment list and spacing, the exact time derivative of any polynomial up to the stencil's order at every node including ends and segment joins, and never uses data across a segment boundary. "
  "Quantities are differentiated independently with the right units, and sensitivities are those of the same linear map. "
  "Unsupported orders or sizes are rejected.",
  ["inputs", "configurations"], "every order, node count, segment list, quantity set, unit choice and all values and spacings",
  "Tests check two polynomials in a few configurations.",
  ["utilities/math/derivatives.py"], [("FirstDerivative", "utilities/math/derivatives.py")], (), ["outputs and partials through a Problem"])

p("C26", "Engine decks and rubberized engines scale thrust and fuel flow alike",
  "A rubberized engine at rated thrust R times the baseline gives thrust and fuel flow R times the baseline engine's at the same throttle and flight condition, at every node; burning hydrogen leaves thrust and fuel energy flow as they were. "
  "Deck engines hold exactly the converged runs of their tables, reproduce them at the tabulated points to surrogate accuracy, and report every quantity in its declared units. "
  "Hybrid and non-hybrid engine options expose the same flight-condition interface.",
  ["inputs", "configurations"], "every engine option, throttle, flight condition and rating, node by node, in any order of changes",
  "Tests compare single points.",
  ["propulsion/cfm56.py", "propulsion/N3.py", "propulsion/rubberized_turbofan.py"],
  [("CFM56 / N3 / RubberizedTurbofan", "propulsion")], (), ["engine outputs through a Problem"])

p("C27", "Plots show the recorded histories and wing loads, all of them and in place",
  "A trajectory plot shows for every requested variable the histories of all requested phases in order, in the requested units, against the requested abscissa; a grid of plots gives every variable a panel of its own for every layout, number of variables, phases and cases, labels it, and saves every page once under its own number. "
  "A wing plot shows both halves of the mesh, and force contours show panel force per panel area averaged to the nodes, on the side of the wing asked for. "
  "Impossible choices are refused and the data plotted is left unchanged.",
  ["inputs", "configurations"], "every layout, number of variables, phases, cases and node counts, label and saving choice; every mesh size and planform",
  "No test draws anything.",
  ["utilities/visualization.py"],
  [("plot_trajectory / plot_trajectory_grid / plot_OAS_mesh / plot_OAS_force_contours", "utilities/visualization.py")], (), ["lines, labels, pages and contour data handed to matplotlib"])

p("C28", "Design sensitivities of a solved mission are the slopes of its results",
  "The total derivatives of a converged mission - fuel, ranges, times, speeds, altitudes, throttle and decision speed of every segment with respect to weights, areas, altitudes, ranges, speed schedules and controls - equal the change of the re-converged results, whichever way the derivatives are propagated and after any change of design. "
  "A design variable that belongs to a later or separate segment is not felt in segments it does not feed. "
  "Asking for sensitivities moves no result.",
  ["inputs", "configurations", "histories"], "every mission profile, takeoff method, aircraft, node count, integrator arrangement and design variable",
  "Tests check partial derivatives of single components at single points; no test compares total derivatives across linked, solver-closed segments with re-converged missions.",
  ["mission/mission_groups.py", "mission/phases.py", "mission/profiles.py", "utilities/math/integrals.py"],
  [("BasicMission / FullMissionAnalysis / ... profiles", "mission/profiles.py"), ("phase balances and integrators", "mission/phases.py"), ("TrajectoryGroup links", "mission/mission_groups.py")], (), ["compute_totals of a mission Problem"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
