"""C19: every thermal component at random settings, and the coolant networks of ThermalMC built of them, decided in ThermalTrace."""
import numpy as np
import openmdao.api as om
import laws
import registry as R
from common import *

TRACE = "ThermalTrace"
# numeric options that may be set (low, high); booleans are variants of the registry
OPTS = dict(
    PerfectHeatTransferComp=dict(specific_heat=(1500, 4500)), ThermalComponentWithMass=dict(specific_heat=(300, 1500)),
    ConstantSurfaceTemperatureColdPlate_NTU=dict(specific_heat=(1500, 4500), fluid_k=(0.2, 0.7), nusselt=(4, 9), fluid_rho=(800, 1100)),
    LiquidCooledComp=dict(specific_heat_object=(300, 1500), specific_heat_coolant=(1500, 4500)), CoolantReservoirRate={}, CoolantReservoir={}, FlowSplit={}, FlowCombine={},
    COPExplicit={}, COPHeatPump={}, HeatPumpWeight={}, LinearSelector={}, HeatPumpWithIntegratedCoolantLoop=dict(specific_heat=(1500, 4500)),
    BandolierCoolingSystem=dict(coolant_specific_heat=(1500, 4500), fluid_k=(0.2, 0.7), nusselt=(4, 9), cell_kr=(0.1, 0.6), cell_diameter=(0.015, 0.03), cell_height=(0.05, 0.09), cell_mass=(0.04, 0.1), cell_specific_heat=(600, 1200), battery_weight_fraction=(0.4, 0.9)),
    MotorCoolingJacket=dict(coolant_specific_heat=(1500, 4500), case_cooling_coefficient=(700, 1500), case_area_coefficient=(4e5, 9e5), motor_specific_heat=(500, 1200)),
    LiquidCooledMotor=dict(coolant_specific_heat=(1500, 4500), case_cooling_coefficient=(700, 1500), motor_specific_heat=(500, 1200)),
    SimplePump=dict(efficiency=(0.2, 0.8), weight_base=(0, 20), weight_inc=(0.001, 0.01)), SimpleHose=dict(hose_operating_stress=(1e6, 4e6), hose_density=(900, 1800)),
    AmmoniaProperties={}, HeatPipeWeight=dict(yield_stress=(200, 800), rho_wall=(1800, 8000), stress_safety_factor=(1.5, 6)),
    HeatPipeThermalResistance=dict(length_evap=(0.1, 0.6), length_cond=(0.1, 0.6), wall_conduct=(80, 400), wick_conduct=(1, 9)),
    HeatPipeVaporTempDrop=dict(latent_heat=(1e6, 2e6), visc_base=(5e-6, 2e-5), visc_inc=(2e-8, 8e-8)),
    QMaxAnalyticalPart=dict(theta=(0, 60), latent_heat=(1e6, 2e6), surface_tension_base=(0.02, 0.04), surface_tension_incr=(-2.9e-4, -1e-4)),
    QMaxHeatPipe=dict(theta=(0, 60), yield_stress=(200, 800), rho_wall=(1800, 8000), stress_safety_factor=(1.5, 6)),
    HeatPipe=dict(theta=(0, 30), length_evap=(0.1, 0.6), length_cond=(0.1, 0.6), wall_conduct=(80, 400), wick_conduct=(1, 9), yield_stress=(200, 800), rho_wall=(1800, 8000), stress_safety_factor=(1.5, 6)),
)
OPTS["LiquidCooledBattery"] = OPTS["BandolierCoolingSystem"]
AMMONIA = [*range(-75, 55, 5), 60, 70, 80, 90, 100]


def mc(tier, seed):
    return [dict(module="ThermalMC", cfg=f"ThermalMC_{tier}.cfg")]


def preload():
    for n in OPTS:
        R.BY[n].klass()


def jobs(emitted, tier, seed):
    r = rng_of("c19", seed)
    H = emitted[0]
    out = []
    for k, i in enumerate(r.permutation(len(H))[: 8000 if tier != "quick" else 300]):
        out.append((f"net-{k}", dict(net=H[int(i)], seed=[seed, "n", k])))
    for c in OPTS:
        n = (10 if R.BY[c].newton else 40) * (20 if tier != "quick" else 1)
        for k in range(n):
            out.append((f"{c}-{k}", dict(name=c, k=k, seed=[seed, c, k])))
    for n in (n for n in laws.solvers("thermal") if R.BY[n].mod != "thermal.ducts"):
        out.append((f"solve-{n}", dict(solve=n, seed=[seed, "s", n])))
    return out


def execute(job, rec):
    if "solve" in job:
        return laws.solves(job["solve"], job["seed"], rec)
    r = rng_of(*job["seed"])
    if "net" in job:
        return net(job["net"], r, rec)
    c, e = job["name"], R.BY[job["name"]]
    nn = int(pick(r, [3, 5])) if e.integ else int(pick(r, [1, 2, 3, 5])) if not e.big else int(pick(r, [1, 3]))
    opts = {o: float(f"{r.uniform(*d):.6g}") for o, d in OPTS[c].items() if r.integers(2)}
    if c == "SimplePump" and "weight_inc" in opts and r.integers(2):
        opts.pop("weight_inc")
    over = {}
    if c in ("LiquidCooledBattery", "LiquidCooledMotor", "LiquidCooledComp", "CoolantReservoir") and r.integers(2):
        over = {"mdot_coolant": lambda r, s: r.uniform(0.5, 3, size=s)}
    if c == "COPExplicit":
        over = {"T_h": lambda r, s: r.uniform(260, 380, size=s)}
    if c == "FlowSplit":
        over = {"mdot_split_fraction": lambda r, s: np.where(r.random(s) < 0.3, np.round(r.random(s)), r.random(s))}
    if c in ("HeatPumpWithIntegratedCoolantLoop", "LinearSelector"):
        over = {"bypass": lambda r, s: np.where(r.random(s) < 0.3, np.round(r.random(s)), r.random(s))}
    if c == "HeatPumpWithIntegratedCoolantLoop":
        over["mdot_coolant"] = lambda r, s: np.full(s, r.uniform(0.3, 3)) * r.uniform(0.8, 1.2, size=s)
        over["power_rating"] = lambda r, s: r.uniform(500, 6000, size=s)
    at = {}
    if c == "AmmoniaProperties" and job["k"] % 2:
        at["i"] = r.integers(len(AMMONIA), size=nn)
        over = {"temp": np.array([AMMONIA[int(i)] for i in at["i"]]) + 273.15}
    ev = rec
    if at:
        ev = lambda n, **d: rec(n, **(dict(d, i=at["i"].tolist()) if n == "Eval" else d))
    if c in ("HeatPipe", "QMaxHeatPipe"):
        ev = lambda n, **d: rec(n, **(dict(d, now=ammonia(d["x"]["T_evap" if c == "HeatPipe" else "temp"]), design=ammonia(d["x"]["T_design" if c == "HeatPipe" else "design_temp"])) if n == "Eval" else d))
    laws.session(dict(name=c, nn=nn, seed=job["seed"], variant=job["k"] % len(e.opts), opts=opts, edge="any" if not e.newton and c != "AmmoniaProperties" else None), ev, over=over, points=1 if at else 2)


def ammonia(T):
    """ammonia properties at temperatures (K) from the property component"""
    from openconcept.thermal.heat_pipe import AmmoniaProperties

    p = om.Problem(AmmoniaProperties(num_nodes=len(T)), reports=None)
    p.setup(check=False)
    p.set_val("temp", np.array(T) - 273.15, units="degC")
    p.run_model()
    return {k: np.array(p.get_val(k, units=u)).tolist() for k, u in (("rho_liquid", "kg/m**3"), ("rho_vapor", "kg/m**3"), ("vapor_pressure", "Pa"))}


def net(prog, r, rec):
    """the coolant network of a ThermalMC program"""
    from openconcept.thermal import (BandolierCoolingSystem, ConstantSurfaceTemperatureColdPlate_NTU, FlowCombine, FlowSplit, MotorCoolingJacket, PerfectHeatTransferComp)

    nn = int(pick(r, [1, 2, 4]))
    cp = float(np.round(r.uniform(1500, 4500))) if r.integers(2) else 3801.0
    try:
        p = om.Problem(reports=None)
        iv = p.model.add_subsystem("iv", om.IndepVarComp())
        iv.add_output("m", r.uniform(0.3, 3, size=nn), units="kg/s")
        iv.add_output("T", r.uniform(280, 320, size=nn), units="degK")
        streams = [("iv.m", "iv.T")]
        heats, sets = [], []
        for k, o in enumerate(prog):
            n = f"e{k}"
            i = o["i"] - 1
            if o["op"] == "heat":
                m, T = streams.pop(i)
                kind = int(r.integers(4))
                if kind == 0:
                    p.model.add_subsystem(n, PerfectHeatTransferComp(num_nodes=nn, specific_heat=cp))
                    q = "q"
                    sets.append((n + ".q", r.uniform(50, 400, size=nn) * o["q"], "W"))
                elif kind == 1:
                    p.model.add_subsystem(n, ConstantSurfaceTemperatureColdPlate_NTU(num_nodes=nn, specific_heat=cp))
                    q = "q"
                    sets += [(n + ".T_surface", r.uniform(330, 380, size=nn), "degK"), (n + ".n_parallel", r.uniform(20, 90), None), (n + ".channel_length", r.uniform(0.1, 0.5), "m"), (n + ".channel_width", r.uniform(0.8, 2), "mm"), (n + ".channel_height", r.uniform(10, 30), "mm")]
                elif kind == 2:
                    p.model.add_subsystem(n, BandolierCoolingSystem(num_nodes=nn, coolant_specific_heat=cp, exclude_tags=True))
                    q = "q"
                    sets += [(n + ".T_battery", r.uniform(320, 350, size=nn), "degK"), (n + ".q_in", r.uniform(100, 9000, size=nn), "W"), (n + ".battery_weight", r.uniform(50, 900), "kg"), (n + ".n_cpb", r.uniform(40, 120), None), (n + ".t_channel", r.uniform(0.4, 2), "mm")]
                else:
                    p.model.add_subsystem(n, MotorCoolingJacket(num_nodes=nn, coolant_specific_heat=cp, exclude_tags=True))
                    q = "q"
                    sets += [(n + ".T", r.uniform(330, 390, size=nn), "degK"), (n + ".q_in", r.uniform(100, 9000, size=nn), "W"), (n + ".power_rating", r.uniform(1e5, 9e5), "W"), (n + ".motor_weight", r.uniform(30, 200), "kg")]
                p.model.connect(m, n + ".mdot_coolant")
                p.model.connect(T, n + ".T_in")
                heats.append(n + "." + q)
                streams.append((m, n + ".T_out"))
            elif o["op"] == "split":
                m, T = streams.pop(i)
                p.model.add_subsystem(n, FlowSplit(num_nodes=nn))
                p.model.connect(m, n + ".mdot_in")
                sets.append((n + ".mdot_split_fraction", np.clip(o["q"] / 100 + r.uniform(-0.2, 0.2, size=nn), 0.02, 0.98), None))
                streams += [(n + ".mdot_out_A", T), (n + ".mdot_out_B", T)]
            else:
                b = streams.pop(o["q"] - 1)
                a = streams.pop(i)
                p.model.add_subsystem(n, FlowCombine(num_nodes=nn))
                for s, (m, T) in (("A", a), ("B", b)):
                    p.model.connect(m, f"{n}.mdot_in_{s}")
                    p.model.connect(T, f"{n}.T_in_{s}")
                streams.append((n + ".mdot_out", n + ".T_out"))
        p.setup(check=False)
        for n, v, u in sets:
            p.set_val(n, v, units=u)
        p.run_model()
        g = lambda n, u: np.array(p.get_val(n, units=u)).tolist()
        rec("Net", cp=cp, m=g("iv.m", "kg/s"), T=g("iv.T", "degK"), out=[dict(m=g(m, "kg/s"), T=g(T, "degK")) for m, T in streams], q=[g(h, "W") for h in heats])
    except Exception as ex:
        rec("Exc", what="coolant network: " + exc_text(ex))
