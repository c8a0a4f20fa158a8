"""C20: duct and heat-exchanger parts, whole exchangers in the stream relations of HxMC, and converged ducts with the station settings of DuctMC, decided in DuctTrace."""
import numpy as np
import openmdao.api as om
import laws
import registry as R
from common import *

TRACE = "DuctTrace"
GAS = dict(gamma=(1.25, 1.66))
OPTS = {
    "TemperatureIsentropic": GAS, "TotalTemperatureIsentropic": GAS, "PressureIsentropic": GAS, "TotalPressureIsentropic": GAS, "DensityIdealGas": dict(R=(180, 500)), "SpeedOfSound": dict(gamma=(1.25, 1.66), R=(180, 500)),
    "MachNumberfromSpeed": {}, "HeatAdditionPressureLoss": {}, "MassFlow": {}, "MachNumberDuct": {}, "DuctExitPressureRatioImplicit": {}, "DuctExitMachNumber": GAS, "NetForce": dict(cfg=(0.8, 1)), "NozzlePressureLoss": {}, "Inlet": {}, "DuctStation": {}, "OutletNozzle": {},
    "ExplicitIncompressibleDuct": dict(static_pressure_loss_factor=(0, 0.5), gross_thrust_factor=(0.8, 1)), "OffsetStripFinGeometry": {}, "OffsetStripFinData": {}, "HydraulicDiameterReynoldsNumber": {}, "NusseltFromColburnJ": {}, "ConvectiveCoefficient": {}, "FinEfficiency": {},
    "UAOverall": dict(fouling_factor_cold=(0, 0.01), fouling_factor_hot=(0, 0.01)), "NTUMethod": {}, "CrossFlowNTUEffectiveness": {}, "NTUEffectivenessActualHeatTransfer": {}, "OutletTemperatures": {},
    "PressureDrop": dict(Kc_cold=(0, 1), Ke_cold=(-0.5, 0.5), Kc_hot=(0, 1), Ke_hot=(-0.5, 0.5)),
}


def mc(tier, seed):
    return [dict(module="DuctMC", cfg=f"DuctMC_{tier}.cfg", workers=2), dict(module="HxMC", cfg=f"HxMC_{tier}.cfg", workers=2)]


def preload():
    for n in [*OPTS, "HXGroup", "ImplicitCompressibleDuct", "ImplicitCompressibleDuct_ExternalHX"]:
        R.BY[n].klass()


def jobs(emitted, tier, seed):
    r = rng_of("c20", seed)
    D, H = emitted
    big = tier != "quick"
    out = []
    for k, i in enumerate(r.permutation(len(D))[: 1500 if big else 90]):
        out.append((f"duct-{k}", dict(duct=D[int(i)], own=k % 2, seed=[seed, "d", k])))
    for k in range(4 * len(H) if big else len(H)):
        out.append((f"hx-{k}", dict(hx=H[k % len(H)], seed=[seed, "h", k])))
    for c in OPTS:
        for k in range((8 if R.BY[c].newton else 24) * (20 if big else 1)):
            out.append((f"{c}-{k}", dict(name=c, k=k, seed=[seed, c, k])))
    for n in (n for n in laws.solvers("thermal.ducts")):
        out.append((f"solve-{n}", dict(solve=n, seed=[seed, "s", n])))
    return out


def execute(job, rec):
    if "solve" in job:
        return laws.solves(job["solve"], job["seed"], rec)
    r = rng_of(*job["seed"])
    if "duct" in job:
        return duct(job["duct"], job["own"], r, rec)
    if "hx" in job:
        return hx(job["hx"], job["seed"], r, rec)
    c, e = job["name"], R.BY[job["name"]]
    nn = int(pick(r, [1, 2, 3, 5])) if e.nn else 1
    opts = {o: float(f"{r.uniform(*d):.6g}") for o, d in OPTS[c].items() if r.integers(2)}
    over = {}
    if c in ("HeatAdditionPressureLoss", "DuctStation"):
        over = {"heat_in": lambda r, s: np.where(r.random(s) < 0.2, 0, r.uniform(-3000, 9000, size=s)), "delta_p": lambda r, s: r.uniform(-500, 200, size=s), "pressure_recovery": lambda r, s: r.uniform(0.9, 1, size=s), "dynamic_pressure_loss_factor": float(r.uniform(0, 0.4))}
    if c == "OutletNozzle":
        over = {"p_exit": lambda r, s: r.uniform(4e4, 9e4, size=s), "dynamic_pressure_loss_factor": float(pick(r, [0, r.uniform(0, 0.2)]))}
    if c == "ExplicitIncompressibleDuct":
        over = {"delta_p_hex": lambda r, s: -np.where(r.random(s) < 0.15, r.uniform(1e4, 3e4, size=s), r.uniform(0, 900, size=s))}
    if c == "DuctExitMachNumber":
        over = {"nozzle_pressure_ratio": lambda r, s: r.uniform(0.3, 0.99, size=s)}
    if c in ("NTUMethod", "OutletTemperatures"):
        over = {"mdot_hot": lambda r, s: r.uniform(0.05, 1, size=s), "mdot_cold": lambda r, s: r.uniform(0.1, 3, size=s)}
    laws.session(dict(name=c, nn=nn, seed=job["seed"], variant=0, opts=opts, edge="any" if not e.newton else None), rec, over=over, points=2)


def hx(h, seed, r, rec):
    nn = int(pick(r, [1, 2, 4]))
    cold = r.uniform(0.5, 2, size=nn)
    cp = r.uniform(900, 1100), r.uniform(2500, 4500)
    # first node: the capacities in the ratio of the model
    hot = cold * cp[0] / cp[1] * np.concatenate(([h["ratio"]["h"] / h["ratio"]["c"]], 2 ** r.uniform(-3, 3, size=nn - 1)))
    Tc = r.uniform(270, 300, size=nn)
    dT = np.concatenate(([h["dT"]], pick(r, [1, -1]) * r.uniform(0, 60, size=nn - 1)))
    laws.session(dict(name="HXGroup", nn=nn, seed=seed, variant=0), rec, points=1, over={"mdot_cold": cold, "mdot_hot": hot, "cp_cold": cp[0], "cp_hot": cp[1], "T_in_cold": Tc, "T_in_hot": Tc + dT})


def duct(hist, own, r, rec):
    name = "ImplicitCompressibleDuct" if own else "ImplicitCompressibleDuct_ExternalHX"
    e = R.BY[name]
    for attempt in range(4):
        nn = int(pick(r, [1, 2, 3]))
        st = hist[1:4]
        over = {"totalpressure.eta_ram": r.uniform(0.95, 0.995, size=nn) if hist[0]["eta"] < 100 else 1.0}
        for i, s in enumerate(st, 1):
            u = lambda a, b: r.uniform(a, b, size=nn)
            heat = s["heat"] * u(500, 6000) if s["heat"] > -1 else -u(200, 2000)
            loss = float(r.uniform(0.01, 0.06)) if s["loss"] else 0.0
            over[f"pressure_recovery_{i}"] = u(0.985, 0.999) if s["rec"] < 100 else 1.0
            if i < 3:
                over[f"heat_in_{i}"] = heat
                over[f"delta_p_{i}"] = -u(5, 120) if s["drop"] else 0.0
            elif not own:
                over["sta3.heat_in"] = heat
                over["sta3.delta_p"] = -u(20, 300) if s["drop"] else 0.0
            if i == 1:
                over["loss_factor_1"] = loss
            else:
                over[f"sta{i}.dynamic_pressure_loss_factor"] = loss
        over["nozzle.dynamic_pressure_loss_factor"] = float(r.uniform(0.01, 0.05)) if hist[4]["loss"] else 0.0
        opts = dict(cfg=float(np.round(r.uniform(0.85, 1), 3))) if r.integers(2) else {}
        try:
            b = R.Built(e, nn, opts)
            laws.unset(b, rec)
            x = laws.override(b, b.point(r), over, r)
            b.run(x)
            if not b.converged():
                continue
            d = laws.children(b)
            xs, ys = laws.snapshot(b)
            d["top"] = {**xs, **ys}
            rec("Duct", c=name, o=opts, d=d)
            return
        except Exception as ex:
            if not isinstance(ex, (om.AnalysisError, RuntimeError, ValueError)):
                rec("Exc", what=f"{name}: {exc_text(ex)}")
                return
    rec("Skip", why="no converged point")
