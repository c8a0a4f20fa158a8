"""C17: discharge programs from BatteryMC flown with real batteries in linked and unlinked phases, decided in BatteryTrace."""
import numpy as np
import openmdao.api as om
from common import *
from traj import solve

TRACE = "BatteryTrace"


def mc(tier, seed):
    return [dict(module="BatteryMC", cfg=f"BatteryMC_{tier}.cfg")]


def preload():
    import openconcept.energy_storage, openconcept.mission  # noqa


def jobs(emitted, tier, seed):
    r = rng_of("c17", seed)
    H = emitted[0]
    n = 12000 if tier != "quick" else 600
    return [(f"batt-{k}", dict(prog=H[int(i)], kind=["free", "poly"][k % 2], seed=[seed, "b", k])) for k, i in enumerate(r.permutation(len(H))[:n])]


def execute(job, rec):
    try:
        run(job, rec)
    except Exception as ex:
        rec("Exc", what=exc_text(ex))


def build(phases, opts, depth, others, r):
    from openconcept.energy_storage import SOCBattery
    from openconcept.mission import PhaseGroup, TrajectoryGroup

    class Phase(PhaseGroup):
        def setup(self):
            nn = self.options["num_nodes"]
            iv = self.add_subsystem("iv", om.IndepVarComp("duration", 10.0, units="s"), promotes_outputs=["*"])
            iv.add_output("load", np.ones(nn), units="W")
            iv.add_output("weight", 100.0, units="kg")
            g = self
            for k in range(depth):
                g = g.add_subsystem(["propmodel", "elec"][k], om.Group())
            pre = ".".join(["propmodel", "elec"][:depth])
            pre = pre + "." if pre else ""
            names = ["batt1"] + (["batt10"] if others else [])
            for m in names:
                g.add_subsystem(m, SOCBattery(num_nodes=nn, **opts))
                self.connect("weight", pre + m + ".battery_weight")
            self.connect("load", pre + "batt1.elec_load")

    class Traj(TrajectoryGroup):
        def setup(self):
            ph = [self.add_subsystem(f"p{k}" if k else "phase", Phase(num_nodes=f["nn"])) for k, f in enumerate(phases)]
            for k, f in enumerate(phases):
                if f["link"]:
                    self.link_phases(ph[k - 1], ph[k])

    p = om.Problem(Traj(), reports=None)
    if r.integers(2):
        solve(p, r)
    p.setup(check=False, mode=pick(r, ["fwd", "rev"]))
    return p, (["", "propmodel.", "propmodel.elec."][depth]) + "batt1."


def run(job, rec):
    r = rng_of(*job["seed"])
    prog = job["prog"]
    poly = job["kind"] == "poly"
    phases = [dict(link=bool(f["link"]) or (poly and k > 0), nn=int(pick(r, [3, 3, 5, 7, 11]))) for k, f in enumerate(prog)]
    opts = {}
    if r.integers(3):
        opts["efficiency"] = float(np.round(r.uniform(0.7, 1), 4))
    if r.integers(3) == 0:
        opts["specific_energy"] = float(np.round(r.uniform(150, 500), 2))
    depth = int(r.integers(3))
    p, pre = build(phases, opts, depth, r.integers(2), r)
    name = [f"p{k}" if k else "phase" for k in range(len(phases))]
    full = r.integers(3) == 0
    for rep in range(2):
        W = float(r.uniform(20, 2000))
        se_over = float(r.uniform(100, 600)) if r.integers(2) else None
        se = (se_over if se_over else opts.get("specific_energy", 300.0)) * 3600
        if rep and not se_over:
            se_over = se / 3600
        scale = W * se / (300 * len(phases)) * float(r.choice([0.01, 0.3, 1.0]))
        durs = [float(r.uniform(20, 600)) for _ in phases]
        C = [float(v) for v in r.normal(size=int(r.integers(1, 5)))] if poly else []
        T = sum(durs)
        C = [c * scale / T**i for i, c in enumerate(C)]
        # a battery nobody charged otherwise starts full
        soc0 = [1.0 if rep == 0 and full else float(np.round(r.uniform(0.1, 1), 4)) for _ in phases]
        loads = []
        for k, f in enumerate(phases):
            if poly:
                t = sum(durs[:k]) + np.linspace(0, durs[k], f["nn"])
                loads.append(sum(c * t**i for i, c in enumerate(C)))
            else:
                st = prog[k]["steps"]
                loads.append(np.array([st[int(i * len(st) / f["nn"])] * r.uniform(0.2, 1) * scale for i in range(f["nn"])]))
        for k, f in enumerate(phases):
            a = name[k] + "."
            u = pick(r, ["s", "min", "h"])
            p.set_val(a + "duration", om.convert_units(durs[k], "s", u), units=u)
            u = pick(r, ["W", "kW", "hp"])
            p.set_val(a + "load", om.convert_units(loads[k], "W", u), units=u)
            u = pick(r, ["kg", "lb"])
            p.set_val(a + "weight", om.convert_units(W, "kg", u), units=u)
            if se_over:
                p.set_val(a + pre + "specific_energy", se_over, units="W*h/kg")
            if not f["link"] and not (rep == 0 and full):
                p.set_val(a + pre + "SOC_initial", soc0[k])
        p.run_model()
        g = lambda k, n, u=None: np.array(p.get_val(name[k] + "." + pre + n, units=u))
        rec("Run", weight=W, senergy=se, eff=opts.get("efficiency", 1.0), poly=C,
            phases=[dict(link=f["link"], soc0=soc0[k], dur=durs[k], load=loads[k], soc=g(k, "SOC"), socf=g(k, "SOC_final")[0], maxe=g(k, "max_energy", "J")[0], heat=g(k, "heat_out", "W")) for k, f in enumerate(phases)])
