"""C21: hydrogen tank parts at random settings, and TankMC's missions flown with real tanks in linked and unlinked phases, decided in TankTrace."""
import numpy as np
import openmdao.api as om
import laws
import registry as R
from common import *
from traj import solve

TRACE = "TankTrace"
WALL = dict(weight_fudge_factor=(1, 1.6), stiffening_multiplier=(0.4, 1), inner_safety_factor=(1.1, 3), inner_yield_stress=(2e8, 6e8), inner_density=(1500, 8000), outer_safety_factor=(1.2, 4), outer_youngs_modulus=(4e10, 2.2e11), outer_density=(1500, 8000))
FILL = dict(fill_level_init=(0.1, 1), LH2_density=(60, 80))
OPTS = dict(
    PressureVesselWallThickness=dict(safety_factor=(1.1, 4), yield_stress=(1e8, 7e8), density=(1500, 8000)),
    VacuumWallThickness=dict(safety_factor=(1.1, 4), youngs_modulus=(4e10, 2.2e11), density=(1500, 8000), stiffening_multiplier=(0.4, 1)),
    MLIWeight=dict(foil_layer_areal_weight=(0.005, 0.05), spacer_layer_areal_weight=(0.005, 0.05)),
    VacuumTankWeight=WALL, InitialLH2MassModification=FILL,
)


def mc(tier, seed):
    return [dict(module="TankMC", cfg=f"TankMC_{tier}.cfg", workers=4)]


def preload():
    import openconcept.mission  # noqa

    for n in OPTS:
        R.BY[n].klass()
    R.BY["LH2TankNoBoilOff"].klass()


def jobs(emitted, tier, seed):
    r = rng_of("c21", seed)
    H = emitted[0]
    big = tier != "quick"
    out = [(f"tank-{k}", dict(prog=H[int(i)], poly=k % 2, seed=[seed, "t", k])) for k, i in enumerate(r.permutation(len(H))[: 10000 if big else 400])]
    for c in OPTS:
        for k in range(800 if big else 60):
            out.append((f"{c}-{k}", dict(name=c, k=k, seed=[seed, c, k])))
    return out


def dims(r, s=()):
    return dict(radius=r.uniform(0.2, 4, size=s), length=r.uniform(0.1, 12, size=s) * (r.integers(5) > 0), vacuum_gap=float(pick(r, [0.05, 0.0, r.uniform(0.01, 0.3)])))


def draw(r, d):
    return {o: float(f"{r.uniform(*b):.6g}") for o, b in d.items() if r.integers(2)}


def execute(job, rec):
    r = rng_of(*job["seed"])
    try:
        if "prog" in job:
            return run(job, r, rec)
    except Exception as ex:
        return rec("Exc", what=exc_text(ex))
    c, e = job["name"], R.BY[job["name"]]
    d = dims(r)
    d["delta_m_liq"] = lambda r, s: r.uniform(-20, 400, size=s)
    d["N_layers"] = lambda r, s: r.uniform(5, 60, size=s)
    for p in ("design_pressure_differential", "max_expected_operating_pressure", "environment_design_pressure"):
        d[p] = lambda r, s: np.exp(r.uniform(np.log(3e4), np.log(2e6), size=s))
    laws.session(dict(name=c, nn=int(pick(r, [1, 2, 3, 5])), seed=job["seed"], opts=draw(r, OPTS[c])), rec, over=d, points=3)


def run(job, r, rec):
    from openconcept.energy_storage import LH2TankNoBoilOff
    from openconcept.mission import PhaseGroup, TrajectoryGroup

    prog, poly = job["prog"], job["poly"]
    phases = [dict(link=bool(f["link"]) or (bool(poly) and k > 0), nn=int(pick(r, [1, 3, 3, 5, 7, 11]) if not poly else pick(r, [3, 5, 9]))) for k, f in enumerate(prog)]
    opts = draw(r, dict(WALL, **FILL))
    depth, others, port = int(r.integers(3)), int(r.integers(2)), int(r.integers(2))

    class Phase(PhaseGroup):
        def setup(self):
            nn = self.options["num_nodes"]
            iv = self.add_subsystem("iv", om.IndepVarComp("duration", 10.0, units="s"), promotes_outputs=["*"])
            iv.add_output("flow", np.ones(nn), units="kg/s")
            g = self
            for k in range(depth):
                g = g.add_subsystem(["fuel", "store"][k], om.Group())
            pre = "".join(n + "." for n in ["fuel", "store"][:depth])
            for m in ["tank"] + (["tank_aft"] if others else []):
                g.add_subsystem(m, LH2TankNoBoilOff(num_nodes=nn, **opts))
            self.connect("flow", pre + "tank.m_dot_liq")

    class Traj(TrajectoryGroup):
        def setup(self):
            ph = [self.add_subsystem(f"p{k}", Phase(num_nodes=f["nn"])) for k, f in enumerate(phases)]
            for k, f in enumerate(phases):
                if f["link"]:
                    self.link_phases(ph[k - 1], ph[k])

    p = om.Problem(Traj(), reports=None)
    if r.integers(2):
        solve(p, r)
    p.setup(check=False, mode=pick(r, ["fwd", "rev"]))
    pre = ["", "fuel.", "fuel.store."][depth] + "tank."
    for rep in range(2):
        # one tank flies the linked phases, so its dimensions are the same in them
        D = None
        durs = [float(r.uniform(20, 4000)) for _ in phases]
        T = sum(durs)
        scale = float(pick(r, [0.002, 0.05, 0.5]))
        C = [float(c) * scale / T**i for i, c in enumerate(r.normal(size=int(r.integers(1, 5))))] if poly else []
        ph = []
        for k, f in enumerate(phases):
            if not f["link"] or D is None:
                D = dims(r)
                D.update(N_layers=float(r.uniform(5, 60)), max_expected_operating_pressure=float(np.exp(r.uniform(11, 14))), environment_design_pressure=float(np.exp(r.uniform(10.5, 12.5))))
            if poly:
                t = sum(durs[:k]) + np.linspace(0, durs[k], f["nn"])
                rate = sum(c * t**i for i, c in enumerate(C))
            else:
                st = prog[k]["steps"]
                rate = np.array([st[int(i * len(st) / f["nn"])] * r.uniform(0.2, 1) * scale for i in range(f["nn"])], float)
            a = f"p{k}."
            for n, units in (("radius", ["m", "ft"]), ("length", ["m", "ft", "inch"]), ("vacuum_gap", ["m", "cm"]), ("N_layers", [None]), ("max_expected_operating_pressure", ["Pa", "bar"]), ("environment_design_pressure", ["Pa", "atm"])):
                u = pick(r, units)
                p.set_val(a + pre + n, om.convert_units(D[n], units[0], u) if u else D[n], units=u)
            u = pick(r, ["s", "min", "h"])
            # the tank's duration is the phase's
            p.set_val(a + "duration", om.convert_units(durs[k], "s", u), units=u)
            u = pick(r, ["kg/s", "lb/h"])
            p.set_val(a + "flow", om.convert_units(rate, "kg/s", u), units=u)
            ph.append(dict(link=f["link"], dur=durs[k], rate=rate, x={n: float(v) for n, v in D.items()}, o=opts))
        p.run_model()
        for k, f in enumerate(ph):
            g = lambda n, u=None: np.array(p.get_val(f"p{k}.{pre}{n}", units=u))
            f.update(m_liq=g("m_liq", "kg"), fill=g("fill_level"), tank=g("tank_weight", "kg")[0], total=g("total_weight", "kg"))
        rec("Run", poly=C, phases=ph)
