"""C18: every assembled architecture under the throttle, failure and split patterns of ArchMC, decided in ArchTrace."""
import numpy as np
import openmdao.api as om
import laws
import registry as R
from common import *

TRACE = "ArchTrace"
SOLVED = [e.cls for e in R.ENTRIES if e.big and "propulsion.systems" in e.mod]
LIMIT = 700


def mc(tier, seed):
    return [dict(module="ArchMC", cfg=f"ArchMC_{tier}.cfg", workers=2)]


def jobs(emitted, tier, seed):
    r = rng_of("c18", seed)
    H = emitted[0]
    by = {}
    for h in H:
        by.setdefault(h["arch"], []).append(h)
    out = []
    for a, hs in by.items():
        n = (8 if a in SOLVED else 40) * (20 if tier != "quick" else 1)
        for k in range(n):
            h = hs[k % len(hs)] if k >= len(hs) else hs[int(r.integers(len(hs)))]
            out.append((f"{a.replace('PropulsionSystem', '').replace('Propulsion', '')}-{k}", dict(h, seed=[seed, a, k])))
    for k in range(60 if tier == "quick" else 1500):
        out.append((f"prop-{k}", dict(prop=int(pick(r, [3, 4, 4])), seed=[seed, "p", k])))
    for k in range(12 if tier == "quick" else 200):
        out.append((f"map-{k}", dict(map=3 + k % 2, seed=[seed, "m", k])))
    for n in (n for n in laws.solvers("propulsion")):
        out.append((f"solve-{n}", dict(solve=n, seed=[seed, "s", n])))
    # the long solves first
    return sorted(out, key=lambda s: s[1].get("arch") not in SOLVED)


def execute(job, rec):
    if "solve" in job:
        return laws.solves(job["solve"], job["seed"], rec)
    r = rng_of(*job["seed"])
    if "prop" in job:
        nn = int(pick(r, [1, 2, 5, 7]))
        laws.session(dict(name="SimplePropeller", nn=nn, seed=job["seed"], opts=dict(num_blades=job["prop"])), rec, points=2,
                     over={"fltcond|Utrue": lambda r, s: np.where(r.random(s) < 0.5, r.uniform(0, 30, size=s), r.uniform(40, 150, size=s)), "diameter": lambda r, s: r.uniform(1.5, 4, size=s)})
        return
    if "map" in job:
        return maps(job["map"], r, rec)
    e = R.BY[job["arch"]]
    nn = int(pick(r, [3, 5])) if e.integ or e.big else int(pick(r, [1, 2, 3, 5]))
    if e.big:
        nn = 3
    lo = 0.35 if e.big else 0.0

    def vary(v, lim=1.3):
        """mostly the scenario's own value at the first node, spread over the others"""
        a = np.clip(v / 100 + np.concatenate(([0.0], r.uniform(-0.3, 0.3, size=nn - 1))), lo, lim)
        return r.permutation(a) if r.integers(2) else a

    opts = dict(e.opts[0])
    if "specific_energy" in e.fixed:
        opts["specific_energy"] = float(np.round(r.uniform(200, 600)))
    for attempt in range(4 if e.newton else 1):
        try:
            b = R.Built(e, nn, opts)
            laws.unset(b, rec)
            x = b.point(r, None)
            over = {"throttle": vary(job["thr"]), "eng1.throttle": vary(job["thr"]), "motor1.throttle": vary(job["thr"]),
                    "propulsor_active": np.clip(vary(job["act"]), 0, 1) if r.integers(3) else float(job["act"] / 100), "power_split_fraction": np.clip(vary(job["share"], 1.0), 0, 1)}
            if e.big:
                over["propulsor_active"] = max(job["act"] / 100, 0.0)
            x = laws.override(b, x, over, r)
            if "specific_energy" in opts:
                x["c.batt1.specific_energy"] = b.inputs["c.batt1.specific_energy"]["default"]
            b.run(x)
            if not b.converged():
                continue
            d = laws.children(b)
            xs, ys = laws.snapshot(b)
            d["top"] = {**xs, **ys}
            d["option"] = {"specific_energy": 3600.0 * opts.get("specific_energy", 300)}
            rec("Arch", c=job["arch"], d=d)
            return
        except Exception as ex:
            # an implicit model may fail to solve at an unlucky point
            if not (e.newton and isinstance(ex, (om.AnalysisError, RuntimeError, ValueError))):
                rec("Exc", what=f"{job['arch']}: {exc_text(ex)}")
                return
    rec("Skip", why="no converged point")


def maps(blades, r, rec):
    """run the propeller exactly at tabulated points of its maps"""
    nn = 12
    try:
        b = R.Built(R.BY["SimplePropeller"], nn, dict(num_blades=blades))
        x = b.point(r)
        n, D, rho = r.uniform(20, 40), r.uniform(1.5, 3.5), r.uniform(0.4, 1.2)
        i, j = r.integers(9 if blades == 3 else 13, size=nn), r.integers(14 if blades == 3 else 9, size=nn)
        i[0], j[0] = r.integers(3), r.integers(3)
        s = r.integers(25 if blades == 3 else 41, size=nn)
        for ev, cp, J in (("Map", i * (0.1 if blades == 3 else 2.5 / 12), 0.2 + 0.2 * j if blades == 3 else 0.5 * j), ("Static", s * 0.025, 0.01 * s)):
            over = {"rpm": 60 * n * 2 * np.pi / 60, "diameter": D, "rho": rho, "Utrue": J * n * D, "shaft_power_in": cp * rho * n**3 * D**5}
            b.run(laws.override(b, x, over, r))
            _, y = laws.snapshot(b)
            rec(ev, blades=blades, i=(i if ev == "Map" else s).tolist(), j=j.tolist(), cp=y["cp"], J=y["J"], eta=y["eta_prop"], stat=y["ct_over_cp"])
    except Exception as ex:
        rec("Exc", what=f"propeller map {blades}: {exc_text(ex)}")
