"""C05: every segment of missions from MissionMC, segments flown on their own, and the force and speed components, node by node in BalanceTrace."""
import mission as M
from common import *

TRACE = "BalanceTrace"
LIMIT = 300
U = lambda a, b: (lambda r, s: r.uniform(a, b, size=s))


def signed(a, b):
    """some values on each side, some exactly there"""
    return lambda r, s: np.where(r.uniform(size=s) < 0.2, a, r.uniform(a, b, size=s))


import numpy as np  # noqa

COMP = {
    "Groundspeeds": ({}, {"fltcond|vs": lambda r, s: r.uniform(-60, 60, size=s), "fltcond|Utrue": lambda r, s: np.where(r.uniform(size=s) < 0.3, r.uniform(20, 60, size=s), r.uniform(60, 250, size=s))}),
    "HorizontalAcceleration": ({}, {"weight": U(1500, 60000), "drag": U(500, 20000), "lift": lambda r, s: r.uniform(0, 1.0) * r.uniform(0, 6e5, size=s), "thrust": U(0, 90000), "fltcond|singamma": U(-0.3, 0.3), "braking": signed(0, 0.6)}),
    "VerticalAcceleration": ({}, {"weight": U(1500, 6000), "drag": U(500, 20000), "lift": lambda r, s: r.choice([2e4, 6e4, 2e5, 4e5, 0]) * r.uniform(0.1, 1, size=s), "thrust": U(0, 40000), "fltcond|singamma": U(-1, 1), "fltcond|cosgamma": U(0.1, 1)}),
    "SteadyFlightCL": ({}, {"weight": U(1500, 60000), "fltcond|q": U(500, 20000), "ac|geom|wing|S_ref": U(10, 300), "fltcond|cosgamma": U(0.3, 1)}),
    "FlipVectorComp": (dict(negative=[True, False], units=[None, "m/s", "m/s**2", "ft"]), {"vec_in": U(-50, 50)}),
}


def mc(tier, seed):
    return [dict(module="MissionMC", cfg=f"MissionMC_{tier}.cfg", workers=4)]


def preload():
    import openconcept.mission  # noqa


def scenarios(emitted, r, n):
    by = {}
    for e in emitted:
        by.setdefault(repr(sorted(e["P"].items())), []).append(e)
    return [(i, j, es[int(r.integers(len(es)))]) for i, (k, es) in enumerate(sorted(by.items())) for j in range(n)]


def jobs(emitted, tier, seed):
    r = rng_of("c05", seed)
    T = tier != "quick"
    out = [(f"mission{i}-{j:03d}", dict(scen=e, seed=["c05", seed, i, j])) for i, j, e in scenarios(emitted[0], r, 250 if T else 6)]
    for kind, tolds in (("steady", ["climb", "cruise", "descent", "loiter", "hold"]), ("roll", ["v0v1", "v1vr", "v1v0"]), ("rotation", ["rotate"])):
        for t in tolds:
            for j in range(200 if T else 12):
                out.append((f"{kind}-{t}-{j:03d}", dict(kind=kind, told=t, seed=["c05s", seed, kind, t, j])))
    for c in COMP:
        for j in range(400 if T else 25):
            out.append((f"{c}-{j:03d}", dict(comp=c, seed=["c05c", seed, c, j])))
    return [out[i] for i in r.permutation(len(out))]


def execute(job, rec):
    r = rng_of(*job["seed"])
    try:
        if "scen" in job:
            M.session(job["scen"], r, rec)
        elif "kind" in job:
            M.segment(job["kind"], job["told"], r, rec)
        else:
            o, dom = COMP[job["comp"]]
            M.component(job["comp"], r, rec, int(pick(r, [1, 2, 3, 5, 8])), {k: pick(r, v) for k, v in o.items() if r.integers(3)}, dom)
    except Exception as ex:
        rec("Exc", what=exc_text(ex))
