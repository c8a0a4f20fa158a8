"""C28: missions of every profile solved, asked for their design sensitivities, moved along one design variable at a time and solved again; reach and slopes judged in ReachTrace."""
import numpy as np
import mission as M
import laws
from common import *

TRACE = "ReachTrace"
LIMIT = 400
TOP = dict(weight=("ac|weights|MTOW", 1e-3), area=("ac|geom|wing|S_ref", 1e-3), clmax=("ac|aero|CLmax_TO", 1e-3))
SEEN = "fuel_used range fltcond|h fltcond|Utrue duration thrust throttle takeoff|v1 weight heat".split()
STEP = {"vs": None, "Ueas": None, "TempIncrement": 0.5, "braking": 0.002, "takeoff|h": 5.0, "loiter|h0": 5.0, "takeoff|v2": 0.1}


def mc(tier, seed):
    return [dict(module="ReachMC", cfg=f"ReachMC_{tier}.cfg", workers=4)]


def preload():
    import openconcept.mission  # noqa


def jobs(emitted, tier, seed):
    r = rng_of("c28", seed)
    by = {}
    for e in emitted[0]:
        by.setdefault(repr(sorted(e["P"].items())), []).append(e["d"])
    P = {repr(sorted(e["P"].items())): e["P"] for e in emitted[0]}
    out = []
    for i, k in enumerate(sorted(by)):
        ds = sorted(by[k])
        per = 3
        order = [ds[j] for j in r.permutation(len(ds))]
        rounds = (2 if tier == "quick" else 30) if P[k]["to"] == "none" else (1 if tier == "quick" else 20)
        for q in range(rounds):
            for j in range(0, len(order), per):
                out.append((f"reach{i}-{q}-{j:02d}", dict(P=P[k], ds=order[j:j + per], seed=["c28", seed, i, q, j])))
    return [out[i] for i in r.permutation(len(out))]


def execute(job, rec):
    r = rng_of(*job["seed"])
    P = job["P"]
    why = ""
    try:
        for k in range(18 if P["to"] == "ode" else 9):
            scen = dict(P=P, par=dict(elev=0 if P["to"] != "none" else int(r.integers(2)), h0=int(r.integers(1, 4)), range=int(r.integers(2)), resh=int(r.integers(2)), loith=int(r.integers(2)), loit=int(r.integers(2))))
            m = M.Mission(scen, r, mode=pick(r, ["fwd", "rev", "auto"]))
            for q in range(2):
                m.prepare(first=q == 0)
                try:
                    m.fly()
                except Exception as ex:
                    if not M.unsolved(ex):
                        raise
                    why = exc_text(ex)
                    break
                ask(m, job["ds"] if q == 0 else job["ds"][:1], r, rec)
            else:
                return
            if q:
                return
        rec("Exc", what=f"no mission of profile {P} closes: {why}")
    except Exception as ex:
        rec("Exc", what=exc_text(ex))


def ask(m, ds, r, rec):
    F, p = m.F, m.F.p
    if not hasattr(m, "outs"):
        outs = {q["prom_name"] for q in p.model.get_io_metadata("output", metadata_keys=["units"]).values()}
        m.outs = {n: {q: full for q, (full, u) in at.items() if q in SEEN and full in outs} for n, at in m.at.items()}
    of = sorted({f for d in m.outs.values() for f in d.values()})
    var = {}
    for seg, v in ds:
        name = TOP[v][0] if v in TOP else F.pre + (f"{seg}.{v}" if not seg or v == "braking" else f"{seg}.fltcond|{v}")
        if name in F.names:
            var[name] = (seg, v)
    if not var:
        return
    here = {f: p.get_val(f).copy().ravel() for f in of}
    J = p.compute_totals(of=of, wrt=list(var))
    kept = max(float(np.max(np.abs(p.get_val(f).ravel() - here[f]) / (np.abs(here[f]).max() + 1e-30))) for f in of)
    todo = [{n: None} for n in var] + ([dict.fromkeys(var)] if len(var) > 1 else [])
    for group in todo:
        x0 = {n: p.get_val(n).copy() for n in group}
        dx = {}
        for n in group:
            seg, v = var[n]
            s = STEP.get(v)
            w = r.uniform(0.3, 1, size=np.shape(x0[n])) * pick(r, [1, -1])
            dx[n] = w * s if s else w * 1e-3 * np.maximum(np.abs(x0[n]), 1e-2 * np.abs(x0[n]).max() + (1e-3 if v == "vs" else 0))

        def at(s):
            for n in group:
                p.set_val(n, x0[n] + s * dx[n])
            p.run_model()
            return {f: p.get_val(f).copy().ravel() for f in of}

        try:
            y = {s: at(s) for s in (1, -1, 2, -2)}
            back = at(0)
        except Exception as ex:
            if not M.unsolved(ex):
                raise
            rec("Skip", why=exc_text(ex))
            return
        res = {}
        for seg, d in m.outs.items():
            res[seg] = {}
            for q, f in d.items():
                a, b = (y[1][f] - y[-1][f]) / 2, (y[2][f] - y[-2][f]) / 4
                slope = (4 * a - b) / 3
                said = sum((J[f, n].reshape(len(slope), -1) @ dx[n].ravel()) for n in group)
                # how sure the differences are: the two estimates and how well the mission comes back
                doubt = np.abs(a - b).max() * 0.05 + np.abs(back[f] - here[f]).max() * 2
                res[seg][q] = dict(said=said, slope=slope, doubt=float(doubt), size=float(np.abs(here[f]).max()))
        if len(group) == 1:
            (n,) = group
            rec("Ask", P=m.P, d=list(var[n]), res=res, kept=kept)
        else:
            rec("Mix", P=m.P, ds=[list(var[n]) for n in group], res=res)
