"""C25: finite-difference time derivative, configurations from FirstDerivMC, replayed in UtilTrace."""
import warnings
import numpy as np
import openmdao.api as om
from common import *

TRACE = "UtilTrace"


def mc(tier, seed):
    return [dict(module="FirstDerivMC", cfg=f"FirstDerivMC_{tier}.cfg")]


def preload():
    import openconcept.utilities.math.derivatives  # noqa


def jobs(emitted, tier, seed):
    rep = 1 if tier == "quick" else 3
    return [(f"fd-{i:04d}-{k}", dict(prog=p, seed=[seed, i, k])) for i, p in enumerate(emitted[0]) for k in range(rep) if k == 0 or p["legal"]]


def execute(job, rec):
    from openconcept.utilities.math.derivatives import FirstDerivative

    warnings.simplefilter("ignore")
    g = job["prog"]
    r = rng_of(*job["seed"])
    rec("New", prog=g)
    qu = pick(r, ["kg", "ft", "m/s"]) if g["um"] in ("q", "both") else None
    tu = pick(r, ["s", "min", "h"]) if g["um"] in ("t", "both") else None
    segs = [pick(r, ["climb", "s", "a"]) + str(i) for i in range(g["nseg"])]
    kw = dict(num_intervals=g["nint"], order=g["order"])
    if g["order"] == 4 and r.integers(2):
        del kw["order"]
    if g["nint"] == 5:
        del kw["num_intervals"]
    if qu:
        kw["quantity_units"] = qu
    if tu:
        kw["diff_units"] = tu
    if g["named"]:
        kw["segment_names"] = segs
    try:
        p = om.Problem(reports=None)
        p.model.add_subsystem("c", FirstDerivative(**kw))
        p.setup(check=False)
        p.final_setup()
    except Exception as ex:
        if g["legal"]:
            rec("Exc", what=exc_text(ex))
        else:
            rec("Reject", what="order/size", raised=True)
        return
    if not g["legal"]:
        rec("Reject", what=f"order {g['order']} intervals {g['nint']}", raised=False)
        return
    try:
        P = 2 * g["nint"] + 1
        n = P * g["nseg"]
        T = ["c." + s + "|dt" for s in segs] if g["named"] else ["c.dt"]
        # everything is recorded in the declared units of quantity and time
        du = f"({qu or 'unitless'})/({tu})" if tu else qu
        du = None if du is None else (f"({qu})/({tu})" if qu and tu else (f"1/({tu})" if tu else qu))
        for it in range(3):
            dt = [float(v) for v in np.round(r.uniform(0.05, 4, size=g["nseg"]) * pick(r, [1, 10]), 4)]
            if it == 2:
                p.setup(check=False, mode=pick(r, ["fwd", "rev"]))
            exact = None
            if it == 1:
                top = 4 if g["order"] == 4 else 2
                q, exact = [], []
                for d in dt:
                    c = r.normal(size=top + 1)
                    t = d * np.arange(P)
                    q.append(np.polyval(c, t))
                    exact.append(np.polyval(np.polyder(c), t))
                q, exact = np.concatenate(q), np.concatenate(exact)
            else:
                q = r.normal(size=n) * 10.0 ** r.integers(-1, 3)
            if qu:
                p.set_val("c.q", q, units=qu)
            else:
                p.set_val("c.q", q)
            for a, v in zip(T, dt):
                if tu:
                    alt = pick(r, [tu, "s"])
                    p.set_val(a, om.convert_units(v, tu, alt), units=alt)
                else:
                    p.set_val(a, v)
            p.run_model()
            y = (p.get_val("c.dqdt", units=du) if du else p.get_val("c.dqdt")).copy()
            if exact is not None:
                rec("Poly", dqdt=y, exact=exact, tol=1e-11 * float(np.abs(q).max() / min(dt)))
            if n <= 40 or it == 0:
                J = p.compute_totals(of=["c.dqdt"], wrt=["c.q"] + T)
                rec("Deriv", q=q, dt=dt, dqdt=y, Jq=J["c.dqdt", "c.q"], Jdt=[J["c.dqdt", t][:, 0] for t in T])
    except Exception as ex:
        rec("Exc", what=exc_text(ex))
