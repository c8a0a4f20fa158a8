"""C12: batches of points from BatchMC evaluated by every node-vectorized model; rows decided in ModelTrace."""
import numpy as np
import registry as R
from common import *

TRACE = "ModelTrace"
LIMIT = 200


def mc(tier, seed):
    return [dict(module="BatchMC", cfg=f"BatchMC_{tier}.cfg")]


def preload():
    for e in R.ENTRIES:
        e.klass()


def jobs(emitted, tier, seed):
    r = rng_of("c12", seed)
    T = tier != "quick"
    B = [b for b in emitted[0] if sum(len(x) for x in b) > 2]
    out = []
    for e in R.ENTRIES:
        if not e.nn or e.integ or "c12" in e.skip:
            continue
        for v in range(len(e.opts)):
            for k in range(0 if v in e.vskip12 else 40 if T else 24 if e.explicit else 8):
                out.append((f"{e.name}-{v}-{k}", dict(name=e.name, variant=v, pert=k % 2, batches=pick(r, B), edge=pick(r, [None, "ends", "low", "high", "exact", "wide", "wide", "wide"]), tile=pick(r, [1, 1, 2]), seed=[seed, e.name, v, k])))
    return [out[i] for i in r.permutation(len(out))]


def execute(job, rec):
    r = rng_of(*job["seed"])
    e = R.BY[job["name"]]
    for attempt in range(4):
        try:
            o = e.option_values(job["variant"], r, job["pert"])
            ev = batches(job, r, e, o)
        except Exception as ex:
            if not e.newton:
                rec("New", prog=dict(outs=[], souts=[], rt=0, at=0, learnshared=False))
                rec("Exc", what=f"{job['variant']}: " + exc_text(ex))
                return
            continue
        if ev:
            for n, d in ev:
                rec(n, **d)
            return
    rec("New", prog=dict(outs=[], souts=[], rt=0, at=0, learnshared=False))
    rec("Skip", why="no converged point in four attempts")


def batches(job, r, e, o):
    # which inputs and outputs have nodes: their shape follows the number of nodes
    s3, s5 = R.Built(e, 3, o), R.Built(e, 5, o)
    row = lambda a, b: len(a) >= 1 and a[0] == 3 and b[0] == 5
    vin = {n for n in s3.src if row(s3.meta(n)["shape"], s5.meta(n)["shape"])}
    vout = [n for n in s3.outputs if row(s3.outputs[n], s5.outputs[n])]
    sout = [n for n in s3.outputs if s3.outputs[n] == s5.outputs[n]]
    x5 = s5.point(r, job["edge"])
    if job["edge"] == "wide" and e.explicit:
        near = s5.point(r)
        s1 = R.Built(e, 1 if 1 in e.nns else 3, o)
        at = lambda x, q: {n: (np.array([x[n][q]] * s1.nn) if n in vin else x[n]) for n in x}
        if not all(s1.alone(at(dict(near, **{n: x5[n] for n in x5 if n not in vin}), q)) for q in range(3)):
            x5.update({n: near[n] for n in x5 if n not in vin})
        for q in range(3):
            if not s1.alone(at(x5, q)):
                for n in vin:
                    x5[n][q] = near[n][q]
    for n in vin:
        if n.split(".")[-1] in e.flat:
            x5[n][:] = x5[n][0]
    bs = [list(b) * (job["tile"] if len(b) < 3 else 1) for b in job["batches"]]
    nlong = r.integers(4)
    if nlong == 0:
        bs.append([int(v) for v in r.integers(1, 4, size=int(r.integers(5, 13)))])
    ev = [("New", dict(prog=dict(name=e.name, outs=vout, souts=sout, rt=1e-7 if e.solver else 1e-11, at=1e-9 if e.solver else 1e-13, learnshared=True)))]
    base = {}
    for b in bs:
        m = R.Built(e, len(b), o)
        x = {n: (np.array([x5[n][p - 1] for p in b]) if n in vin else x5[n]) for n in x5}
        y = m.run(x)
        if not m.converged():
            return None
        ev.append(("Rows", dict(batch=b, rows=[[np.ravel(y[n][i]) for n in vout] for i in range(len(b))], shared=[np.ravel(y[n]) for n in sout])))
        for n in x:
            base[n] = x[n]
    return ev
