"""C11: histories from PointMC ending in a linearization, run on every model of the registry; slopes decided in ModelTrace."""
import numpy as np
import registry as R
from common import *

TRACE = "ModelTrace"
LIMIT = 200


def mc(tier, seed):
    return [dict(module="PointMC", cfg=f"PointMC_{tier}.cfg")]


def preload():
    for e in R.ENTRIES:
        e.klass()


def histories(emitted):
    """the histories that end by linearizing, without the other-instance steps (C13's)"""
    H, seen = [], set()
    for h in emitted:
        h = [s for s in h if s["a"] not in ("Stop", "Other")]
        if h[-1]["a"] != "Lin" or h[-1]["p"] != "A":
            continue
        k = repr(h)
        if k not in seen:
            seen.add(k)
            H.append(h)
    return H


def jobs(emitted, tier, seed):
    r = rng_of("c11", seed)
    T = tier != "quick"
    H = histories(emitted[0])
    out = []
    for e in R.ENTRIES:
        if "c11" in e.skip:
            continue
        reps = 12 if T else (2 if e.big else max(3, 6 // len(e.opts)))
        if e.explicit:
            reps *= 3
        for v in range(len(e.opts)):
            for k in range(reps):
                nn = pick(r, list(e.nns))
                out.append((f"{e.name}-{v}-{k}", dict(name=e.name, variant=v, pert=k % 2, nn=nn, edge=pick(r, [None, None, "ends", "low", "high", "exact"] + ["wide", "wide"] * e.explicit), hist=pick(r, H), mode=pick(r, ["fwd", "rev"]), full=T, seed=[seed, e.name, v, k])))
    return [out[i] for i in r.permutation(len(out))]


def execute(job, rec):
    r = rng_of(*job["seed"])
    e = R.BY[job["name"]]
    rec("New", prog=dict(name=e.name))
    for attempt in range(4):
        try:
            o = e.option_values(job["variant"], r, job["pert"])
            b = R.Built(e, job["nn"], o, mode=job["mode"])
        except Exception as ex:
            rec("Exc", what=f"build {o}: " + exc_text(ex))
            return
        pts = {p: b.point(r, job["edge"]) for p in ("A", "B", "C")}
        wide = job["edge"] == "wide"
        if wide and not all(b.alone(x) for x in pts.values()):
            continue
        try:
            if slopes(job, rec, r, e, b, pts):
                return
        except Exception as ex:
            if not e.newton:
                rec("Exc", what=f"{o}: " + exc_text(ex))
                return
    rec("Skip", why="no converged point in four attempts")


def slopes(job, rec, r, e, b, pts):
    p = b.p
    of = [n for n in b.outputs if n not in b.inner]
    if e.big and not job["full"]:
        of = [of[int(i)] for i in sorted(r.permutation(len(of))[:40])]
    wrt = [n for n in b.src if np.any(pts["A"].get(n, 1) != 0) or n in b.inputs]
    wrt = [n for n in wrt if not (n in b.inner and not np.any(pts["A"][n]))]
    if e.big and not job["full"]:
        wrt = [wrt[int(i)] for i in sorted(r.permutation(len(wrt))[:14])]
    J = y0 = None
    for s in job["hist"]:
        if s["a"] == "Set":
            b.set(pts[s["p"]])
        elif s["a"] == "Run":
            if e.guess:
                y0 = b.run(pts[s["p"]])
            else:
                p.run_model()
                y0 = b.read()
            if not b.converged():
                return False
        elif s["a"] == "Lin":
            J = p.compute_totals(of=of, wrt=[b.src[n] for n in wrt])
        elif s["a"] == "Setup":
            p.setup(check=False, mode=job["mode"])
            b.tighten()
    if not all(np.all(np.isfinite(y0[o])) for o in of):
        rec("Exc", what="outputs are not finite in the physical domain")
        return True
    x = pts["A"]
    hs = 1e-3 if e.newton else 3e-4
    eps = 3e-10 if e.newton else 2e-15
    for n in wrt:
        sc = np.abs(x[n]) + (0.02 * np.abs(x[n]).max() if np.any(x[n]) else 0.1)
        d = sc * r.uniform(0.4, 1, size=x[n].shape) * r.choice([-1, 1], size=x[n].shape)
        ys = []
        for f in (1, -1, 0.25, -0.25):
            z = dict(x)
            z[n] = x[n] + f * hs * d
            ys.append(b.run(z))
            if not b.converged():
                return False
        outs = []
        for o in of:
            ad = np.asarray(J[o, b.src[n]])
            ad = ad.reshape(int(np.prod(b.outputs[o])), -1) @ d.ravel()
            outs.append(dict(n=o, y0=y0[o].ravel(), yp=ys[0][o].ravel(), ym=ys[1][o].ravel(), yq=ys[2][o].ravel(), yn=ys[3][o].ravel(), ad=ad))
        rec("Slope", wrt=n, h=hs, eps=eps, floor=1e-2 if e.newton else 0.0, rt=1e-4 if e.newton else e.rt11, outs=outs)
    return True
