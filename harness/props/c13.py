"""C13: every caller history of PointMC, run on every model of the registry; a memo in ModelTrace decides."""
import numpy as np
import registry as R
from common import *

TRACE = "ModelTrace"
LIMIT = 200


def mc(tier, seed):
    return [dict(module="PointMC", cfg=f"PointMC_{tier}.cfg")]


def preload():
    for e in R.ENTRIES:
        e.klass()


def jobs(emitted, tier, seed):
    r = rng_of("c13", seed)
    T = tier != "quick"
    H = [[s for s in h if s["a"] != "Stop"] for h in emitted[0]]
    # the histories that observe some point twice
    H = [h for h in H if any(x["a"] == y["a"] and x["a"] in ("Run", "Lin") and x.get("p") == y.get("p") for i, x in enumerate(h) for y in h[:i])]
    assert len(H) > 100
    out = []
    for e in R.ENTRIES:
        if "c13" in e.skip:
            continue
        for v in range(len(e.opts)):
            for k in range(60 if T else 6 if e.big else 12):
                out.append((f"{e.name}-{v}-{k}", dict(name=e.name, variant=v, pert=k % 2, nn=pick(r, list(e.nns)), hist=pick(r, H), edge=pick(r, [None, "ends", "exact", "wide"]), alone=k % 3 == 0, mode=pick(r, ["fwd", "rev"]), seed=[seed, e.name, v, k])))
    return [out[i] for i in r.permutation(len(out))]


def execute(job, rec):
    r = rng_of(*job["seed"])
    e = R.BY[job["name"]]
    empty = dict(outs=[], ins=[], rt=0, rtJ=0, at=0)
    for attempt in range(4):
        ev = []
        try:
            if session(job, r, e, lambda n, **d: ev.append((n, d))):
                for n, d in ev:
                    rec(n, **d)
                return
        except Exception as ex:
            if not e.newton:
                rec("New", prog=empty)
                rec("Exc", what=f"{job['variant']}: " + exc_text(ex))
                return
    rec("New", prog=empty)
    rec("Skip", why="no converged point in four attempts")


def session(job, r, e, rec):
    o = e.option_values(job["variant"], r, job["pert"])
    b = R.Built(e, job["nn"], o, mode=job["mode"])
    pts = {p: b.point(r, job["edge"]) for p in ("A", "B", "C")}
    if job["edge"] == "wide" and e.explicit:
        pts = {p: x if b.alone(x) else b.point(r) for p, x in pts.items()}
    if r.integers(3) == 0:
        # B differs from A in one input only
        n = pick(r, [n for n in pts["A"]])
        pts["B"] = dict(pts["A"], **{n: pts["B"][n]})
    of = [n for n in b.outputs if n not in b.inner]
    wrt = list(b.src)
    if e.big:
        of = [of[int(i)] for i in sorted(r.permutation(len(of))[:50])]
        wrt = [wrt[int(i)] for i in sorted(r.permutation(len(wrt))[:15])]
    dirs = {n: r.uniform(0.3, 1, size=b.meta(n)["shape"]) * (np.abs(pts["A"][n]) + 1e-3) for n in wrt}
    sol = e.solver
    rec("New", prog=dict(name=e.name, outs=of, ins=list(b.src), rt=1e-7 if sol else 1e-12, rtJ=1e-4 if sol else 1e-11, at=1e-7 if sol else 1e-300))

    def observe(bb, p, lin):
        y = bb.read()
        rec("Obs", p=p, y=[y[n].ravel() for n in of])
        if lin:
            J = bb.p.compute_totals(of=of, wrt=[bb.src[n] for n in wrt])
            rec("ObsJ", p=p, J=[np.concatenate([np.asarray(J[n, bb.src[w]]).reshape(int(np.prod(bb.outputs[n])), -1) @ dirs[w].ravel() for w in wrt]) for n in of])

    def kept(bb, p):
        got = [np.array(bb.p.get_val(bb.src[n])).ravel() for n in bb.src]
        rec("Kept", rt=1e-9 if sol else 1e-13, at=1e-12 if sol else 0, set=[np.ravel(pts[p][n]) * np.ones(len(g)) for n, g in zip(bb.src, got)], got=got)

    other = None
    seen = {}
    for s in job["hist"]:
        if s["a"] in ("Run", "Lin"):
            seen[s["p"]] = seen.get(s["p"], False) or s["a"] == "Lin"
        a = s["a"]
        if a == "Set":
            b.set(pts[s["p"]])
        elif a == "Run":
            if e.guess:
                b.run(pts[s["p"]])
            else:
                b.p.run_model()
            if not b.converged():
                return False
            observe(b, s["p"], False)
            kept(b, s["p"])
        elif a == "Lin":
            observe(b, s["p"], True)
        elif a == "Setup":
            b.p.setup(check=False, mode=job["mode"])
            b.tighten()
        elif a == "Other":
            if s["k"] == "same":
                ob = R.Built(e, job["nn"], o, mode=job["mode"])
                p = pick(r, ["A", "B"])
                ob.run(pts[p])
                if not ob.converged():
                    return False
                observe(ob, p, not e.big)
            else:
                v = int(r.integers(len(e.opts)))
                nn = pick(r, list(e.nns))
                ob = R.Built(e, nn, e.option_values(v, r, True))
                ob.run(ob.point(r))
                if not e.big:
                    ob.p.compute_totals(of=list(ob.outputs)[:6], wrt=[ob.src[n] for n in list(ob.inputs)[:4]])
            other = ob
    # and each of these points alone on an instance of its own
    if not e.big or job["alone"]:
        for p, lin in seen.items():
            ob = R.Built(e, job["nn"], o, mode=job["mode"])
            ob.run(pts[p])
            if ob.converged():
                observe(ob, p, lin and not e.big)
    return True
