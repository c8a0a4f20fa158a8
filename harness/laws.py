"""Run models of the library at points of a scenario and record inputs and outputs in base SI units."""
import functools
import re
import numpy as np
import openmdao.api as om
import registry as R
from openmdao.utils.units import _find_unit
from common import *


@functools.lru_cache(None)
def factor(u):
    if not u:
        return (1.0, 0.0)
    q = _find_unit(u, error=True)
    return (q._factor, q._offset)


# differences of temperature and the like: no offset
DELTA = ("TempIncrement",)


def si(n, v, u):
    f, o = factor(u)
    if n.split("|")[-1] in DELTA:
        o = 0.0
    return (np.array(v, float) + o) * f


def unsi(n, v, u):
    f, o = factor(u)
    if n.split("|")[-1] in DELTA:
        o = 0.0
    return np.array(v, float) / f - o


def local(n):
    return n[2:] if n.startswith("c.") else n


def snapshot(b, outs=None):
    """inputs and outputs of the model just run, SI, by local promoted name"""
    x, y = {}, {}
    p = b.p
    for n in b.src:
        x[local(n)] = si(n, p.get_val(n, units=b.meta(n)["units"]), b.meta(n)["units"]).tolist()
    if not hasattr(b, "ounits"):
        mo = p.model.get_io_metadata("output", metadata_keys=["units"])
        b.ounits = {m["prom_name"]: m["units"] for m in mo.values()}
    for n in b.outputs:
        if n in b.inner:
            continue
        if outs is None or outs(local(n)):
            y[local(n)] = si(n, p.get_val(n), b.ounits[n]).tolist()
    return x, y


def override(b, x, over, r):
    """over: {end of an input's name: SI value or list (recycled over the nodes) or callable(r, shape)}"""
    for n in x:
        for k, v in over.items():
            if local(n) == k or local(n).endswith("." + k) or local(n).endswith("|" + k):
                m = b.meta(n)
                v = v(r, tuple(m["shape"])) if callable(v) else np.resize(np.array(v, float), m["shape"])
                x[n] = unsi(n, v, m["units"]) * np.ones(m["shape"])
    return x


def unset(b, rec):
    """the values a model gives the constants it holds itself, before anyone sets them"""
    if b.inner:
        rec("Unset", c=b.e.cls, o=dict(b.opts), v={re.sub(r".*[.|]", "", n): si(n, np.ravel(m["default"])[0], m["units"]).tolist() for n, m in b.inner.items()})


def session(job, rec, over=None, outs=None, points=2, totals=None, after=None, pts=None):
    """build the entry, run points, one Eval per point.  False: no converged point (implicit models)"""
    r = rng_of(*job["seed"])
    e = R.BY[job["name"]]
    o = dict(e.opts[job.get("variant", 0)])
    if job.get("pert"):
        o = e.option_values(job.get("variant", 0), r, True)
    o.update(job.get("opts", {}))
    ctx = dict(c=job.get("c", e.cls), nn=job["nn"])
    for attempt in range(3):
        try:
            b = R.Built(e, job["nn"], o)
            unset(b, rec)
            done = 0
            for k in range(points):
                edge = pick(r, [None, None, "ends", "exact", "wide", "wide"]) if job.get("edge", "any") == "any" else job["edge"]
                wide = edge == "wide" and e.explicit
                x = b.point(r, edge)
                if over:
                    x = override(b, x, over(k, r) if callable(over) else over, r)
                if pts:
                    x = pts(b, x, k, r)
                try:
                    b.run(x)
                except Exception:
                    if wide:
                        continue
                    raise
                if not b.converged():
                    continue
                xs, ys = snapshot(b, outs)
                if wide and not all(np.all(np.isfinite(v)) for v in ys.values()):
                    continue
                d = dict(ctx, o=dict(o), x=xs, y=ys, k=k)
                if totals:
                    d["J"] = totals(b)
                rec("Eval", **d)
                done += 1
                if after:
                    after(b, x, k, rec)
            if done:
                return True
        except Exception as ex:
            if not e.newton:
                rec("Exc", what=f"{e.name} {o}: " + exc_text(ex))
                return True
    rec("Skip", why="no converged point")
    return False


def solvers(mod):
    """the implicit models of a package part"""
    return [e.name for e in R.ENTRIES if e.newton and e.mod.startswith(mod) and e.cls != "BFLImplicitSolve"]


def solves(name, seed, rec):
    """does the model find its solution at ordinary settings?"""
    r = rng_of(*seed)
    e = R.BY[name]
    hard = "Compressible" in name
    need, tries = (1, 24) if hard else (3, 8)
    found, made, why = 0, 0, ""
    while made < tries and found < need:
        made += 1
        try:
            b = R.Built(e, int(pick(r, list(e.nns))), dict(e.opts[made % len(e.opts)]))
            b.run(b.point(r))
            found += bool(b.converged())
        except Exception as ex:
            why = exc_text(ex)[-200:]
    rec("Solves", c=name, found=found, made=made, need=need, why=why)


def children(b):
    """ports of every direct member of the model under test, SI: {member: {port: value}}"""
    p = b.p
    out = {}
    for s in p.model.c._subsystems_myproc:
        d = {}
        for io in ("input", "output"):
            for a, m in s.get_io_metadata(io, metadata_keys=["units"]).items():
                d[m["prom_name"]] = si(m["prom_name"], p.get_val(s.pathname + "." + a, units=m["units"]), m["units"]).tolist()
        out[s.name] = d
    return out
