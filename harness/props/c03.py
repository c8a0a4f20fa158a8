"""C03: declaration programs from DeclareMC built with PhaseGroup/IntegratorGroup, replayed in StateTrace."""
import numpy as np
import openmdao.api as om
from common import *
import traj

TRACE = "StateTrace"


def mc(tier, seed):
    return [dict(module="DeclareMC", cfg=f"DeclareMC_{tier}.cfg")]


def preload():
    import openconcept.mission  # noqa


def jobs(emitted, tier, seed):
    r = rng_of("c03", seed)
    one = [p for p in emitted[0] if len(p["leaves"]) == 1 and len(p["leaves"][0]["states"]) == 1]
    more = [p for p in emitted[0] if p not in one] if len(emitted[0]) < 2000 else [p for p in emitted[0] if not (len(p["leaves"]) == 1 and len(p["leaves"][0]["states"]) == 1)]
    k = 700 if tier == "quick" else 6000
    more = [more[i] for i in sorted(r.permutation(len(more))[:k])]
    out = [(f"decl-{i:05d}", dict(prog=p, seed=["c03", seed, i])) for i, p in enumerate(one + more)]
    pool = [p["leaves"][0] for p in one if p["defect"] == "none"]
    for i in range(60 if tier == "quick" else 600):
        q = rng_of("c03big", seed, i)
        paths = ["vm", "a.vm", "a.w", "b.c.vm", "b.c.u", "d.e.f.g", "z"]
        lv = []
        for j in q.permutation(len(paths))[: int(q.integers(3, 6))]:
            kind = pick(q, ["auto", "auto", "manual"])
            ss = [dict(pick(q, pool)["states"][0]) for _ in range(int(q.integers(1, 5)))]
            if kind == "manual":
                ss = [dict(s, prom=False, rprom=False) for s in ss]
            lv.append(dict(path=paths[int(j)], kind=kind, tu=pick(q, ["s", "min", "h"]), states=ss))
        out.append((f"big-{i:04d}", dict(prog=dict(leaves=lv, defect="none"), seed=["c03b", seed, i])))
    return out


def concrete(g, r, nn, defect="none"):
    leaves = []
    for li, lf in enumerate(g["leaves"]):
        st = []
        for k, o in enumerate(lf["states"]):
            qu = pick(r, traj.QU)[0] if o["units"] == "own" else None
            ru = pick(r, [traj.rate_units(qu, "s"), traj.rate_units(qu, "h"), traj.rate_units(dict(traj.QU)[qu][0], "s")]) if qu else "1/s"
            s = dict(name=f"q{li}{k}", units=qu, ru=ru, rate=f"rt{k}", prom=bool(o["prom"]) if (o["prom"] or r.integers(2)) else None, rprom=bool(o["rprom"]))
            if o["val"] == "scalar":
                s["val"] = float(np.round(r.normal() * 5, 3))
                s["valtext"] = repr(s["val"])
            elif o["val"] == "vector":
                s["val"] = np.linspace(0, 5, nn)
                s["valtext"] = f"np.linspace(0,5,{nn})"
            if o["bnd"]:
                s["bounds"] = [float(-1e7 - k), float(2e7 + k)]
            if lf["kind"] == "manual":
                s["rate"] = pick(r, [s["name"] + "_rate", f"rt{k}"])
            st.append(s)
        leaves.append(traj.new_leaf(lf["path"], lf["kind"], lf["tu"], st, promdur=bool(r.integers(2))))
    if defect == "noname":
        leaves[0]["states"][0]["name_tag"] = False
    elif defect == "dupstate":
        leaves[0]["states"].append(dict(leaves[0]["states"][0], rate="other"))
    elif defect == "badunits":
        leaves[0]["states"][0]["ru"] = "K/s"
    return leaves


def execute(job, rec):
    g = job["prog"]
    r = rng_of(*job["seed"])
    nn = int(pick(r, [1, 3, 5, 7]))
    leaves = concrete(g, r, nn, g["defect"])
    depth = pick(r, ["", "", "ph.", "grp.ph."])
    slots = [dict(phase=1, ppath=depth, leaf=lf, state=s, n=nn) for lf in leaves for s in lf["states"]]
    rec("New", prog=dict(slots=[dict(phase=1, key=f"{a['leaf']['path']}.{a['state']['name']}", n=nn) for a in slots], links=[]))
    duru = pick(r, ["s", "min"])
    defect = g["defect"] != "none"
    try:
        ph = traj.make_phase(leaves, nn, g["defect"] != "noduration", duru, users=bool(r.integers(2)) and g["defect"] != "noduration")
        if depth == "":
            p = om.Problem(ph, reports=None)
        else:
            m = om.Group()
            t = m
            for x in depth.split(".")[:-2]:
                t = t.add_subsystem(x, om.Group())
            t.add_subsystem("ph", ph)
            # a second phase beside it, with its own clock
            t.add_subsystem("beside", traj.make_phase([traj.new_leaf("vm", "auto", "s", [dict(name="w", units="kg", ru="kg/s", rate="rt0", prom=None)])], 3, True))
            p = om.Problem(m, reports=None)
        traj.solve(p, r)
        p.setup(check=False)
        p.final_setup()
        if defect:
            p.run_model()
    except Exception as ex:
        rec("Reject" if defect else "Exc", raised=True, what=exc_text(ex))
        return
    if defect:
        rec("Reject", raised=False, what=g["defect"])
        return
    try:
        S = traj.Session(p, slots, [depth + "duration"], rec, r, set())
        S.durscale = {depth + "duration": om.convert_units(1.0, "s", duru)}
        S.meta()
        A, B = S.draw(), S.draw()
        S.run(A)
        if r.integers(3) == 0:
            S.slope(A)
        S.run(B)
        if depth != "":
            p.set_val(depth.replace("ph.", "beside.") + "duration", 77.0)
            S.run(A)
    except Exception as ex:
        rec("Exc", what=exc_text(ex))
