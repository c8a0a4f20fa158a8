"""C02: trajectory programs from TrajectoryMC built with TrajectoryGroup/PhaseGroup, replayed in StateTrace."""
import numpy as np
import openmdao.api as om
from common import *
import traj

TRACE = "StateTrace"
CFGS = dict(quick=["quick2", "quick3"], thorough=["thorough2", "thorough3", "thorough4"])


def mc(tier, seed):
    return [dict(module="TrajectoryMC", cfg=f"TrajectoryMC_{c}.cfg") for c in CFGS[tier]]


def preload():
    import openconcept.mission  # noqa


def jobs(emitted, tier, seed):
    r = rng_of("c02", seed)
    out = []
    k = 350 if tier == "quick" else 2500
    for i, e in enumerate(emitted):
        ps = [e[j] for j in sorted(r.permutation(len(e))[:k])]
        out += [(f"traj{i}-{j:05d}", dict(prog=p, seed=["c02", seed, i, j])) for j, p in enumerate(ps)]
    # long chains
    for i in range(40 if tier == "quick" else 400):
        q = rng_of("c02long", seed, i)
        n = int(q.integers(4, 7))
        has = [["x", "y", "z"] if q.integers(3) else [pick(q, ["x", "y"])] for _ in range(n)]
        links = [dict(**{"from": j, "to": j + 1}, skip=[s for s in has[j - 1] if s in has[j] and q.integers(5) == 0]) for j in range(1, n) if q.integers(5)]
        out.append((f"chain-{i:04d}", dict(prog=dict(n=n, has=has, links=links), seed=["c02l", seed, i])))
    out.append(("reject", dict(reject=True, seed=[0])))
    return out


def key_config(r):
    """where a state lives; the same in every phase"""
    cfg = {"up": False}
    paths = [pick(r, ["vm", "model.vm", "model.prop.fuel"]), pick(r, ["b", "m", "model.b", "aero.x.b"]), pick(r, ["vm2", "c.d.e", "modelx.vm"])]
    same = bool(r.integers(2))
    nm = pick(r, [["fuel", "fuel_used", "used"], ["range", "cool_range", "ge"], ["T", "T_out", "out"], ["soc", "SOC", "c"]])
    nm = [nm[int(i)] for i in r.permutation(3)]
    alike = bool(r.integers(2))
    cfg["up"] = bool(r.integers(2))
    for i, k in enumerate("xyz"):
        cfg[k] = dict(path=paths[0] if same else paths[i], kind="auto" if same else pick(r, ["auto", "auto", "manual"]), name=nm[i] if alike else pick(r, ["fuel_used", "range", "T", "soc"]) + str(i), qu=pick(r, traj.QU)[0])
    return cfg


def make_traj(job, r, linkset=None):
    """returns (TrajectoryGroup subclass instance builder, slots, links with concrete skip strings)"""
    from openconcept.mission import TrajectoryGroup

    g = job["prog"]
    cfg = key_config(r)
    names = [pick(r, ["climb", "cruise", "p", "phase"]) + str(i) for i in range(g["n"])]
    if r.integers(4) == 0:
        names = ["p" * (i + 1) for i in range(g["n"])]      # one phase name is a prefix of the next
    phases = []
    for i in range(g["n"]):
        nn = int(pick(r, [1, 3, 5, 7]))
        leaves = {}
        # declaration order differs between phases
        ks = list(g["has"][i])
        if r.integers(2):
            ks = ks[::-1]
        for k in ks:
            c = cfg[k]
            lf = leaves.setdefault((c["path"], c["kind"]), traj.new_leaf(c["path"], c["kind"], pick(r, ["s", "s", "min"]), [], promdur=bool(r.integers(2))))
            st = dict(name=c["name"], units=c["qu"], ru=pick(r, [traj.rate_units(c["qu"], "s"), traj.rate_units(c["qu"], "min")]), rate=f"rt_{k}",
                      prom=bool(r.integers(2)) if c["kind"] == "auto" else None, key=k)
            if c["kind"] == "manual" and r.integers(3) == 0:
                st["start_name"] = pick(r, ["begin", "q_start"])
            if c["kind"] == "manual" and r.integers(3) == 0:
                st["end_name"] = pick(r, ["finish", "q_end"])
            if c["kind"] == "manual" and r.integers(5) == 0:
                st["final_only"] = True
            lf["states"].append(st)
        for lf in leaves.values():
            if cfg["up"] and lf["kind"] == "auto" and "." not in lf["path"]:
                lf["up"] = True
                for st in lf["states"]:
                    st["prom"] = True
        phases.append((names[i], nn, list(leaves.values())))
    links = []
    for l in g["links"]:
        sk = []
        for k in l["skip"]:
            nm, nn, lvs = phases[l["from"] - 1]
            lf, st = next((lf, s) for lf in lvs for s in lf["states"] if s["key"] == k)
            full = lf["path"] + ".ode_integ." + st["name"]
            prom = traj.addr("", lf, st)
            sk.append(full if st.get("final_only") else pick(r, [full, prom]))
        links.append((l["from"], l["to"], sk))
    style = int(r.integers(3))

    class Traj(TrajectoryGroup):
        def setup(self):
            obj = [self.add_subsystem(nm, traj.make_phase(lvs, nn, True)) for nm, nn, lvs in phases]
            for a, b, sk in links:
                if sk or style == 0:
                    self.link_phases(obj[a - 1], obj[b - 1], states_to_skip=list(sk))
                else:
                    self.link_phases(obj[a - 1], obj[b - 1])

    if r.integers(4) == 0:
        # the same program given from outside, before the model is set up
        t = TrajectoryGroup()
        obj = [t.add_subsystem(nm, traj.make_phase(lvs, nn, True)) for nm, nn, lvs in phases]
        for a, b, sk in links:
            t.link_phases(obj[a - 1], obj[b - 1], sk)
        return t, phases, links
    return Traj(), phases, links


def build(job, r, rec):
    t, phases, links = make_traj(job, r)
    g = job["prog"]
    where = pick(r, ["", "", "traj", "analysis.traj"])
    if where == "":
        p = om.Problem(t, reports=None)
    else:
        m = om.Group()
        gg = m
        for x in where.split(".")[:-1]:
            gg = gg.add_subsystem(x, om.Group())
        gg.add_subsystem("traj", t)
        p = om.Problem(m, reports=None)
    pre = where + "." if where else ""
    traj.solve(p, r)
    slots = [dict(phase=i + 1, ppath=pre + nm + ".", leaf=lf, state=s, n=nn, key=s["key"]) for i, (nm, nn, lvs) in enumerate(phases) for lf in lvs for s in lf["states"]]
    linked = set()
    for k, s in enumerate(slots):
        for l in g["links"]:
            if l["to"] == s["phase"] and s["key"] not in l["skip"] and s["key"] in g["has"][l["from"] - 1]:
                linked.add(k)
    prog = dict(slots=[dict(phase=s["phase"], key=s["key"], n=s["n"]) for s in slots], links=[dict(**{"from": l["from"], "to": l["to"]}, skip=l["skip"]) for l in g["links"]])
    S = traj.Session(p, slots, [pre + nm + ".duration" for nm, _, _ in phases], rec, r, linked)
    S.durscale = {d: 1.0 for d in S.durs}
    return p, S, prog


def execute(job, rec):
    if job.get("reject"):
        return reject(rec)
    r = rng_of(*job["seed"])
    try:
        p, S, prog = build(job, r, rec)
        rec("New", prog=prog)
        other = None
        if r.integers(3) == 0:
            # another trajectory of the same process with all of its phases linked
            g = job["prog"]
            full = dict(prog=dict(n=g["n"], has=g["has"], links=[dict(**{"from": j, "to": j + 1}, skip=[]) for j in range(1, g["n"])]))
            other = build(full, rng_of("other", *job["seed"]), lambda *a, **k: None)
            other[0].setup(check=False)
        p.setup(check=False, mode=pick(r, ["fwd", "rev"]))
        p.final_setup()
        if r.integers(4) == 0:
            p.setup(check=False)
            p.final_setup()
        if other:
            other[0].final_setup()
            other[1].run(other[1].draw())
        A, B = S.draw(), S.draw()
        S.run(A)
        if r.integers(4) == 0 and all(l["from"] < l["to"] for l in job["prog"]["links"]):
            S.slope(A)
        S.run(B)
        S.run(A)
    except Exception as ex:
        rec("Exc", what=exc_text(ex))


def reject(rec):
    from openconcept.mission import TrajectoryGroup, PhaseGroup

    rec("New", prog=dict(slots=[], links=[]))
    for what, a, b in (("group as first phase", om.Group(), PhaseGroup()), ("group as second phase", PhaseGroup(), om.Group()), ("names", "a", "b")):
        try:
            TrajectoryGroup().link_phases(a, b)
            ok = False
        except Exception:
            ok = True
        rec("Reject", what=what, raised=ok)
