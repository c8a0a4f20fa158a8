"""Builds phases and trajectories from declaration programs (C02, C03) through the public mission API."""
import numpy as np
import openmdao.api as om
from common import *

QU = [("kg", ["lb", "g"]), ("m", ["ft", "km"]), ("J", ["kJ"]), ("m/s", ["kn"])]


def new_leaf(path, kind, tu, states, promdur=False, up=False):
    return dict(up=up, path=path, kind=kind, tu=tu, states=states, promdur=promdur)


def rate_units(q, t):
    return f"({q})/{t}" if q else f"1/{t}"


def solve(p, r):
    """rates are integrated by a component that may run before them, so a phase is run under a solver"""
    m = p.model
    if r.integers(2):
        m.nonlinear_solver = om.NewtonSolver(solve_subsystems=True, maxiter=6, atol=1e-13, rtol=1e-13, iprint=-1, err_on_non_converge=False)
    else:
        m.nonlinear_solver = om.NonlinearBlockGS(maxiter=20, atol=1e-13, rtol=1e-13, iprint=-1, err_on_non_converge=False)
    m.linear_solver = om.DirectSolver()


def make_leaf(leaf, nn):
    """an IntegratorGroup (auto) or a plain group holding an explicit Integrator (manual)"""
    from openconcept.mission import IntegratorGroup
    from openconcept.utilities import Integrator

    def comps(grp):
        for k, s in enumerate(leaf["states"]):
            tags = []
            if leaf["kind"] == "auto":
                tags = ["integrate"]
                if s.get("name_tag", True):
                    tags.append("state_name:" + s["name"])
                if s["units"]:
                    tags.append("state_units:" + s["units"])
                if s.get("val") is not None:
                    tags.append("state_val:" + s["valtext"])
                if s.get("bounds"):
                    tags += [f"state_lower:{s['bounds'][0]}", f"state_upper:{s['bounds'][1]}"]
                if s.get("prom") is not None:
                    tags.append(f"state_promotes:{s['prom']}")
            rn = s["rate"]
            c = om.ExecComp([f"{rn} = x * 1.0"], **{rn: dict(val=np.ones(nn), units=s["ru"], tags=tags), "x": dict(val=np.ones(nn), units=s["ru"])}, has_diag_partials=True)
            grp.add_subsystem(f"r{k}", c, promotes_outputs=[rn] if s.get("rprom") else None)

    if leaf["kind"] == "auto":

        class Leaf(IntegratorGroup):
            def initialize(self):
                self.options.declare("num_nodes", default=1)

            def setup(self):
                comps(self)

        return Leaf(num_nodes=nn, time_units=leaf["tu"]) if leaf["tu"] != "s" else Leaf(num_nodes=nn)

    class Man(om.Group):
        def setup(self):
            comps(self)
            integ = Integrator(num_nodes=nn, method="simpson", time_setup="duration", diff_units=leaf["tu"])
            self.add_subsystem("ode_integ", integ, promotes_inputs=["duration"] if leaf["promdur"] else None)
            for k, s in enumerate(leaf["states"]):
                kw = {}
                if s.get("val") is not None:
                    kw["val"] = s["val"]
                if s.get("bounds"):
                    kw.update(lower=s["bounds"][0], upper=s["bounds"][1])
                if s.get("final_only"):
                    kw["final_only"] = True
                if s.get("start_name"):
                    kw["start_name"] = s["start_name"]
                if s.get("end_name"):
                    kw["end_name"] = s["end_name"]
                integ.add_integrand(s["name"], rate_name=s["rate"], units=s["units"], **kw)
                self.connect(f"r{k}.{s['rate']}", "ode_integ." + s["rate"])

    return Man()


def make_phase(leaves, nn, dur, duru="s", users=False):
    from openconcept.mission import PhaseGroup

    class Phase(PhaseGroup):
        def setup(self):
            if dur:
                self.add_subsystem("iv", om.IndepVarComp("duration", val=5.0, units=duru), promotes_outputs=["duration"])
            groups = {}
            for lf in leaves:
                parts = lf["path"].split(".")
                g = self
                for i, x in enumerate(parts[:-1]):
                    key = ".".join(parts[: i + 1])
                    if key not in groups:
                        groups[key] = g.add_subsystem(x, om.Group())
                    g = groups[key]
                up = [s["name"] for s in lf["states"]] if lf["up"] else []
                g.add_subsystem(parts[-1], make_leaf(lf, nn), promotes_outputs=[n + x for n in up for x in ("", "_final")] or None, promotes_inputs=[n + "_initial" for n in up] or None)
            if users:
                # another component of the phase that uses the duration
                self.add_subsystem("user", om.ExecComp("y = 2*duration", duration={"units": "s"}), promotes_inputs=["duration"])

    return Phase(num_nodes=nn)


def addr(phase, leaf, s, what=""):
    base = (phase + "." if phase else "") + leaf["path"] + "."
    nm = {"": s["name"], "_initial": s.get("start_name") or s["name"] + "_initial", "_final": s.get("end_name") or s["name"] + "_final"}[what]
    if leaf["up"]:
        return (phase + "." if phase else "") + nm
    if leaf["kind"] == "auto" and s.get("prom"):
        return base + nm
    return base + "ode_integ." + nm


def random_rate(r, n):
    k = int(r.integers(4))
    if k == 0:
        return np.full(n, float(r.normal()))
    if k == 1:
        return np.zeros(n)
    return r.normal(size=n) * 10.0 ** r.integers(-1, 2)


class Session:
    """slots: list of (phase index, phase path, leaf, state, n)"""

    def __init__(self, p, slots, durs, rec, r, linked):
        self.p, self.slots, self.durs, self.rec, self.r = p, slots, durs, rec, r
        self.linked = linked      # indices of slots whose start value comes from a link

    def draw(self):
        r = self.r
        return dict(dur=[float(r.uniform(0.5, 300)) for _ in self.durs],
                    s=[dict(rate=random_rate(r, sl["n"]), q0=float(np.round(r.normal() * 20, 4))) for sl in self.slots])

    def set(self, x):
        p, r = self.p, self.r
        for d, v in zip(self.durs, x["dur"]):
            u = pick(r, ["s", "min"])
            p.set_val(d, om.convert_units(v, "s", u), units=u)
        for k, (sl, s) in enumerate(zip(self.slots, x["s"])):
            st, lf = sl["state"], sl["leaf"]
            canon = rate_units(st["units"], "s")
            p.set_val(sl["ppath"] + lf["path"] + f".r{lf['states'].index(st)}.x", om.convert_units(s["rate"], canon, st["ru"]))
            if k not in self.linked:
                n = addr(sl["ppath"].rstrip("."), lf, st, "_initial")
                if st["units"]:
                    u = pick(r, [st["units"]] + dict(QU)[st["units"]])
                    p.set_val(n, om.convert_units(s["q0"], st["units"], u), units=u)
                else:
                    p.set_val(n, s["q0"])

    def run(self, x):
        self.set(x)
        self.p.run_model()
        o = []
        for sl, s in zip(self.slots, x["s"]):
            st, lf = sl["state"], sl["leaf"]
            kw = dict(units=st["units"]) if st["units"] else {}
            g = lambda w: self.p.get_val(addr(sl["ppath"].rstrip("."), lf, st, w), **kw).copy()
            o.append(dict(rate=s["rate"], q0=s["q0"], q=[] if st.get("final_only") else g(""), qf=float(g("_final")[0])))
        self.rec("Run", dur=x["dur"], s=o)
        return np.array([v["qf"] for v in o])

    def meta(self):
        m = self.p.model.get_io_metadata("output", metadata_keys=["units", "shape", "lower", "upper"])
        M = []
        for sl in self.slots:
            st, lf = sl["state"], sl["leaf"]
            a = sl["ppath"] + lf["path"] + ".ode_integ." + st["name"]
            mm = m[a]
            f = lambda v: float(np.ravel(v)[0])
            b = st.get("bounds")
            # units are compared by value (a declared unit may be reported in an equivalent spelling)
            same = mm["units"] == st["units"] or (mm["units"] and st["units"] and om.convert_units(1.0, mm["units"], st["units"]) == 1.0)
            M.append(dict(units=st["units"] or "none" if same else str(mm["units"]), wantunits=st["units"] or "none", shape=int(mm["shape"][0]),
                          val=self.p.get_val(addr(sl["ppath"].rstrip("."), lf, st)).copy(), wantval=np.zeros(sl["n"]) + (st["val"] if st.get("val") is not None else 0.0),
                          bounds=[f(mm["lower"]), f(mm["upper"])] if b else [], wantbounds=b or []))
        self.rec("Meta", meta=M)

    def slope(self, x):
        """total derivative along a random direction against a central difference (the map is bilinear)"""
        r, p = self.r, self.p
        dx = dict(dur=[float(v) for v in r.normal(size=len(x["dur"]))], s=[dict(rate=r.normal(size=len(s["rate"])), q0=float(r.normal())) for s in x["s"]])
        of = [addr(sl["ppath"].rstrip("."), sl["leaf"], sl["state"], "_final") for sl in self.slots]
        keep = self.rec
        self.rec = lambda *a, **k: None
        mv = lambda t: dict(dur=[a + t * b for a, b in zip(x["dur"], dx["dur"])], s=[dict(rate=a["rate"] + t * b["rate"], q0=a["q0"] + t * b["q0"]) for a, b in zip(x["s"], dx["s"])])
        h = 1e-3
        fp, fm = self.run(mv(h)), self.run(mv(-h))
        y = self.run(x)
        self.rec = keep
        wrt, d = list(self.durs), {}
        for dn, v in zip(self.durs, dx["dur"]):
            d[dn] = np.array([v]) * self.durscale[dn]
        for k, sl in enumerate(self.slots):
            st, lf = sl["state"], sl["leaf"]
            n = sl["ppath"] + lf["path"] + f".r{lf['states'].index(st)}.x"
            wrt.append(n)
            d[n] = om.convert_units(dx["s"][k]["rate"], rate_units(st["units"], "s"), st["ru"])
            if k not in self.linked:
                n = addr(sl["ppath"].rstrip("."), lf, st, "_initial")
                wrt.append(n)
                d[n] = np.array([dx["s"][k]["q0"]])
        J = p.compute_totals(of=of, wrt=wrt)
        ad = [float(sum(np.ravel(J[o, w] @ d[w])[0] for w in wrt)) for o in of]
        keep("Slope", ad=ad, fd=(fp - fm) / (2 * h), tol=1e-7 * max(1.0, float(np.abs(y).max())))
