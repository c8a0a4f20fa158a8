"""Drivers of the vector-relation components (C07, C08, C09)."""
import numpy as np
import openmdao.api as om
from openmdao.utils.units import _find_unit
from common import *
from common import names as VN

UNITS = [("kg", ["lb", "g", "kg"]), ("m", ["ft", "km", "inch"]), ("m/s", ["kn", "ft/s"]), ("N*m", ["lbf*ft"]), ("W", ["hp", "kW"]), ("s", ["min", "h"]), ("ft", ["m"]), ("lb", ["kg"]), ("1/s", ["1/min"]), ("kg/m**3", ["lb/ft**3"])]


def si(u):
    if u is None:
        return 1.0, [0] * 9
    if u in ("1/1", "1"):
        return 1.0, [0] * 9
    x = _find_unit(u)
    return float(x._factor), [int(v) for v in x._powers][:9] + [0] * (9 - len(x._powers))


def shape(n, ln):
    return (n,) if ln == 1 else (n, ln)


def run_math(job, rec):
    from openconcept.utilities import AddSubtractComp, ElementMultiplyDivideComp

    prog, kind = job["prog"], job["kind"]
    r = rng_of(*job["seed"])
    rec("New", prog=prog)
    cls = AddSubtractComp if kind == "add" else ElementMultiplyDivideComp
    E = []
    dup = bool(job.get("dup"))
    try:
        comp = None
        pool = VN(r, sum(q["nin"] + 1 for q in prog["eqs"])) if r.integers(2) else None
        for k, (q, st) in enumerate(zip(prog["eqs"], prog["styles"])):
            nin = q["nin"]
            d = dict(out=f"out{k}" if not (dup and k) else "out0", names=[f"x{k}_{i}" for i in range(nin)], div=q["div"])
            if r.integers(3) == 0:
                d["names"] = [f"grp{k}|{n}" for n in d["names"]]
            if pool and not dup:
                d["out"], d["names"] = pool.pop(), [pool.pop() for _ in range(nin)]
            kw = dict(vec_size=list(q["vec"]) if q["multi"] else int(q["vec"][0]), length=q["len"])
            if kind == "add":
                d["u"] = [pick(r, UNITS)[0] if q["um"] != "none" else None] * nin
                if q["um"] != "none":
                    kw["units"] = d["u"][0]
                d["sf"] = [1.0] * nin
                if q["nsf"]:
                    sf = [float(np.round(v, 3)) for v in r.normal(size=q["nsf"]) * 3]
                    if r.integers(2):
                        sf = [pick(r, [1, -1]) for _ in sf]
                    kw["scaling_factors"] = sf
                    d["sf"] = sf[:nin]
            else:
                pat = dict(none=lambda i: False, all=lambda i: True, odd=lambda i: i % 2 == 0, even=lambda i: i % 2 == 1)[q["um"]]
                d["u"] = [pick(r, UNITS)[0] if pat(i) else None for i in range(nin)]
                if q["nun"]:
                    kw["input_units"] = (d["u"] + [None])[: q["nun"]]
                d["sf"] = [1.0]
                if q["sf"]:
                    d["sf"] = [float(np.round(r.normal() * 4, 3)) or 2.0]
                    kw["scaling_factor"] = d["sf"][0]
                if q["ndiv"]:
                    kw["divide"] = (list(q["div"]) + [False])[: q["ndiv"]]
            d["val"] = 1.0
            if r.integers(2):
                d["val"] = kw["val"] = float(np.round(r.normal(), 3))
            d["bounds"] = []
            if q["bnd"]:
                kw.update(lower=-1e6, upper=1e6, desc="a quantity")
                d["bounds"] = [-1e6, 1e6]
            E.append(d)
            nm = d["names"][0] if (nin == 1 and r.integers(2)) else d["names"]
            if st == "init":
                comp = cls(d["out"], nm, **kw)
            else:
                if comp is None:
                    comp = cls()
                comp.add_equation(d["out"], nm, **kw)
            d["q"] = q
        p = om.Problem(reports=None)
        p.model.add_subsystem("c", comp)
        p.setup(check=False)
        p.final_setup()
    except Exception as ex:
        rec("Setup", raised=True, what=exc_text(ex), dup=dup)
        return
    rec("Setup", raised=False, what="", dup=dup)
    if dup or not prog["legal"]:
        return
    try:
        meta = p.model.get_io_metadata(metadata_keys=["units", "lower", "upper", "val"])
        M = []
        for d in E:
            m = meta["c." + d["out"]]
            f = lambda v: float(np.ravel(v)[0])
            M.append(dict(val=np.ravel(m["val"]), wantval=d["val"], bounds=[f(m["lower"]), f(m["upper"])] if d["bounds"] else [], wantbounds=d["bounds"]))
            unit = lambda u: [0.0 if u is None else 1.0, si(u)[0]] + si(u)[1]
            M[-1].update(units=[unit(meta["c." + n]["units"]) for n in d["names"]], wantunits=[unit(u) for u in d["u"]])
            if kind == "add":
                M[-1]["units"].append(unit(m["units"]))
                M[-1]["wantunits"].append(unit(d["u"][0]))
        rec("Meta", meta=M)

        def point():
            X = []
            for d in E:
                x = []
                for i in range(d["q"]["nin"]):
                    v = np.round(r.normal(size=shape(d["q"]["vec"][i], d["q"]["len"])) * 10.0 ** r.integers(-1, 3), 4)
                    v = np.where(np.abs(v) < 0.05, 0.7, v)
                    if kind == "add" or not (d["div"] and d["div"][i]):
                        if r.integers(5) == 0:
                            v = v * 0.0 if r.integers(2) else np.where(v < np.median(v), 0.0, v)
                    x.append(v)
                X.append(x)
            return X

        def run(X):
            Q = []
            for d, x in zip(E, X):
                for n, v, u in zip(d["names"], x, d["u"]):
                    if u is None:
                        p.set_val("c." + n, v)
                    else:
                        alt = pick(r, dict(UNITS)[u] + [u])
                        p.set_val("c." + n, om.convert_units(v, u, alt), units=alt)
            p.run_model()
            om_ = p.model.get_io_metadata("output", metadata_keys=["units"])
            for d, x in zip(E, X):
                q = dict(x=x, sf=d["sf"])
                if kind == "add":
                    q["y"] = p.get_val("c." + d["out"], units=d["u"][0]).copy() if d["u"][0] else p.get_val("c." + d["out"]).copy()
                else:
                    yf, yp = si(om_["c." + d["out"]]["units"])
                    a = [si(u) for u in d["u"]]
                    q.update(y=p.get_val("c." + d["out"]).copy(), yfac=yf, ypow=yp, ufac=[t[0] for t in a], upow=[t[1] for t in a])
                Q.append(q)
            rec("Run", q=Q)
            return Q

        def jac(Q):
            of = ["c." + d["out"] for d in E]
            wrt = ["c." + n for d in E for n in d["names"]]
            J = p.compute_totals(of=of, wrt=wrt)
            for a, (d, q) in enumerate(zip(E, Q)):
                q["J"] = [J["c." + d["out"], "c." + n] for n in d["names"]]
                q["cross"] = max([0.0] + [float(np.abs(J["c." + d["out"], "c." + n]).max()) for b, d2 in enumerate(E) if b != a for n in d2["names"]])
            rec("Jac", q=Q)

        A, B = point(), point()
        jac(run(A))
        jac(run(B))
        if r.integers(2):
            # a second component of the same class changes nothing
            o = cls("other", ["m", "n"], vec_size=2)
            p2 = om.Problem(reports=None)
            p2.model.add_subsystem("c", o)
            p2.setup(check=False)
            p2.run_model()
            jac(run(A))
        p.setup(check=False, mode=pick(r, ["fwd", "rev"]))
        jac(run(A))
        run(B)
        jac(run(A))
        if r.integers(3) == 0:
            # the same slopes by complex step through the whole model
            p.model.approx_totals(method="cs")
            p.setup(check=False)
            jac(run(B))
    except Exception as ex:
        rec("Exc", what=exc_text(ex))


def run_parts(job, rec):
    from openconcept.utilities import VectorConcatenateComp, VectorSplitComp

    prog = job["prog"]
    r = rng_of(*job["seed"])
    rec("New", prog=prog)
    R = prog["rels"]
    kind = R[0]["kind"]
    dup = bool(job.get("dup"))
    try:
        cat = spl = None
        use_init = bool(r.integers(2))
        D = []
        vary = bool(r.integers(2)) and not dup
        pool = VN(r, sum(q["nparts"] + 1 for q in R))
        WN = [pool.pop() if vary else f"whole{k}" for k in range(len(R))]
        PN = [[pool.pop() if vary else f"part{k}_{i}" for i in range(q["nparts"])] for k, q in enumerate(R)]
        # in a round trip the two components may hold the relations in different orders
        def build(cls, order, which):
            comp = None
            for k in order:
                q = R[k]
                w = "whole0" if dup else WN[k]
                parts = list(PN[k])
                if dup and cls is VectorSplitComp:
                    parts = ["part0_0"] * len(parts)
                kw = dict(length=q["len"])
                if q["um"] == "units":
                    kw["units"] = D[k]["u"]
                a = (w, parts, list(q["sizes"])) if cls is VectorConcatenateComp else (parts, w, list(q["sizes"]))
                if comp is None and use_init:
                    comp = cls(*a, **kw)
                else:
                    comp = comp or cls()
                    comp.add_relation(*a, **kw)
            return comp

        for q in R:
            D.append(dict(u=pick(r, UNITS)[0] if q["um"] == "units" else None))
        n = len(R)
        p = om.Problem(reports=None)
        if kind in ("cat", "catsplit", "splitcat"):
            cat = build(VectorConcatenateComp, list(range(n)), "cat")
        if kind in ("split", "catsplit", "splitcat"):
            spl = build(VectorSplitComp, list(range(n)) if kind == "split" else [int(i) for i in r.permutation(n)], "split")
        if kind == "cat":
            p.model.add_subsystem("cat", cat)
        elif kind == "split":
            p.model.add_subsystem("split", spl)
        elif kind == "catsplit":
            p.model.add_subsystem("cat", cat)
            p.model.add_subsystem("split", spl)
            for k in range(n):
                p.model.connect("cat." + WN[k], "split." + WN[k])
        else:
            p.model.add_subsystem("split", spl)
            p.model.add_subsystem("cat", cat)
            for k, q in enumerate(R):
                for i in range(q["nparts"]):
                    p.model.connect("split." + PN[k][i], "cat." + PN[k][i])
        p.setup(check=False)
        p.final_setup()
    except Exception as ex:
        rec("Setup", raised=True, what=exc_text(ex), dup=dup)
        return
    rec("Setup", raised=False, what="", dup=dup)
    if dup or not prog["legal"]:
        return
    try:
        src = "cat" if kind.startswith("cat") else "split"
        dst = "split" if kind in ("split", "catsplit") else "cat"

        def names(k, side, comp):
            # side: the variables of relation k on a component: parts or the whole
            return [comp + "." + x for x in PN[k]] if side == "parts" else [comp + "." + WN[k]]

        gside = "parts" if src == "cat" else "whole"
        oside = "parts" if dst == "split" else "whole"

        def getv(ns, u):
            v = [p.get_val(x, units=u).copy() if u else p.get_val(x).copy() for x in ns]
            return v

        def point():
            G = []
            for q in R:
                s = q["sizes"] if gside == "parts" else [sum(q["sizes"])]
                G.append([np.round(r.normal(size=shape(m, q["len"])) * 100, 5) for m in s])
            return G

        def run(G):
            for k, (q, g) in enumerate(zip(R, G)):
                u = D[k]["u"]
                for nme, v in zip(names(k, gside, src), g):
                    if u:
                        alt = pick(r, dict(UNITS)[u] + [u])
                        p.set_val(nme, om.convert_units(v, u, alt), units=alt)
                    else:
                        p.set_val(nme, v)
            p.run_model()
            Q = []
            for k, (q, g) in enumerate(zip(R, G)):
                o = getv(names(k, oside, dst), D[k]["u"])
                d = dict(given=g if gside == "parts" else g[0], out=o if oside == "parts" else o[0])
                if kind == "catsplit":
                    d["mid"] = getv(["cat." + WN[k]], D[k]["u"])[0]
                if kind == "splitcat":
                    d["mid"] = getv(["split." + x for x in PN[k]], D[k]["u"])
                Q.append(d)
            rec("Run", q=Q)
            return Q

        def jac():
            of = [x for k in range(n) for x in names(k, oside, dst)]
            wrt = [x for k in range(n) for x in names(k, gside, src)]
            J = p.compute_totals(of=of, wrt=wrt)
            Q = []
            for k in range(n):
                M = np.block([[J[o, w] for w in names(k, gside, src)] for o in names(k, oside, dst)])
                c = [float(np.abs(J[o, w]).max()) for o in names(k, oside, dst) for j in range(n) if j != k for w in names(j, gside, src)]
                Q.append(dict(J=M, cross=max([0.0] + c)))
            rec("Jac", q=Q)

        A, B = point(), point()
        run(A)
        jac()
        run(B)
        p.setup(check=False, mode=pick(r, ["fwd", "rev"]))
        run(A)
        jac()
        run(B)
        if r.integers(3) == 0:
            p.model.approx_totals(method="cs")
            p.setup(check=False)
            run(A)
            jac()
    except Exception as ex:
        rec("Exc", what=exc_text(ex))


def run_reject(job, rec):
    from openconcept.utilities import AddSubtractComp, ElementMultiplyDivideComp, VectorConcatenateComp, VectorSplitComp

    rec("New", prog=dict(eqs=[]))

    def case(what, fn):
        try:
            fn()
            ok = False
        except Exception:
            ok = True
        rec("Reject", what=what, raised=ok)

    if job["kind"] in ("add", "mul"):
        c = AddSubtractComp if job["kind"] == "add" else ElementMultiplyDivideComp
        case("list of outputs in the constructor", lambda: c(["a", "b"], ["x", "y"]))
        case("number as output name", lambda: c(3.0, ["x", "y"]))
        case("add_output", lambda: c().add_output())
    else:
        for c, a in ((VectorConcatenateComp, True), (VectorSplitComp, False)):
            mk = (lambda w, ps, s: c(w, ps, s)) if a else (lambda w, ps, s: c(ps, w, s))
            case("list of whole names", lambda: mk(["w"], ["a", "b"], [1, 2]))
            case("number as whole name", lambda: mk(3.0, ["a", "b"], [1, 2]))
            case("no sizes", lambda: mk("w", ["a", "b"], None))
            case("one size for several parts", lambda: mk("w", ["a", "b"], 3))
            case("no sizes when added", lambda: (c().add_relation("w", ["a", "b"], 3) if a else c().add_relation(["a", "b"], "w", 3)))
            case("add_output", lambda: c().add_output())


def sample(items, k, r):
    return [items[i] for i in sorted(r.permutation(len(items))[:k])]
