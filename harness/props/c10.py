"""C10: selector histories and orderings (SelectMC), data trees (LabelMC), interpolation; replayed in UtilTrace."""
import numpy as np
import openmdao.api as om
from common import *
from common import names as VN

TRACE = "UtilTrace"
UN = [None, "kg", "m/s", "degC", "W"]
ALT = {"kg": "lb", "m/s": "kn", "degC": "degK", "W": "hp", "ft": "m", "kg/m**3": "lb/ft**3"}


def mc(tier, seed):
    return [dict(module="SelectMC", cfg=f"SelectMC_{tier}.cfg"), dict(module="LabelMC", cfg=f"LabelMC_{tier}.cfg")]


def preload():
    import openconcept.utilities  # noqa


def jobs(emitted, tier, seed):
    r = rng_of("c10", seed)
    T = tier != "quick"
    pickn = lambda xs, k: [xs[i] for i in sorted(r.permutation(len(xs))[:k])]
    sel = [p for p in emitted[0] if p["kind"] == "select"]
    s1 = [p for p in sel if len(p["hist"]) == 1]
    s2 = [p for p in sel if len(p["hist"]) == 2]
    rk = [p for p in emitted[0] if p["kind"] == "rank"]
    out = [(f"sel-{i:05d}", dict(kind="sel", prog=p, seed=[seed, "s", i])) for i, p in enumerate(pickn(s1, 4000) + pickn(s2, 8000 if T else 400))]
    out += [(f"ext-{i:05d}", dict(kind="ext", prog=p, seed=[seed, "x", i])) for i, p in enumerate(pickn(rk, 4000))]
    out += [(f"dict-{i:05d}", dict(kind="dict", prog=p, seed=[seed, "d", i])) for i, p in enumerate(pickn(emitted[1], 6000 if T else 500))]
    out += [(f"interp-{i:04d}", dict(kind="interp", seed=[seed, "i", i])) for i in range(600 if T else 80)]
    out += [(f"label-{i:04d}", dict(kind="label", seed=[seed, "l", i])) for i in range(1500 if T else 150)]
    out.append(("reject", dict(kind="reject", seed=[0])))
    return out


def execute(job, rec):
    r = rng_of(*job["seed"])
    try:
        globals()["do_" + job["kind"]](job.get("prog"), r, rec)
    except Exception as ex:
        rec("Exc", what=exc_text(ex))


def do_sel(prog, r, rec):
    from openconcept.utilities import SelectorComp

    k, nn = prog["nopts"], prog["nn"]
    rec("New", prog=dict(nopts=k, nn=nn))
    u = pick(r, UN)
    names = VN(r, k)
    p = om.Problem(reports=None)
    kw = dict(units=u) if u else {}
    p.model.add_subsystem("c", SelectorComp(num_nodes=nn, input_names=names if r.integers(2) else tuple(names), **kw))
    p.setup(check=False)
    gu = dict(units=u) if u else {}
    for it, h in enumerate(prog["hist"]):
        x = np.round(r.normal(size=(k, nn)) * 50, 4)
        if r.integers(6) == 0:
            x[int(r.integers(k))] = 0.0
        for n, v in zip(names, x):
            p.set_val("c." + n, v, **gu)
        s = np.array(h["sel"], float) + (r.uniform(-0.499, 0.499, size=nn) * pick(r, [1.0, 1.0, 0.002]) + pick(r, [0.0, 0.0]) if r.integers(2) else 0.0)
        if r.integers(4) == 0:
            s = np.array(h["sel"], float) + r.choice([-0.497, 0.497], size=nn)
        p.set_val("c.selector", s)
        d = dict(sel=h["sel"], x=x, out=[], J=[], raised=False, what="")
        try:
            p.run_model()
            d["out"] = p.get_val("c.result", **gu).copy()
            J = p.compute_totals(of=["c.result"], wrt=["c." + n for n in names])
            d["J"] = [J["c.result", "c." + n] for n in names]
        except (Exception, RuntimeWarning) as ex:
            d.update(raised=True, what=exc_text(ex))
        rec("Sel", **d)


def do_ext(prog, r, rec):
    from openconcept.utilities import MaxComp, MinComp

    nn = prog["nn"]
    rec("New", prog=dict(nn=nn))
    u = pick(r, UN)
    kw = dict(units=u) if u else {}
    p = om.Problem(reports=None)
    p.model.add_subsystem("mx", MaxComp(num_nodes=nn, **kw))
    p.model.add_subsystem("mn", MinComp(num_nodes=nn, **kw))
    p.setup(check=False)
    rank = np.array(prog["hist"][0]["rank"])
    for it in range(2):
        levels = np.sort(np.round(r.normal(size=int(rank.max())) * pick(r, [1, 100, -100]) + pick(r, [0, 500, -500]), 3))
        x = levels[(rank if it == 0 else rank[::-1]) - 1]
        ties = int((x == x.max()).sum()) > 1 or int((x == x.min()).sum()) > 1
        for c in ("mx", "mn"):
            p.set_val(c + ".array", x, **kw)
        p.run_model()
        J = p.compute_totals(of=["mx.max", "mn.min"], wrt=["mx.array", "mn.array"])
        rec("Ext", x=x, ties=ties, mx=float(p.get_val("mx.max", **kw)[0]), mn=float(p.get_val("mn.min", **kw)[0]), Jmx=J["mx.max", "mx.array"], Jmn=J["mn.min", "mn.array"])


def do_interp(prog, r, rec):
    from openconcept.utilities import LinearInterpolator

    nn = int(r.integers(2, 14))
    rec("New", prog=dict(nn=nn))
    u = pick(r, UN)
    kw = dict(units=u) if u else {}
    p = om.Problem(reports=None)
    p.model.add_subsystem("c", LinearInterpolator(num_nodes=nn, **kw))
    p.setup(check=False)
    for it in range(3):
        a, b = (float(v) for v in np.round(r.normal(size=2) * 10.0 ** r.integers(-2, 5), 6))
        if r.integers(6) == 0:
            b = a
        p.set_val("c.start_val", a, **kw)
        p.set_val("c.end_val", b, **kw)
        p.run_model()
        J = p.compute_totals(of=["c.vec"], wrt=["c.start_val", "c.end_val"])
        rec("Interp", a=a, b=b, out=p.get_val("c.vec", **kw), Ja=J["c.vec", "c.start_val"], Jb=J["c.vec", "c.end_val"])


def value(form, r):
    v = float(np.round(r.normal() * 30, 3))
    return dict(int=lambda: int(r.integers(-9, 9)), float=lambda: v, npfloat=lambda: np.float64(v), vec1=lambda: np.array([v]), vec3=lambda: np.round(r.normal(size=3), 4), mat=lambda: np.round(r.normal(size=(2, 2)), 4))[form]()


def do_dict(prog, r, rec):
    from openconcept.utilities import DictIndepVarComp

    rec("New", prog=dict(tree="dict"))
    tree, want = {}, {}
    for x in prog["tree"]:
        d = tree
        for k in x["path"]:
            d = d.setdefault(k, {})
        d["value"] = value(x["form"], r)
        if x["units"] != "absent":
            d["units"] = None if x["units"] == "none" else x["units"]
        want[tuple(x["path"])] = (np.atleast_1d(np.array(d["value"], float)).copy(), None if x["units"] in ("absent", "none") else x["units"])
    tree.setdefault("cc", {}).setdefault("b", {})["units"] = "ft"
    sep = pick(r, ["|", "|", ":"])
    c = DictIndepVarComp(tree)
    dymos, given = None, []
    if r.integers(2):
        from openconcept.utilities import DymosDesignParamsFromDict

        class Trajectory:
            """what the loader needs of a Dymos trajectory"""
            _phases = {n: None for n in VN(r, int(r.integers(1, 4)))}

            def add_design_parameter(self, name, **kw):
                given.append((name, kw))

        dymos = DymosDesignParamsFromDict(tree, Trajectory())
    got = []
    for x in prog["reads"]:
        nm = sep.join(x["path"])
        try:
            if sep == "|":
                c.add_output_from_dict(nm)
            else:
                c.add_output_from_dict(nm, separator=sep)
            raised, what = False, ""
            got.append(x["path"])
        except KeyError as ex:
            raised, what = True, exc_text(ex)
        rec("Read", path=x["path"], outcome=x["outcome"], raised=raised, what=what)
        if dymos:
            try:
                dymos.add_output_from_dict(nm, **({} if sep == "|" else dict(separator=sep)))
                raised, what = False, ""
            except KeyError as ex:
                raised, what = True, exc_text(ex)
            rec("Read", path=x["path"], outcome=x["outcome"], raised=raised, what=what)
    if dymos:
        V = []
        for path, (nm, kw) in zip(got, given):
            w, u = want[tuple(path)]
            v = np.array(kw["val"], float)
            ok = nm == sep.join(path) and kw["targets"] == {n: [nm] for n in Trajectory._phases}
            V.append(dict(out=v if ok else v * np.nan, given=w, units=kw["units"] or "none", wantunits=u or "none", shape=list(v.shape), wantshape=list(w.shape)))
        rec("Carry", vars=V)
        if len(given) != len(got):
            rec("Exc", what=f"{len(given)} parameters of {len(got)} reach the trajectory")
    if not got:
        return
    p = om.Problem(reports=None)
    p.model.add_subsystem("iv", c, promotes=["*"])
    p.setup(check=False)
    p.run_model()
    meta = p.model.get_io_metadata("output", metadata_keys=["units", "shape"])
    byprom = {m["prom_name"]: m for m in meta.values()}

    def carry(prob):
        V = []
        for path in got:
            nm = sep.join(path)
            m = byprom[nm]
            w, u = want[tuple(path)]
            if u and m["units"]:
                alt = ALT[u]
                o = om.convert_units(prob.get_val(nm, units=alt), alt, u)
            else:
                o = prob.get_val(nm).copy()
            V.append(dict(out=o, given=w, units=m["units"] or "none", wantunits=u or "none", shape=list(m["shape"]), wantshape=list(w.shape)))
        rec("Carry", vars=V)

    carry(p)
    # changing the variables of this model does not change the data for the next one
    for path in got:
        p.set_val(sep.join(path), 77.0)
    p.run_model()
    c2 = DictIndepVarComp(tree)
    for path in got:
        c2.add_output_from_dict(sep.join(path), separator=sep)
    p2 = om.Problem(reports=None)
    p2.model.add_subsystem("iv", c2, promotes=["*"])
    p2.setup(check=False)
    p2.run_model()
    carry(p2)


def do_label(prog, r, rec):
    from openconcept.utilities import DVLabel

    rec("New", prog=dict(tree="label"))
    n = int(r.integers(1, 6))
    vary = VN(r, n) if r.integers(2) else None
    L, W = [], []
    for i in range(n):
        u = pick(r, UN)
        v = pick(r, [1.0, 2, np.ones(3), np.ones((2, 3)), np.array([4.0])])
        nm = f"ac|geom|v{i}"
        if vary:
            nm = vary[i]
        L.append([f"src{i}" if r.integers(2) else nm + "_in", nm, v, u])
        W.append((L[-1][0], nm, np.array(v, float), u))
    c = DVLabel(L)
    p = om.Problem(reports=None)
    p.model.add_subsystem("lab", c)
    p.setup(check=False)
    for it in range(3):
        if it == 2:
            p.setup(check=False)
        X = []
        for a, b, v, u in W:
            x = np.round(r.normal(size=np.atleast_1d(v).shape) * 20, 4)
            X.append(x)
            if u:
                alt = pick(r, [u, ALT[u]])
                p.set_val("lab." + a, om.convert_units(x, u, alt), units=alt)
            else:
                p.set_val("lab." + a, x)
        p.run_model()
        meta = p.model.get_io_metadata("output", metadata_keys=["units", "shape"])
        J = p.compute_totals(of=["lab." + w[1] for w in W], wrt=["lab." + w[0] for w in W])
        V = []
        for k, ((a, b, v, u), x) in enumerate(zip(W, X)):
            m = meta["lab." + b]
            V.append(dict(given=x, out=p.get_val("lab." + b, units=u) if u else p.get_val("lab." + b), units=m["units"] or "none", wantunits=u or "none",
                          shape=list(m["shape"]), wantshape=list(np.atleast_1d(v).shape), J=J["lab." + b, "lab." + a],
                          cross=max([0.0] + [float(np.abs(J["lab." + b, "lab." + W[j][0]]).max()) for j in range(n) if j != k])))
        rec("Carry", vars=V)


def do_reject(prog, r, rec):
    from openconcept.utilities import SelectorComp

    rec("New", prog=dict(tree="none"))
    try:
        p = om.Problem(reports=None)
        p.model.add_subsystem("c", SelectorComp(num_nodes=2))
        p.setup(check=False)
        ok = False
    except Exception:
        ok = True
    rec("Reject", what="selector without options", raised=ok)
