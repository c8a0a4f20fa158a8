"""C26: engine sessions from EngineMC run on the real decks and rubberized engines, decided in EngineTrace."""
import functools, hashlib, os
import numpy as np
import openmdao.api as om
from common import *

TRACE = "EngineTrace"
LBF, LBM = 4.4482216152605, 0.45359237
AUXU = dict(CFM56=("T4", "degK"), N3=("surge_margin", None), N3Hybrid=("surge_margin", None))
SIU = dict(thrust="N", fuel_flow="kg/s")
ASSUMPTIONS = ["the Kriging weights cached beside the deck are used only when their checksum matches the data of the deck; otherwise only the data is judged"]


class Untrained(Exception):
    pass


def guard():
    """a deck whose data has no trained surrogate beside it is not trained here (that takes minutes and writes into the tree)"""
    from openmdao.surrogate_models.kriging import KrigingSurrogate as K
    if getattr(K, "_guarded", False):
        return
    plain = K.train

    def train(self, x, y):
        c = self.options["training_cache"]
        if c:
            h = hashlib.md5()
            x2, y2 = np.atleast_2d(x, y)
            h.update(x2.flatten())
            h.update(y2.flatten())
            try:
                ok = str(np.load(c, allow_pickle=False)["hash"]) == h.hexdigest()
            except Exception:
                ok = False
            if not ok:
                raise Untrained(os.path.basename(c))
        return plain(self, x, y)

    K.train, K._guarded = train, True


def preload():
    import openconcept.propulsion  # noqa
    guard()


def mc(tier, seed):
    return [dict(module="EngineMC", cfg=f"EngineMC_{tier}.cfg")]


def jobs(emitted, tier, seed):
    r = rng_of("c26", seed)
    H = emitted[0]
    out = [(f"data-{d}", dict(data=d)) for d in AUXU]
    by = {}
    for h in H:
        e = h["eng"]
        by.setdefault((e["deck"], e["rubber"], e["hydrogen"], e["nn"]), []).append(h)
    n = 12 if tier == "quick" else 120
    for key in sorted(by):
        hs = by[key]
        for k, i in enumerate(r.permutation(len(hs))[:n]):
            out.append(("eng-%s-%d%d-%d-%d" % (*key, k), dict(hist=hs[int(i)], seed=[seed, "e", *key, k])))
    return out


@functools.lru_cache(None)
def raw(deck):
    import openconcept
    root = openconcept.__path__[0] + "/propulsion/empirical_data/"
    L = lambda f: np.load(root + f)
    if deck == "CFM56":
        q = [L("cfm56/cfm56%s.npy" % n) for n in ("thrust", "wf", "t4")]
        return dict(thrust=q[0], slices=[(0, q[0] > 0, q[1], q[2])], throttle=np.broadcast_to(np.arange(1000, 100, -100), (8, 9, 9)),
                    mach=np.broadcast_to(np.arange(800, -100, -100)[:, None], (8, 9, 9)), alt=np.broadcast_to(np.arange(35000, -5000, -5000)[:, None, None], (8, 9, 9)))
    d = "n+3/" if deck == "N3" else "n+3_hybrid/"
    t = L(d + "power_off/thrust.npy")
    sl = []
    for kw, s in ((0, "power_off"),) if deck == "N3" else ((0, "power_off"), (500, "power_on_500kW"), (1000, "power_on_1MW")):
        f, a = L(d + s + "/wf.npy"), L(d + s + "/SMW.npy")
        sl.append((kw, f > 0, f, a))
    i = lambda x, m: np.rint(x * m).astype(int)
    return dict(thrust=t, slices=sl, throttle=i(L(d + "power_off/throttle.npy"), 1000), mach=i(L(d + "power_off/mach.npy"), 1000), alt=i(L(d + "power_off/alt.npy"), 1))


def s9(x):
    return [s9(v) for v in x] if np.ndim(x) else "%.9e" % float(x)


def klass(deck):
    import openconcept.propulsion as P
    return getattr(P, deck)


def data(deck, rec):
    R = raw(deck)
    c = klass(deck)(num_nodes=2)
    p = om.Problem(reports=None)
    p.model.add_subsystem("c", c, promotes=["*"])
    p.setup()
    try:
        tr = [np.array(c.options["train_" + n], float).ravel() for n in ("throttle", "fltcond|h", "fltcond|M")]
        tr.append(np.array(c.options["train_hybrid_power"], float).ravel() if deck == "N3Hybrid" else np.zeros(len(tr[0])))
        tr += [np.array(c.options["train_" + n], float).ravel() for n in ("thrust", "fuel_flow", AUXU[deck][0])]
    except KeyError:
        rec("Skip", why="the deck does not show its data")
        return
    rows = [[int(np.rint(a * 1000)), int(np.rint(h)), int(np.rint(m * 1000)), int(np.rint(w))] + s9([t, f, x]) for a, h, m, w, t, f, x in zip(*tr)]
    ints = lambda a: np.asarray(a).tolist()
    rec("Deck", deck=deck, rows=rows, raw=dict(thrust=s9(R["thrust"]), throttle=ints(R["throttle"]), mach=ints(R["mach"]), alt=ints(R["alt"]),
        slices=[dict(kw=w, ok=ints(ok), fuel=s9(f), aux=s9(a)) for w, ok, f, a in R["slices"]]))


class Engine:
    def __init__(self, eng, nn, rubber, mode="fwd", deep=False):
        self.eng, self.nn, self.rubber, self.deck = eng, nn, rubber, eng["deck"]
        p = self.p = om.Problem(reports=None)
        if rubber:
            from openconcept.propulsion import RubberizedTurbofan
            o = dict(num_nodes=nn, hydrogen=eng["hydrogen"], engine=self.deck)
            if eng.get("bare") and not eng["hydrogen"]:
                o.pop("hydrogen")
            if eng.get("bare") and self.deck == "N3":
                o.pop("engine")
            m = RubberizedTurbofan(**o)
        else:
            m = klass(self.deck)(num_nodes=nn)
        if deep:
            g = p.model.add_subsystem("g", om.Group(), promotes=["*"])
            g.add_subsystem("turbofan", m, promotes=["*"])
        else:
            p.model.add_subsystem("turbofan", m, promotes=["*"])
        p.setup(mode=mode)
        self.bare = False
        ax, au = AUXU[self.deck]
        self.names = dict(thrust=("thrust", "N"), fuel=("fuel_flow", "kg/s"), aux=(ax, au))

    def set(self, x, r=None):
        u = (lambda *a: pick(r, a)) if r is not None else (lambda *a: a[0])
        self.p.set_val("throttle", x["thr"])
        self.p.set_val("fltcond|M", x["M"])
        q = u("m", "ft", "km")
        self.p.set_val("fltcond|h", conv(np.array(x["h"]), "m", q), units=q)
        if self.deck == "N3Hybrid":
            q = u("W", "kW", "hp")
            if self.bare or any(x["pw"]):
                self.bare = True    # until power is first added the input is left alone: none is added
                self.p.set_val("hybrid_power", conv(np.array(x["pw"]), "W", q), units=q)
        if self.rubber:
            q = u("N", "lbf", "kN")
            self.p.set_val("ac|propulsion|engine|rating", conv(x["rating"], "N", q), units=q)

    def run(self, x, r=None):
        self.set(x, r)
        self.p.run_model()
        return {k: np.array(self.p.get_val(n, units=u)).tolist() for k, (n, u) in self.names.items()}

    def ports(self):
        i = {m["prom_name"] for m in self.p.model.get_io_metadata("input", metadata_keys=["units"]).values()}
        o = {m["prom_name"] for m in self.p.model.get_io_metadata("output", metadata_keys=["units"]).values()}
        top = lambda s: sorted(n for n in s if "." not in n)
        return top(i), top(o)


def point(deck, kind, r):
    """one operating point in SI and the tabulated values there, if any"""
    R = raw(deck)
    if kind == "tab":
        w, ok, f, a = R["slices"][int(r.integers(len(R["slices"])))] if r.integers(2) else R["slices"][0]
        ok = ok & ~((deck == "CFM56") & (R["alt"] == 0) & (R["mach"] > 500))
        ix = np.argwhere(ok)
        ix = tuple(ix[int(r.integers(len(ix)))])
        return dict(thr=R["throttle"][ix] / 1000, h=R["alt"][ix] * 0.3048, M=R["mach"][ix] / 1000, pw=w * 1e3), [float(q[ix]) for q in (R["thrust"], f, a)]
    return dict(thr=float(r.uniform(0.25, 1.03)), h=float(r.uniform(0, 10600)), M=float(r.uniform(0.2, 0.8)), pw=float(r.uniform(0, 1e6))), []


def execute(job, rec):
    try:
        if "data" in job:
            data(job["data"], rec)
        else:
            session(job, rec)
    except Untrained as ex:
        rec("Skip", why=f"no trained surrogate for {ex}")
    except Exception as ex:
        rec("Exc", what=exc_text(ex))


def session(job, rec):
    r = rng_of(*job["seed"])
    eng, prog = dict(job["hist"]["eng"]), job["hist"]["prog"]
    eng["bare"] = int(r.integers(2))
    nn, deck = eng["nn"], eng["deck"]
    own = (27300 if deck == "CFM56" else 28620) * LBF
    mode = pick(r, ["fwd", "rev"])
    m = Engine(eng, nn, eng["rubber"], mode, deep=int(r.integers(2)))
    base = Engine(eng, nn, False) if eng["rubber"] else m
    single = Engine(eng, 1, eng["rubber"])
    i, o = m.ports()
    rec("Face", deck=deck, rubber=eng["rubber"], ins=i, outs=o)
    x, want, rate = None, None, 1.0
    pts = lambda kinds: tuple(zip(*[point(deck, k, r) for k in kinds]))
    for k, op in enumerate(prog):
        if op["op"] == "pts" or x is None:
            kinds = [dict(tab="tab", off="off", mix=pick(r, ["tab", "off"]))[op["kind"]] for _ in range(nn)]
            P, want = pts(kinds)
            x = {n: [q[n] for q in P] for n in P[0]}
        if op["op"] == "rate":
            rate = op["rate"] / 100 * float(r.uniform(0.9, 1.1)) if op["rate"] != 100 else 1.0
        x["rating"] = own * rate
        if op["op"] == "twin":
            other = Engine(eng, nn, eng["rubber"], deep=True)
            b = other.run(x, r)
            a = m.run(x, r)
            for n in a:
                rec("Same", a=a[n], b=b[n])
            continue
        y = m.run(x, r)
        b = base.run(x) if base is not m else y
        al = [single.run({n: ([v[j]] if n != "rating" else v) for n, v in x.items()}) for j in range(nn)]
        ev = dict(deck=deck, rubber=eng["rubber"], hydrogen=eng["hydrogen"], rating=x["rating"], want=list(want), y=y, deckrun=b,
                  alone={n: [q[n][0] for q in al] for n in y})
        if k == len(prog) - 1 and nn <= 3:
            m.set(x)
            m.p.run_model()
            wrt = ["throttle"] + (["ac|propulsion|engine|rating"] if eng["rubber"] else [])
            J = m.p.compute_totals(["thrust", "fuel_flow"], wrt)
            un = m.p.model.get_io_metadata("output", metadata_keys=["units"])
            un = {q["prom_name"]: q["units"] for q in un.values()}
            ft, ff = conv(1.0, un["thrust"], "N"), conv(1.0, un["fuel_flow"], "kg/s")
            d = 1e-4
            up, dn = (m.run(dict(x, thr=[t + s for t in x["thr"]])) for s in (d, -d))
            jj = dict(tthr=(ft * np.diag(J["thrust", "throttle"])).tolist(), fthr=(ff * np.diag(J["fuel_flow", "throttle"])).tolist(),
                      fdt=((np.array(up["thrust"]) - dn["thrust"]) / (2 * d)).tolist(), fdf=((np.array(up["fuel"]) - dn["fuel"]) / (2 * d)).tolist())
            if eng["rubber"]:
                ru = [q["units"] for q in m.p.model.get_io_metadata("input", metadata_keys=["units"]).values() if q["prom_name"] == "ac|propulsion|engine|rating"][0]
                fr = conv(1.0, ru, "N")
                jj.update(trate=(ft / fr * J["thrust", "ac|propulsion|engine|rating"].ravel()).tolist(), frate=(ff / fr * J["fuel_flow", "ac|propulsion|engine|rating"].ravel()).tolist())
            ev["J"] = jj
        rec("Run", **ev)
