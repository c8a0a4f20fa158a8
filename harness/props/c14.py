"""C14: programs of SurrogateMC driven on the trained drag polars (one or two instances per problem, two problems per process), every run compared by
SurrogateTrace with direct OpenAeroStruct analyses assembled in harness/oas.py; plus the single analyses underneath."""
import multiprocessing as mp
import numpy as np
import laws
from common import *

TRACE = "SurrogateTrace"


class Boom(RuntimeError):
    pass


class Pool:
    """in-process stand-in for a pool of workers: same results in the same order, unordered ones out of order, and a worker that dies when armed"""

    armed = fired = False

    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    join = terminate = close

    def _go(self, f, xs):
        xs = list(xs)
        out = []
        for k, x in enumerate(xs):
            if Pool.armed and k == len(xs) - 1:
                Pool.armed, Pool.fired = False, True
                raise Boom("a worker died")
            out.append(f(x))
        return out

    def map(self, f, xs, chunksize=None):
        return self._go(f, xs)

    def imap(self, f, xs, chunksize=1):
        return iter(self._go(f, xs))

    def imap_unordered(self, f, xs, chunksize=1):
        return iter(self._go(f, xs)[::-1])

    def starmap(self, f, xs, chunksize=None):
        return self._go(lambda a: f(*a), xs)

    def apply(self, f, args=(), kwds={}):
        return self._go(lambda a: f(*a, **kwds), [args])[0]

    def apply_async(self, f, args=(), kwds={}, *a):
        v = self.apply(f, args, kwds)
        return type("R", (), dict(get=lambda s, t=None: v, wait=lambda s, t=None: None, ready=lambda s: True))()

    def map_async(self, f, xs, *a):
        v = self.map(f, xs)
        return type("R", (), dict(get=lambda s, t=None: v, wait=lambda s, t=None: None, ready=lambda s: True))()

    starmap_async = None


def mc(tier, seed):
    return [dict(module="SurrogateMC", cfg=f"SurrogateMC_{tier}.cfg", workers=1)]


def preload():
    import os

    os.environ["OMP_NUM_THREADS"] = "1"
    mp.Pool = Pool
    import openconcept.aerodynamics.openaerostruct.drag_polar  # noqa: F401
    import openconcept.aerodynamics.openaerostruct.aerostructural  # noqa: F401
    import oas  # noqa: F401


def jobs(emitted, tier, seed):
    r = rng_of("c14", seed)
    big = tier != "quick"
    E = emitted[0]
    out = []
    byplan = {}
    for x in E:
        byplan.setdefault(repr(x["plan"]), []).append(x)
    lone = [x for x in E if all(len(q) == 1 for q in x["plan"])]
    for kind, n in dict(vlmgen=700, vlmpolar=240, oasgen=300, oaspolar=90).items() if big else dict(vlmgen=42, vlmpolar=16, oasgen=18, oaspolar=5).items():
        for k in range(n):
            # two different polars converging together retrain on every iteration: mostly one polar per problem
            x = pick(r, lone if kind.endswith("polar") and k % 6 else E)
            y = pick(r, byplan[repr(x["plan"])])
            # a second program with the same problems, carried on mostly without setting them up again
            ops = x["ops"] + [o for o in y["ops"] if o["op"] != "setup" or r.random() < 0.3]
            ops = ops[: {"vlmgen": 8, "oasgen": 6}.get(kind, 5)]
            # and in the end one change that may leave everything else as it was
            g = [1]
            for o in ops:
                g = [o["g"]] if o["op"] == "set" and (o["p"], o["i"]) == (1, 1) else [1] if o["op"] == "setup" and o["p"] == 1 else g
            if any(o["op"] == "setup" and o["p"] == 1 for o in ops):
                ops = ops + [dict(op="run", p=1), dict(op="set", p=1, i=1, g=3 - g[0]), dict(op="run", p=1)]
            out.append((f"{kind}-{k}", dict(kind=kind, plan=x["plan"], ops=ops, k=k, seed=[seed, kind, k])))
    for k in range(300 if big else 24):
        out.append((f"vlm-{k}", dict(kind="vlm", k=k, seed=[seed, "v", k])))
    for k in range(80 if big else 8):
        out.append((f"clmax-{k}", dict(kind="clmax", k=k, seed=[seed, "c", k])))
    for k in range(60 if big else 6):
        out.append((f"exact-{k}", dict(kind="exact", k=k, seed=[seed, "e", k])))
    # long sessions first, spread over the workers
    heavy = sorted((x for x in out if x[1]["kind"] in ("oasgen", "oaspolar", "vlmpolar")), key=lambda x: ["oaspolar", "vlmpolar", "oasgen"].index(x[1]["kind"]))
    light = [x for x in out if x[1]["kind"] not in ("oasgen", "oaspolar", "vlmpolar")]
    out = []
    while heavy or light:
        out += heavy[:1] + light[:2]
        heavy, light = heavy[1:], light[2:]
    return out


W = "ac|geom|wing|"
UN = {"S_ref": "m**2", "AR": None, "taper": None, "c4sweep": "deg", "twist": "deg", "toverc": None, "skin_thickness": "m", "spar_thickness": "m", "OAS_mesh": "m", "dT": "degC", "x_LE_sec": "m", "y_sec": "m", "chord_sec": "m"}


def clear():
    """forget options remembered from other sessions of this process (not the trained data)"""
    from openconcept.aerodynamics.openaerostruct import aerostructural, drag_polar

    for c in (drag_polar.VLMDataGen, aerostructural.OASDataGen):
        if "surf_options" in c.__dict__:
            del c.surf_options
    Pool.armed = Pool.fired = False


def wing(r):
    return dict(S_ref=r.uniform(20, 400), AR=r.uniform(5, 12), taper=r.uniform(0.2, 1), c4sweep=r.uniform(0, 35))


class World:
    """configurations and geometries of one session"""

    def __init__(self, job, r):
        import oas

        self.r, self.kind = r, job["kind"]
        self.struct = self.kind.startswith("oas")
        self.polar = self.kind.endswith("polar")
        self.geokind = pick(r, ["trapezoidal", "section", "mesh"]) if self.kind == "vlmpolar" else ("trapezoidal" if self.struct else "mesh")
        self.nsec = int(r.integers(2, 4))
        nx, ny = int(r.integers(1, 3)), int(r.integers(2, 4))
        dx, dy = pick(r, [(1, 0), (0, 1), (1, 1)])
        self.size = {1: (nx, ny), 2: (nx + dx, ny + dy)}
        self.ntw, self.nt, self.nsk, self.nsp = (int(r.integers(2, 5)) for _ in range(4))
        self.num = {1: (self.ntw, self.nt, self.nsk, self.nsp)}
        self.num[2] = self.num[1] if r.random() < 0.6 else tuple(int(r.integers(2, 5)) for _ in range(4))
        g1 = [np.sort(r.uniform(0.15, 0.75, 2)) + [0, 0.05], np.sort(r.uniform(-3, 6, 2)) + [0, 1], np.sort(r.uniform(0, 12000, int(r.integers(1, 3)) if not self.struct or r.random() < 0.3 else 1)) + 0.0]
        if len(g1[2]) == 2:
            g1[2][1] += 500
        g2 = [v.copy() for v in g1]
        w = int(r.integers(0, 4))
        if w == 3:
            g2 = [np.append(g2[0], g2[0][-1] + 0.05), g2[1] - 0.5, g2[2]]
        else:
            g2[w] = g2[w] * (1.02 if r.random() < 0.5 else 1.3) + (0.1 if w == 1 else 0)
        if self.polar and len(g1[2]) == 1:  # a structured surrogate needs two points in every direction
            g1[2], g2[2] = np.append(g1[2], g1[2][-1] + 2000.0), np.append(g2[2], g2[2][-1] + 2000.0)
        self.grid = {1: g1, 2: g2}
        if self.struct:
            self.opts = dict(oas.AIRFOIL, **pick(r, [{}, dict(E=60e9, G=25e9, CD0=0.012), dict(wing_weight_ratio=1.5, mrho=2.5e3), {"yield": 300e6, "k_lam": 0.1, "CL0": 0.05}]))
        else:
            self.opts = pick(r, [{}, dict(CD0=0.01), dict(CL0=0.1, with_wave=False), dict(k_lam=0.2, c_max_t=0.3), dict(S_ref_type="wetted"), dict(with_viscous=False)])
        # design of geometry 1, then what geometry 2 changes
        self.des = {1: self.design(r)}
        d2 = {k: np.copy(v) for k, v in self.des[1].items()}
        ks = list(d2)
        # every input that determines the data is, in some sessions, the only one that changes
        loose = ks if self.struct else [k for k in ("toverc", "dT", "zed", "twist", "taper", "y_sec", "chord_sec") if k in ks]
        turn = job["k"] // len(loose)
        mode = ["one", "tiny", "swap", "elem", "all", "even"][turn % 6] if not self.struct else ["one", "elem", "swap"][turn % 3]
        for k in ks if mode == "all" else [loose[job["k"] % len(loose)]]:
            f = 3e-4 if mode == "tiny" else r.uniform(0.03, 0.15)
            v = np.atleast_1d(d2[k]).astype(float)
            step = f * (np.abs(v) + (1.0 if k in ("dT", "twist", "c4sweep", "zed") else 0.0))
            if mode == "elem":
                m = np.zeros_like(v).ravel()
                m[int(r.integers(m.size))] = 1
                step = step * m.reshape(v.shape)
            if mode in ("swap", "even") and v.size > 1 and k not in ("y_sec", "x_LE_sec"):
                # the same values elsewhere, or the same mean
                step = np.zeros_like(v)
                step[:2] = v[1::-1] - v[:2] if mode == "swap" else np.array([1, -1]) * f * np.abs(v[:2]).mean()
            elif mode == "even" and k in ("dT", "twist") and np.any(v):
                step = -2 * v
            if k == "taper":
                step = -step
            d2[k] = v + step
        self.des[2] = d2
        self.cache = {}

    def design(self, r):
        d = wing(r)
        d["dT"] = float(r.uniform(-10, 20)) if r.random() < 0.7 else 0.0
        if self.kind == "vlmgen" or self.geokind == "mesh":
            d["zed"] = r.uniform(-0.3, 0.3, 8)
            d["toverc"] = r.uniform(0.08, 0.16, 8)
        elif self.geokind == "section":
            n = self.nsec
            half = np.sqrt(d["AR"] * d["S_ref"]) / 2
            d = dict(S_ref=d["S_ref"], dT=d["dT"], y_sec=-np.sort(r.uniform(0.3, 1, n - 1))[::-1] * half, chord_sec=np.sort(r.uniform(0.3, 1, n)) * 4, x_LE_sec=np.sort(r.uniform(0, 4, n))[::-1].copy())
            d["toverc"], d["twist"] = r.uniform(0.08, 0.16, n), r.uniform(-3, 3, n)
        else:
            d["twist"] = r.uniform(-3, 3, 4)
            d["toverc"] = r.uniform(0.08, 0.16, 4)
            if self.struct:
                d["skin_thickness"], d["spar_thickness"] = r.uniform(0.005, 0.02, 4), r.uniform(0.005, 0.02, 4)
        return d

    def vals(self, c, d):
        """inputs of an instance of configuration c for design d"""
        import oas

        nx, ny = self.size[c["size"]]
        ntw, nt, nsk, nsp = self.num[c["size"]]
        if self.kind == "vlmgen" or self.geokind == "mesh":
            m = oas.trapezoid(float(d["S_ref"]), float(d["AR"]), float(d["taper"]), np.radians(float(d["c4sweep"])), nx, ny)
            m[:, :, 2] += d["zed"][: ny + 1] * np.linspace(1, 2, nx + 1)[:, None]
            return {W + "OAS_mesh": m, W + "toverc": d["toverc"][:ny], "fltcond|TempIncrement": float(d["dT"])}
        v = {W + k: (np.asarray(x)[: {"twist": ntw, "toverc": nt if self.struct else 2, "skin_thickness": nsk, "spar_thickness": nsp}[k]] if self.geokind == "trapezoidal" and k in ("twist", "toverc", "skin_thickness", "spar_thickness") else x) for k, x in d.items() if k != "dT"}
        v["fltcond|TempIncrement"] = float(d["dT"])
        return v

    def comp(self, c, opts=None):
        from openconcept.aerodynamics.openaerostruct import aerostructural as A, drag_polar as D

        nx, ny = self.size[c["size"]]
        ntw, nt, nsk, nsp = self.num[c["size"]]
        g = self.grid[c["grid"]]
        o = dict(num_x=nx, num_y=ny, Mach_train=g[0].copy(), alpha_train=g[1].copy(), alt_train=g[2].copy())
        op = self.opts if opts is None else opts
        if op or self.r.random() < 0.5:
            o["surf_options"] = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in op.items()}
        if self.struct:
            o.update(num_twist=ntw, num_toverc=nt, num_skin=nsk, num_spar=nsp)
        if self.polar:
            o["num_nodes"] = self.nn
            if not self.struct:
                o["geometry"] = self.geokind
                o["vec_CD_nonwing"] = self.vec
                if self.geokind == "trapezoidal":
                    o["num_twist"] = ntw
                if self.geokind == "section":
                    o["num_sections"] = self.nsec
        return {"vlmgen": D.VLMDataGen, "oasgen": A.OASDataGen, "vlmpolar": D.VLMDragPolar, "oaspolar": A.AerostructDragPolar}[self.kind](**o)

    def oracle(self, c, d, tag, rec, seen=None):
        """direct analyses at every training point; seen: (untwisted mesh, mesh, panel t/c) the polar reports for generated planforms"""
        import oas

        key = f"{c['grid']}-{c['size']}-{tag}"
        if key in self.cache:
            return self.cache[key]
        nx, ny = self.size[c["size"]]
        g = self.grid[c["grid"]]
        M, al, h = (x.ravel() for x in np.meshgrid(*g, indexing="ij"))
        v = self.vals(c, d)
        dT = float(v["fltcond|TempIncrement"])
        o = dict(gM=g[0].tolist(), ga=g[1].tolist(), gh=g[2].tolist(), M=M.tolist(), alpha=al.tolist(), h=h.tolist(), dT=[dT])
        if self.struct:
            S, AR, tp, sw = (float(np.squeeze(d[k])) for k in ("S_ref", "AR", "taper", "c4sweep"))
            sw = np.radians(sw)
            tw = np.radians(v[W + "twist"])
            base, m = oas.trapezoid(S, AR, tp, sw, nx, ny), oas.trapezoid(S, AR, tp, sw, nx, ny, tw)
            o["trap"] = dict(c="TrapezoidalPlanformMesh", num_x=nx, num_y=ny, o={}, x=dict(S=[S], AR=[AR], taper=[tp], sweep=[sw]), y=dict(mesh=base.tolist()))
            o["tw"] = dict(base=base.tolist(), mesh=m.tolist(), twist=tw.tolist(), panels=[])
            _, nt, nsk, nsp = self.num[c["size"]]
            a = oas.AeroStruct(nx, ny, nt, nsk, nsp, self.opts, m)
            res = [a(*x, dT, v[W + "toverc"], v[W + "skin_thickness"], v[W + "spar_thickness"]) for x in zip(M, al, h)]
        else:
            if self.geokind == "mesh":
                m, toc = v[W + "OAS_mesh"], v[W + "toverc"]
            else:
                base, m, toc = seen
                tw = np.radians(v[W + "twist"])
                o["tw"] = dict(base=base.tolist(), mesh=m.tolist(), twist=tw.tolist(), panels=[] if self.geokind == "trapezoidal" else [ny] * (self.nsec - 1))
                f = lambda k: np.atleast_1d(np.asarray(d[k], float)).tolist()
                if self.geokind == "trapezoidal":
                    o["trap"] = dict(c="TrapezoidalPlanformMesh", num_x=nx, num_y=ny, o={}, x=dict(S=f("S_ref"), AR=f("AR"), taper=f("taper"), sweep=np.radians(f("c4sweep")).tolist()), y=dict(mesh=base.tolist()))
                else:
                    o["trap"] = dict(c="SectionPlanformMesh", num_x=nx, panels=[ny] * (self.nsec - 1), o={}, x=dict(S=f("S_ref"), y_sec=f("y_sec"), chord_sec=f("chord_sec"), x_LE_sec=f("x_LE_sec")), y=dict(mesh=base.tolist()))
            a = oas.Aero(m.shape[0] - 1, m.shape[1] - 1, self.opts)
            res = [a(*x, dT, m, toc) for x in zip(M, al, h)]
        for k in ("v", "rho", "re", "CL", "CD") + (("failure",) if self.struct else ()):
            o[k] = [float(x[k]) for x in res]
        if self.struct:
            o["W"] = [res[0]["W"]]
        rec("Oracle", key=key, o=o)
        self.cache[key] = o
        return o


def silence(p):
    for s in p.model.system_iter(include_self=True, recurse=True):
        for sv in (s.nonlinear_solver, s.linear_solver):
            if sv is not None:
                sv.options["iprint"] = -1


def session(job, rec):
    r = rng_of(*job["seed"])
    clear()
    w = World(job, r)
    w.nn = int(r.integers(2, 5)) if w.polar else 1
    w.vec = bool(r.random() < 0.5)
    plan = job["plan"]
    rec("Start", plan=plan)
    P, geo, nw = {}, {}, {}

    def push(p, i):
        c, g = plan[p - 1][i], geo[p][i]
        for n, v in w.vals(c, w.des[g]).items():
            u = UN.get(n.replace(W, "").replace("fltcond|TempIncrement", "dT"))
            P[p].set_val(f"i{i}.{n}", v, units=u)

    def setup(p):
        pr = P.get(p)
        if pr is None:
            pr = P[p] = om.Problem(reports=None)
            for i, c in enumerate(plan[p - 1]):
                pr.model.add_subsystem(f"i{i}", w.comp(c))
            if w.polar:
                pr.model.nonlinear_solver = om.NewtonSolver(solve_subsystems=True, maxiter=30, atol=1e-11, rtol=1e-13, iprint=-1)
                pr.model.linear_solver = om.DirectSolver()
        pr.setup(check=False)
        geo[p] = [1] * len(plan[p - 1])
        nw[p] = [0.0] * len(plan[p - 1])
        rec("Setup", p=p)
        for i in range(len(plan[p - 1])):
            push(p, i)

    def outs(p):
        rs = []
        for i, c in enumerate(plan[p - 1]):
            b = f"i{i}." + ("training_data." if w.polar else "")
            g = lambda n, u=None: np.array(P[p].get_val(b + n, units=u))
            x = dict(CL=g("CL_train").tolist(), CD=g("CD_train").tolist())
            if w.struct:
                x.update(failure=g("failure_train").tolist(), W=(np.array(P[p].get_val(f"i{i}.ac|weights|W_wing", units="kg")) if w.polar else g("W_wing", "kg")).ravel().tolist(), nw=[nw[p][i]])
            rs.append(x)
        return rs

    def seen(p, i):
        if w.geokind == "mesh" or w.struct:
            return None
        g = lambda n, u=None: np.array(P[p].get_val(f"i{i}.{n}", units=u))
        return g(W + "OAS_mesh", "m"), g("twisted_mesh", "m"), g("t_over_c_interp.panel_toverc")

    for op in job["ops"]:
        k = op["op"]
        if k != "arm" and op["p"] not in P and k != "setup":
            continue
        if k == "setup":
            setup(op["p"])
        elif k == "set":
            geo[op["p"]][op["i"] - 1] = op["g"]
            push(op["p"], op["i"] - 1)
            rec("Set", p=op["p"], i=op["i"], g=op["g"])
        elif k == "arm":
            Pool.armed = True
        elif k == "run":
            p = op["p"]
            ins = []
            for i, c in enumerate(plan[p - 1]):
                if w.struct and r.random() < 0.5:
                    nw[p][i] = float(r.uniform(0, 0.02))
                    P[p].set_val(f"i{i}.ac|aero|CD_nonwing", nw[p][i])
                if w.polar:
                    o = w.oracle(c, w.des[geo[p][i]], geo[p][i], rec) if w.geokind == "mesh" or w.struct else None
                    ins.append(polar_in(w, P[p], i, c, o, r))
            Pool.fired = False
            try:
                silence(P[p])
                P[p].run_model()
            except Exception as e:
                rec("Failed", fired=Pool.fired, what=exc_text(e))
                if not Pool.fired:
                    return
                continue
            for i, c in enumerate(plan[p - 1]):
                w.oracle(c, w.des[geo[p][i]], geo[p][i], rec, seen(p, i))
            rec("Run", p=p, r=outs(p))
            if w.polar:
                if not (w.geokind == "mesh" or w.struct):
                    # planform generated inside: now that the analyses are known, fly the training points
                    ins = [polar_in(w, P[p], i, c, w.oracle(c, w.des[geo[p][i]], geo[p][i], rec), r) for i, c in enumerate(plan[p - 1])]
                    armed, Pool.armed = Pool.armed, False
                    P[p].run_model()
                    Pool.armed = armed
                rec("Polar", p=p, r=[polar_out(w, P[p], i, x) for i, x in enumerate(ins)])
        elif k == "slope" and not w.polar:
            armed, Pool.armed = Pool.armed, False
            slope(w, P[op["p"]], op["p"], op["i"], plan, geo, r, rec)
            Pool.armed = armed


def polar_in(w, p, i, c, o, r):
    """flight at training points (chosen flat indices), the last node in between"""
    nn = w.nn
    n = len(w.grid[c["grid"]][0]) * len(w.grid[c["grid"]][1]) * len(w.grid[c["grid"]][2])
    idx = [int(x) for x in r.integers(0, n, nn)]
    M, al, h = (x.ravel() for x in np.meshgrid(*w.grid[c["grid"]], indexing="ij"))
    x = dict(idx=idx, on=nn if r.random() < 0.5 else nn - 1)
    m, hh = M[idx].copy(), h[idx].copy()
    cl = np.array([o["CL"][j] for j in idx]) if o else np.full(nn, 0.2)
    if x["on"] < nn:
        m[-1], hh[-1], cl[-1] = M.min() + 0.4 * np.ptp(M), h.min() + 0.3 * np.ptp(h), (0.6 * max(o["CL"]) + 0.4 * min(o["CL"])) if o else 0.2
    x.update(q=r.uniform(2e3, 1e4, nn), nw=r.uniform(0.005, 0.03, nn) if (w.vec and not w.struct) else np.array([r.uniform(0.005, 0.03)]), CLin=cl, S=float(np.squeeze(w.des[1].get("S_ref", 50))))
    pre = f"i{i}."
    p.set_val(pre + "fltcond|M", m)
    p.set_val(pre + "fltcond|h", hh, units="m")
    p.set_val(pre + "fltcond|CL", cl)
    p.set_val(pre + "fltcond|q", x["q"], units="Pa")
    if w.geokind == "mesh":
        p.set_val(pre + "ac|geom|wing|S_ref", x["S"], units="m**2")
    if not w.struct:
        p.set_val(pre + "ac|aero|CD_nonwing", x["nw"])
    p.set_val(pre + "alpha_bal.alpha", r.uniform(-1, 4, nn))
    return x


def polar_out(w, p, i, x):
    g = lambda n, u=None: np.array(p.get_val(f"i{i}." + n, units=u)).ravel()
    nn, on = w.nn, x["on"]
    nwv = np.broadcast_to(x["nw"], (nn,))
    out = dict(idx=[j + 1 for j in x["idx"][:on]], alpha=g("alpha_bal.alpha", "deg")[:on].tolist(), drag=g("drag", "N").tolist(), q=x["q"].tolist(), S=g("ac|geom|wing|S_ref", "m**2").tolist(), surCL=g("aero_surrogate.CL").tolist(),
               surCD=g("aero_surrogate.CD").tolist(), CLin=x["CLin"].tolist(), nwv=nwv.tolist(), nwadd=nwv.tolist())
    if w.struct:
        out["nwv"] = np.full(nn, float(p.get_val(f"i{i}.ac|aero|CD_nonwing").item())).tolist()
        out["nwadd"] = [0.0] * nn
        out["failn"] = g("failure")[:on].tolist()
        out["W"] = g("ac|weights|W_wing", "kg").tolist()
    return out


def slope(w, p, pn, i, plan, geo, r, rec):
    """directional derivative of everything trained, along a random direction of the inputs"""
    c, g = plan[pn - 1][i - 1], geo[pn][i - 1]
    des = w.des[g]
    of = ["CL_train", "CD_train"] + (["failure_train", "W_wing"] if w.struct else [])
    v = w.vals(c, des)
    p.model.run_linearize()
    sub = getattr(p.model, f"i{i - 1}")
    eps, dirs = 1e-4, {}
    full = {k: np.atleast_1d(np.asarray(x, float)) for k, x in des.items()}
    ddir = {k: r.uniform(-1, 1, x.shape) * (np.abs(x) + (1.0 if k in ("dT", "twist", "c4sweep") else 0.05 if k == "zed" else 0.0)) for k, x in full.items()}
    if r.random() < 0.5:
        keep = pick(r, list(ddir))
        ddir = {k: x * (k == keep) for k, x in ddir.items()}
    plus, minus = ({k: full[k] + s * eps * ddir[k] for k in full} for s in (1, -1))
    vp, vm = w.vals(c, plus), w.vals(c, minus)
    for n in v:
        dirs[n] = ((np.asarray(vp[n], float) - np.asarray(vm[n], float)) / (2 * eps)).ravel()
    j = {}
    for f in of:
        tot = 0
        for n, dv in dirs.items():
            J = np.asarray(sub._jacobian[f"i{i - 1}.{f}", f"i{i - 1}.{n}"])
            tot = tot + J.reshape(-1, dv.size) @ dv
        j[{"CL_train": "CL", "CD_train": "CD", "failure_train": "failure", "W_wing": "W"}[f]] = np.atleast_1d(tot).tolist()
    if w.struct:
        j["nw"] = np.asarray(sub._jacobian[f"i{i - 1}.CD_train", f"i{i - 1}.ac|aero|CD_nonwing"]).ravel().tolist()
    for tag, d in (("+", plus), ("-", minus)):
        w.cache.pop(f"{c['grid']}-{c['size']}-{g}{tag}", None)
        w.oracle(c, d, f"{g}{tag}", rec)
    rec("Slope", p=pn, i=i, eps=[eps], j=j)


def execute(job, rec):
    mp.current_process()._config["daemon"] = False
    try:
        {"vlm": one_vlm, "clmax": one_clmax, "exact": one_exact}.get(job["kind"], session)(job, rec)
    except (Boom, Exception) as e:
        import traceback

        rec("Exc", what=exc_text(e) + " @ " + traceback.format_exc().splitlines()[-3].strip()[:160])


def flat(o):
    return {k: (np.atleast_1d(v).tolist() if not isinstance(v, dict) else v) for k, v in o.items()}


def mesh_of(r, nx, ny):
    import oas

    d = wing(r)
    m = oas.trapezoid(d["S_ref"], d["AR"], d["taper"], np.radians(d["c4sweep"]), nx, ny, np.radians(r.uniform(-3, 3, 3)))
    m[:, :, 2] += r.uniform(-0.2, 0.2, ny + 1)
    return m


def one_vlm(job, rec):
    import oas
    from openconcept.aerodynamics.openaerostruct import VLM

    r = rng_of(*job["seed"])
    nx, ny = int(r.integers(1, 4)), int(r.integers(2, 5))
    opts = pick(r, [None, {}, dict(CD0=0.013), dict(CL0=0.1, with_wave=False), dict(k_lam=0.2, c_max_t=0.3), dict(S_ref_type="wetted"), dict(with_viscous=False), dict(name="main"), dict(t_over_c=np.array([0.2]))])
    p = om.Problem(reports=None)
    p.model.add_subsystem("v", VLM(num_x=nx, num_y=ny, surf_options=opts), promotes=["*"])
    p.setup(check=False)
    a = oas.Aero(nx, ny, {k: v for k, v in (opts or {}).items() if k != "t_over_c"})
    for _ in range(3):
        m, toc = mesh_of(r, nx, ny), r.uniform(0.08, 0.16, ny)
        M, al, h, dT = r.uniform(0.1, 0.85), r.uniform(-4, 8), r.uniform(0, 14000), pick(r, [0.0, 15.0, -10.0])
        for n, v in (("fltcond|M", M), ("fltcond|alpha", al), ("fltcond|h", h), ("fltcond|TempIncrement", dT), (W + "OAS_mesh", m), (W + "toverc", toc)):
            p.set_val(n, v)
        p.run_model()
        o = a(M, al, h, dT, m, toc)
        o.update(M=M, h=h, dT=dT, forces=o["forces"].ravel())
        g = lambda n: np.array(p.get_val(n)).ravel().tolist()
        rec("Vlm", o=flat(o), y=dict(CL=g("fltcond|CL"), CD=g("fltcond|CD"), CDi=g("fltcond|CDi"), CDv=g("fltcond|CDv"), CDw=g("fltcond|CDw"), sec=g("sectional_CL"), forces=g("panel_forces")))


def one_clmax(job, rec):
    import oas
    from openconcept.aerodynamics.openaerostruct import CLmaxCriticalSectionVLM

    r = rng_of(*job["seed"])
    nx, ny = int(r.integers(1, 3)), int(r.integers(2, 5))
    vec = bool(r.random() < 0.5)
    opts = pick(r, [None, dict(CL0=0.05), dict(with_viscous=False)])
    o = dict(num_x=nx, num_y=ny, surf_options=opts)
    if vec:
        o["vec_Cl_max"] = True
    rho = 200
    if r.random() < 0.5:
        rho = o["rho"] = pick(r, [50, 120.0])
    p = om.Problem(reports=None)
    p.model.add_subsystem("c", CLmaxCriticalSectionVLM(**o), promotes=["*"])
    p.setup(check=False)
    p.final_setup()
    silence(p)
    a = oas.Aero(nx, ny, opts or {})
    m, toc = mesh_of(r, nx, ny), r.uniform(0.08, 0.16, ny)
    M, h, dT = r.uniform(0.1, 0.4), r.uniform(0, 3000), pick(r, [0.0, 15.0])
    lim = r.uniform(1.2, 1.8, ny if vec else 1)
    for n, v in (("fltcond|M", M), ("fltcond|h", h), ("fltcond|TempIncrement", dT), (W + "OAS_mesh", m), (W + "toverc", toc), ("ac|aero|airfoil_Cl_max", lim)):
        p.set_val(n, v)
    try:
        p.model.c.nonlinear_solver.options["err_on_non_converge"] = True
        p.model.c.nonlinear_solver.options["maxiter"] = 40
        p.run_model()
    except om.AnalysisError:
        return rec("Skip")
    al = p.get_val("sectional_CL_balance.alpha", units="deg").item()
    q = a(M, al, h, dT, m, toc)
    q.pop("forces")
    q.update(M=M, h=h, dT=dT)
    rec("Clmax", o=flat(q), CLmax=p.get_val("CL_max").tolist(), limit=lim.tolist(), rho=[float(rho)])


def one_exact(job, rec):
    import oas
    from openconcept.aerodynamics.openaerostruct.aerostructural import AerostructDragPolarExact

    r = rng_of(*job["seed"])
    nn, nx, ny = int(r.integers(1, 4)), int(r.integers(1, 3)), int(r.integers(2, 4))
    nt, nc, nsk, nsp = (int(r.integers(2, 5)) for _ in range(4))
    opts = dict(oas.AIRFOIL, **pick(r, [{}, dict(E=60e9, G=25e9), dict(mrho=2.6e3, CD0=0.01)]))
    p = om.Problem(reports=None)
    iv = p.model.add_subsystem("iv", om.IndepVarComp(), promotes=["*"])
    for n, u in (("M", None), ("h", "m"), ("CL", None), ("q", "Pa")):
        iv.add_output("fltcond|" + n, np.ones(nn), units=u)
    p.model.add_subsystem("c", AerostructDragPolarExact(num_nodes=nn, num_x=nx, num_y=ny, num_twist=nt, num_toverc=nc, num_skin=nsk, num_spar=nsp, surf_options=opts), promotes=["*"])
    p.model.set_input_defaults("ac|geom|wing|S_ref", 1.0, units="m**2")
    p.model.nonlinear_solver = om.NewtonSolver(solve_subsystems=True, maxiter=15, atol=1e-8, rtol=1e-14, iprint=-1)
    p.model.linear_solver = om.DirectSolver()
    p.setup(check=False)
    p.final_setup()
    silence(p)
    d = wing(r)
    tw, toc, sk, sp = r.uniform(-3, 3, nt), r.uniform(0.09, 0.15, nc), r.uniform(0.006, 0.02, nsk), r.uniform(0.006, 0.02, nsp)
    M, h, cl, q, dT, nw = r.uniform(0.2, 0.75, nn), r.uniform(0, 11000, nn), r.uniform(0.1, 0.5, nn), r.uniform(3e3, 1e4, nn), float(r.uniform(-5, 15)), r.uniform(0.005, 0.03)
    for n, v in list({W + k: x for k, x in d.items()}.items()) + [(W + "twist", tw), (W + "toverc", toc), (W + "skin_thickness", sk), (W + "spar_thickness", sp), ("fltcond|M", M), ("fltcond|h", h), ("fltcond|CL", cl), ("fltcond|q", q), ("fltcond|TempIncrement", dT), ("ac|aero|CD_nonwing", nw)]:
        p.set_val(n, v)
    try:
        p.run_model()
    except (om.AnalysisError, RuntimeError, ValueError):
        return rec("Skip")
    if np.abs(p.get_val("c.vec_combine.CL_OAS") - cl).max() > 1e-6:
        return rec("Skip")
    al = p.get_val("fltcond|alpha", units="deg")
    S, AR, tp, sw = d["S_ref"], d["AR"], d["taper"], np.radians(d["c4sweep"])
    twr = np.radians(tw)
    base, m = oas.trapezoid(S, AR, tp, sw, nx, ny), oas.trapezoid(S, AR, tp, sw, nx, ny, twr)
    a = oas.AeroStruct(nx, ny, nc, nsk, nsp, opts, m)
    os_ = []
    for k in range(nn):
        o = a(M[k], al[k], h[k], dT, toc, sk, sp)
        o.update(M=M[k], h=h[k], dT=dT)
        os_.append(flat(o))
    os_[0]["trap"] = dict(c="TrapezoidalPlanformMesh", num_x=nx, num_y=ny, o={}, x=dict(S=[S], AR=[AR], taper=[tp], sweep=[sw]), y=dict(mesh=base.tolist()))
    os_[0]["tw"] = dict(base=base.tolist(), mesh=m.tolist(), twist=twr.tolist(), panels=[])
    g = lambda n, u=None: np.array(p.get_val(n, units=u)).ravel().tolist()
    rec("Exact", o=os_, CLin=cl.tolist(), drag=g("drag", "N"), q=q.tolist(), S=[S], nw=[nw], failure=g("failure"), W=g("ac|weights|W_wing", "kg"))
