"""C01 time integration: programs from IntegratorMC, run on the real Integrator, replayed in IntegratorTrace."""
import numpy as np
import openmdao.api as om
from common import *
from common import names as VN

TRACE = "IntegratorTrace"


def mc(tier, seed):
    return [dict(module="IntegratorMC", cfg=f"IntegratorMC_{tier}.cfg")]


def preload():
    import openconcept.utilities  # noqa


def jobs(emitted, tier, seed):
    progs = emitted[0]
    r = rng_of("c01", seed)
    singles = [p for p in progs if len(p["states"]) == 1]
    multi = [p for p in progs if len(p["states"]) > 1]
    k = 500 if tier == "quick" else 6000
    idx = r.permutation(len(multi))[:k]
    out = []
    for i, p in enumerate(singles + [multi[j] for j in idx]):
        out.append((f"integ-{i:05d}", dict(kind="integ", prog=p, seed=[seed, i])))
    for i in range(60 if tier == "quick" else 600):
        q = rng_of("c01x", seed, i)
        st = [dict(zs=bool(q.integers(2)), fo=bool(q.integers(2)), um=pick(q, ["none", "units", "rate"]), nm=pick(q, ["auto", "own"])) for _ in range(int(q.integers(3, 7)))]
        out.append((f"many-{i:04d}", dict(kind="integ", seed=[seed, "m", i], prog=dict(method=pick(q, ["simpson", "bdf3"]), n=int(pick(q, [5, 9, 13, 21, 31])), ts=pick(q, ["dt", "duration", "bounds"]), states=st))))
    for i in range(60 if tier == "quick" else 600):
        q = rng_of("c01s", seed, i)
        ns = int(q.integers(1, 5))
        out.append((f"seg-{i:04d}", dict(kind="seg", seed=[seed, "s", i], prog=dict(method=pick(q, ["simpson", "bdf3"]), n=int(pick(q, [5, 7, 11])), zs=bool(q.integers(2)), fo=bool(q.integers(3) == 0), segs=[True] + [bool(q.integers(3)) for _ in range(ns)]))))
    for i in range(60 if tier == "quick" else 400):
        q = rng_of("c01o", seed, i)
        out.append((f"one-{i:04d}", dict(kind="seg", seed=[seed, "o", i], prog=dict(method=["simpson", "bdf3"][i % 2], ts=["dt", "duration", "bounds"][i // 2 % 3], n=int(pick(q, [5, 7, 11])), zs=bool(q.integers(2)), fo=bool(q.integers(3) == 0), segs=[True], qu=pick(q, ["kg", "m", None]), du=pick(q, ["s", "min", None])))))
    out.append(("reject", dict(kind="reject")))
    return out


def rates(r, n):
    k = int(r.integers(7))
    if k == 0:
        return np.zeros(n)
    if k == 1:
        f = r.normal(size=n)
        f[: int(r.integers(1, n + 1))] = 0.0
        return f
    if k == 2:
        return np.full(n, float(r.normal()))
    if k == 3:
        return np.polyval(r.normal(size=3), np.linspace(-1, 1, n)) * 10.0 ** r.integers(-3, 4)
    if k == 4:
        f = r.normal(size=n)
        f[int(r.integers(n))] = 0.0
        return f
    return r.normal(size=n) * 10.0 ** r.integers(-2, 3)


def execute(job, rec):
    globals()["do_" + job["kind"]](job, rec)


def do_integ(job, rec):
    from openconcept.utilities import Integrator

    prog = job["prog"]
    r = rng_of(*job["seed"])
    n, ts, S = prog["n"], prog["ts"], prog["states"]
    rec("New", prog=prog)
    diff = pick(r, [None, "s", "min", "h"])
    tu = "s" if diff else None
    try:
        c = Integrator(num_nodes=n, method=prog["method"], time_setup=ts, diff_units=diff)
        names = []
        pool = VN(r, len(S), avoid=("t",)) if r.integers(2) else None
        for k, s in enumerate(S):
            kw = {}
            nm = pool[k] if pool else f"q{k}" if s["nm"] == "auto" else f"own{k}"
            if s["nm"] == "own":
                kw = dict(rate_name=f"dot{k}", start_name=f"begin{k}", end_name=f"finish{k}")
            if s["um"] == "units":
                kw["units"] = pick(r, ["kg", "lb"])
                if r.integers(2):
                    kw["units"] = pick(r, ["kg", "lb", "g"])
            elif s["um"] == "rate":
                kw["rate_units"] = pick(r, ["kg/s", "lb/h", "kg/min"] if diff else ["kg", "lb"])
            if r.integers(2):
                kw["start_val"] = 3.25
            kw.update(zero_start=s["zs"], final_only=s["fo"])
            if r.integers(3) == 0:
                kw.update(lower=-1e12, upper=1e12)
            c.add_integrand(nm, **kw)
            g = (lambda suf, own: f"{nm}{suf}" if s["nm"] == "auto" else own)
            qu = "kg" if s["um"] != "none" else None
            fu = (qu or "1") + "/s" if diff else qu
            names.append(dict(q=nm, f=g("_rate", f"dot{k}"), q0=g("_initial", f"begin{k}"), qf=g("_final", f"finish{k}"), qu=qu, fu=fu, start=kw.get("start_val", 0.0), units=kw.get("units")))
        tn = {"dt": ["dt"], "duration": ["duration"], "bounds": ["t_initial", "t_final"]}[ts]
        p = om.Problem(reports=None)
        iv = p.model.add_subsystem("iv", om.IndepVarComp())
        for t in tn:
            iv.add_output(t, 1.0, units=tu)
            p.model.connect("iv." + t, "c." + t)
        for k, (s, m) in enumerate(zip(S, names)):
            iv.add_output(m["f"], np.zeros(n), units=m["fu"])
            p.model.connect("iv." + m["f"], "c." + m["f"])
            if not s["zs"]:
                iv.add_output(m["q0"], 0.0, units=m["qu"])
                p.model.connect("iv." + m["q0"], "c." + m["q0"])
        p.model.add_subsystem("c", c)
        p.setup(check=False, mode=pick(r, ["fwd", "rev"]))
        p.final_setup()
        hist = []

        def point():
            h = float(r.uniform(0.05, 3.0) * pick(r, [1, 100]))
            if r.integers(12) == 0:
                h = -h
            t0 = float(r.normal() * 10)
            t = {"dt": [h], "duration": [h * max(n - 1, 1)], "bounds": [t0, t0 + h * max(n - 1, 1)]}[ts]
            return dict(t=t, f=[rates(r, n) for _ in S], q0=[float(r.normal() * 5) for _ in S])

        def setpt(x):
            for nme, v in zip(tn, x["t"]):
                p.set_val("iv." + nme, v)
            for k, (s, m) in enumerate(zip(S, names)):
                p.set_val("iv." + m["f"], x["f"][k])
                if not s["zs"]:
                    p.set_val("iv." + m["q0"], x["q0"][k])

        def run(x):
            setpt(x)
            p.run_model()
            gv = lambda v, u: p.get_val("c." + v, units=u) if u else p.get_val("c." + v)
            rec("Run", t=x["t"], f=x["f"], q0=x["q0"],
                q=[[] if s["fo"] else gv(m["q"], m["qu"]).copy() for s, m in zip(S, names)],
                qf=[float(gv(m["qf"], m["qu"])[0]) for m in names])

        def totals(x):
            of, wrt = [], ["iv." + t for t in tn]
            fac = {}
            meta = p.model.get_io_metadata(metadata_keys=["units"])
            for s, m in zip(S, names):
                for o in ([] if s["fo"] else [m["q"]]) + [m["qf"]]:
                    of.append("c." + o)
                    fac["c." + o] = conv(1.0, meta["c." + o]["units"], m["qu"])
                wrt.append("iv." + m["f"])
                if not s["zs"]:
                    wrt.append("iv." + m["q0"])
            J = p.compute_totals(of=of, wrt=wrt)
            G = lambda o, w: J["c." + o, "iv." + w] * fac["c." + o]
            cross = 0.0
            for a, (s, m) in enumerate(zip(S, names)):
                for b, (s2, m2) in enumerate(zip(S, names)):
                    if a != b:
                        for o in ([] if s["fo"] else [m["q"]]) + [m["qf"]]:
                            cross = max(cross, float(np.abs(G(o, m2["f"])).max()))
                            if not s2["zs"]:
                                cross = max(cross, float(np.abs(G(o, m2["q0"])).max()))
            rec("Totals", t=x["t"], f=x["f"], cross=cross,
                J_rate=[[] if s["fo"] else G(m["q"], m["f"]) for s, m in zip(S, names)],
                Jf_rate=[G(m["qf"], m["f"])[0] for m in names],
                J_t=[[] if s["fo"] else [G(m["q"], t)[:, 0] for t in tn] for s, m in zip(S, names)],
                Jf_t=[[float(G(m["qf"], t)[0, 0]) for t in tn] for m in names],
                J_q0=[[] if s["fo"] or s["zs"] else G(m["q"], m["q0"])[:, 0] for s, m in zip(S, names)],
                Jf_q0=["0" if s["zs"] else float(G(m["qf"], m["q0"])[0, 0]) for s, m in zip(S, names)])

        A, B = point(), point()
        run(A)
        if n <= 13:
            totals(A)
        run(B)
        if n <= 13 and r.integers(2):
            totals(B)
        k = int(r.integers(3))
        if k == 1:
            p.setup(check=False)
            p.final_setup()
            run(A)
            if n <= 7:
                totals(A)
        elif k == 2:
            # another integrator, built and run in between, changes nothing
            o = Integrator(num_nodes=5 if n != 5 else 7, method="simpson", time_setup="dt", diff_units="s")
            o.add_integrand("q0", rate_units="kg/s", zero_start=True)
            p2 = om.Problem(reports=None)
            p2.model.add_subsystem("c", o)
            p2.setup(check=False)
            p2.set_val("c.q0_rate", 5.0)
            p2.run_model()
            run(A)
    except Exception as ex:
        rec("Exc", what=exc_text(ex))


def do_seg(job, rec):
    from openconcept.utilities.math.integrals import OldIntegrator

    prog = job["prog"]
    r = rng_of(*job["seed"])
    n, segs = prog["n"], prog["segs"]
    rec("New", prog={k: v for k, v in prog.items() if k not in ("qu", "du")})
    ts = prog.get("ts")
    names = [f"s{i}|dt" for i in range(len(segs))] if ts is None else dict(dt=["dt"], duration=["duration"], bounds=["t_initial", "t_final"])[ts]
    try:
        kw = dict(segment_names=[s[:-3] for s in names]) if ts is None else dict(time_setup=ts)
        kw.update(num_nodes=n, method=prog["method"], zero_start=prog["zs"], final_only=prog["fo"], diff_units=prog.get("du", "s"), quantity_units=prog.get("qu", "kg"))
        if not all(segs):
            kw["segments_to_count"] = [a[:-3] for a, b in zip(names, segs) if b]
        p = om.Problem(reports=None)
        p.model.add_subsystem("c", OldIntegrator(**kw), promotes=["*"])
        p.setup(check=False)
        N = n * len(segs)
        qu, du = kw["quantity_units"], kw["diff_units"]
        units = dict.fromkeys(["q_final", "q", "q_initial"], qu)
        units.update(dict.fromkeys(names, du))
        units["dqdt"] = f"{qu}/{du}" if qu and du else f"1/{du}" if du else qu
        p.final_setup()
        for m in (*p.model.get_io_metadata("input", metadata_keys=["units"]).values(), *p.model.get_io_metadata("output", metadata_keys=["units"]).values()):
            u, have = units.get(m["prom_name"]), m["units"]
            if m["prom_name"] in units and (bool(u) != bool(have) or u and conv(1.0, have, u) != 1.0):
                rec("Exc", what=f"{m['prom_name']} is in {have} instead of {u}")
        for it in range(2):
            f = np.concatenate([rates(r, n) for _ in segs])
            t = [float(r.uniform(0.1, 3)) for _ in names]
            if ts == "bounds":
                t = [t[0] - 1.5, t[0] + t[1] - 1.5]
            q0 = float(r.normal())
            wrt = ["dqdt"] + names

            def go(f, t, q0):
                p.set_val("dqdt", f)
                for a, b in zip(names, t):
                    p.set_val(a, b)
                if not prog["zs"]:
                    p.set_val("q_initial", q0)
                p.run_model()
                return np.concatenate([p.get_val("q_final"), [] if prog["fo"] else p.get_val("q")]).copy()

            y = go(f, t, q0)
            of = ["q_final"] + ([] if prog["fo"] else ["q"])
            J = p.compute_totals(of=of, wrt=wrt + ([] if prog["zs"] else ["q_initial"]))
            df, dt, dq = r.normal(size=N), r.normal(size=len(t)), 1.3
            ad = np.concatenate([J[o, "dqdt"] @ df + sum(J[o, s][:, 0] * d for s, d in zip(names, dt)) + (0 if prog["zs"] else J[o, "q_initial"][:, 0] * dq) for o in of])
            h = 1e-5
            fd = (go(f + h * df, np.array(t) + h * dt, q0 + h * dq) - go(f - h * df, np.array(t) - h * dt, q0 - h * dq)) / (2 * h)
            rec("SegRun", f=f, t=[t[0] / (n - 1)] if ts == "duration" else [(t[1] - t[0]) / (n - 1)] if ts == "bounds" else t, q0=q0, q=y[1:], qf=y[0], dir_ad=ad, dir_fd=fd, dir_tol=1e-6 * max(1.0, float(np.abs(y).max())))
    except Exception as ex:
        rec("Exc", what=exc_text(ex))


def do_reject(job, rec):
    from openconcept.utilities import Integrator

    def case(what, fn):
        try:
            fn()
            ok = False
        except Exception:
            ok = True
        rec("Reject", what=what, raised=ok)

    rec("New", prog=dict(method="none"))
    for n in (2, 4, 10):
        case(f"even node count {n}", lambda: Integrator(num_nodes=n))

    def both():
        Integrator(num_nodes=5, diff_units="s").add_integrand("q", units="kg", rate_units="kg/s")

    case("units and rate units", both)

    def badts():
        c = Integrator(num_nodes=5, time_setup="nonsense")
        p = om.Problem(reports=None)
        p.model.add_subsystem("c", c)
        p.setup(check=False)

    case("time setup", badts)
