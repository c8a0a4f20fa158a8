"""C23: every aerodynamic force model at random settings, drag build-ups changed one input or option at a time (AeroMC) and wave drag programs around the critical Mach number (WaveMC), decided in AeroTrace."""
import numpy as np
import laws
import registry as R
from common import *

TRACE = "AeroTrace"
FLAP = dict(flap_chord_frac=(0.1, 0.4), Q_flap=(1, 1.5), wing_area_flapped_frac=(0.2, 0.95))
LAM = {f"{s}_laminar_frac": (0.02, 0.6) for s in ("fuselage", "hstab", "vstab", "wing", "nacelle")}
JET = dict(FLAP, **LAM, FF_nacelle=(1, 2), Q_fuselage=(1, 1.3), Q_tail=(1, 1.3), Q_wing=(1, 1.3), drag_fudge_factor=(0.8, 1.3))
OPTS = {
    "Lift": {}, "PolarDrag": {}, "StallSpeed": {}, "CleanCLmax": dict(fudge_factor=(0.8, 1.2)),
    "FlapCLmax": dict(fudge_factor=(0.8, 1.2), flap_chord_frac=(0.1, 0.4), wing_area_flapped_frac=(0.2, 0.95), slat_chord_frac=(0.05, 0.2), slat_span_frac=(0.3, 0.95)),
    "FuselageFormFactor_JetTransport": dict(Q_fuselage=(1, 1.3)), "WingFormFactor_JetTransport": dict(Q=(1, 1.3)), "SkinFrictionCoefficient_JetTransport": dict(laminar_frac=(0.01, 1)), "FlapDrag_JetTransport": FLAP,
    "ParasiteDragCoefficient_JetTransport": JET, "ParasiteDragCoefficient_BWB": dict(FLAP, FF_nacelle=(1, 2), nacelle_laminar_frac=(0.02, 0.6), drag_fudge_factor=(0.8, 1.3)),
    **{f"WaveDrag_{s}_{i}": dict(airfoil_tech_level=(0.85, 1.0)) for i, s in enumerate((2, 3, 4, 4, 3))},
}
REGION = {"whole": ["WaveDrag_2_0", "WaveDrag_3_1"], "inner": ["WaveDrag_4_2"], "outer": ["WaveDrag_4_3"], "normed": ["WaveDrag_3_4"]}
UNIT = 0.02


def mc(tier, seed):
    return [dict(module="AeroMC", cfg=f"AeroMC_{tier}.cfg", workers=4), dict(module="WaveMC", cfg=f"WaveMC_{tier}.cfg", workers=4)]


def preload():
    for n in OPTS:
        R.BY[n].klass()


def jobs(emitted, tier, seed):
    r = rng_of("c23", seed)
    big = tier != "quick"
    out = []
    H = emitted[0]
    first, rest = {}, []
    for i in r.permutation(len(H)):
        h = H[int(i)]
        k = (h["fam"], h["changes"][-1])
        if k in first:
            rest.append(h)
        else:
            first[k] = h
    for k, h in enumerate([*first.values(), *rest][: 6000 if big else 260]):
        out.append((f"book-{k}", dict(book=h, seed=[seed, "b", k])))
    W = emitted[1]
    for k, i in enumerate(r.permutation(len(W))[: 6000 if big else 160]):
        out.append((f"wave-{k}", dict(wave=W[int(i)], seed=[seed, "w", k])))
    for c in OPTS:
        for k in range(300 if big else 12):
            out.append((f"{c}-{k}", dict(name=c, k=k, seed=[seed, c, k])))
    return out


def draw(r, c, p=2):
    return {o: float(f"{r.uniform(*d):.6g}") for o, d in OPTS[c].items() if r.integers(p)}


def outer(b, x):
    return {n: v for n, v in x.items() if n not in b.inner}


def execute(job, rec):
    r = rng_of(*job["seed"])
    try:
        if "book" in job:
            return book(job["book"], r, rec)
        if "wave" in job:
            return wave(job["wave"], r, rec)
    except Exception as ex:
        return rec("Exc", what=exc_text(ex))
    c, e = job["name"], R.BY[job["name"]]
    nn = pick(r, [1, 2, 5])
    laws.session(dict(name=c, nn=nn, seed=job["seed"], variant=job["k"] % len(e.opts), opts=draw(r, c)), rec, points=2, pts=lambda b, x, k, r: outer(b, x))


def book(prog, r, rec):
    body, conf = prog["fam"].split()
    c = "ParasiteDragCoefficient_BWB" if body == "bwb" else "ParasiteDragCoefficient_JetTransport"
    e = R.BY[c]
    o = dict(configuration=conf, **({} if body == "bwb" else dict(include_wing=body == "jet")), **draw(r, c))
    nn = pick(r, [1, 3])
    b = R.Built(e, nn, o)
    laws.unset(b, rec)
    x = outer(b, b.point(r, None))
    b.run(x)
    xs, ys = laws.snapshot(b)
    rec("Eval", c=c, nn=nn, o=o, x=xs, y=ys)
    local = {laws.local(n): n for n in x}
    for n in prog["changes"]:
        if n in OPTS[c]:
            o = dict(o)
            o[n] = float(f"{r.uniform(*OPTS[c][n]):.6g}")
            b = R.Built(e, nn, o)
        else:
            x = dict(x)
            x[local[n]] = b.point(r, pick(r, [None, "ends"]))[local[n]]
        b.run(x)
        prev = ys
        xs, ys = laws.snapshot(b)
        rec("Eval", c=c, nn=nn, o=o, x=xs, y=ys, changed=n, prev=prev)


def wave(prog, r, rec):
    e = R.BY[pick(r, REGION[prog["wave"]])]
    nn = pick(r, [1, 3])
    o = dict(e.opts[0], airfoil_tech_level=float(f"{r.uniform(0.86, 0.94):.5g}"))
    b = R.Built(e, nn, o)
    x = {laws.local(n): v for n, v in b.point(r, None).items()}
    put = lambda: {"c." + n: v for n, v in x.items()}
    # find the critical Mach number of every node from the drag far above it
    x["fltcond|M"] = np.full(nn, 1.5)
    b.run(put())
    cd = np.array(laws.snapshot(b)[1]["CD_wave"])
    if "S_ref" in x:
        # whatever area it refers to: two points give the excess without the factor
        x["fltcond|M"] = np.full(nn, 1.4)
        b.run(put())
        q = (np.array(laws.snapshot(b)[1]["CD_wave"]) / cd) ** 0.25
        ex = 0.1 / (1 - q)
    else:
        ex = (cd / 40) ** 0.25
    crit = 1.5 - ex
    start = prog["mach"] - prog["steps"].count("Faster") + prog["steps"].count("Slower")
    x["fltcond|M"] = crit + (start - 3 + r.choice([-0.4, -1e-3, 0, 1e-3, 0.3, 0.45], size=nn)) * UNIT
    b.run(put())
    xs, ys = laws.snapshot(b)
    rec("Eval", c=e.cls, nn=nn, o=o, x=xs, y=ys)
    lo, hi = o.get("idx_sec_start", 0), o.get("idx_sec_end", o["num_sections"] - 1)
    for s in prog["steps"]:
        f = r.uniform(1.01, 1.2)
        x = dict(x)
        if s in ("Faster", "Slower"):
            x["fltcond|M"] = x["fltcond|M"] + UNIT * (1 if s == "Faster" else -1)
        elif s in ("Load", "Unload"):
            x["fltcond|CL"] = x["fltcond|CL"] * (f if s == "Load" else 1 / f)
        elif s in ("Thicken", "Thin"):
            t = np.array(x["toverc_sec"], float)
            t[lo : hi + 1] *= f if s == "Thicken" else 1 / f
            x["toverc_sec"] = t
        elif s == "Retech":
            o = dict(o, airfoil_tech_level=float(f"{o['airfoil_tech_level'] * r.uniform(1.001, 1.03):.6g}"))
            b = R.Built(e, nn, o)
        else:
            for n in ("toverc_sec", "chord_sec"):
                v = np.array(x[n], float)
                out = [i for i in range(len(v)) if i < lo or i > hi]
                v[out] *= r.uniform(0.7, 1.3, size=len(out))
                x[n] = v
            if lo:
                y = np.array(x["y_sec"], float)
                y[:lo] -= np.sort(r.uniform(0, 3, size=lo))[::-1]
                x["y_sec"] = y
        b.run(put())
        prev = ys
        xs, ys = laws.snapshot(b)
        rec("Eval", c=e.cls, nn=nn, o=o, x=xs, y=ys, step=s, prev=prev)
