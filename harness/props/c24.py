"""C24: wings laid out along MeshMC's programs through every mesh generator, section interpolation and planform component, decided in MeshTrace."""
import numpy as np
import laws
import registry as R
from common import *

TRACE = "MeshTrace"
PLAN = {"WingMACTrapezoidal": {}, "WingSpan": {}, "WingAspectRatio": {}, "CylinderSurfaceArea": {}, "HStabVolumeCoefficientSizing": dict(C_ht=(0.5, 1.2)), "VStabVolumeCoefficientSizing": dict(C_vt=(0.03, 0.12))}
BAD = [("SectionPlanformMesh", dict(num_sections=1)), ("SectionPlanformMesh", dict(num_sections=3, num_y=[3])), ("SectionPlanformMesh", dict(num_sections=2, num_y=(3, 4))),
       ("ThicknessChordRatioInterp", dict(num_sections=1)), ("ThicknessChordRatioInterp", dict(num_sections=4, num_y=[2, 2])), ("SectionLinearInterp", dict(num_sections=1)), ("SectionLinearInterp", dict(num_sections=3, num_y=[2, 2, 2]))]


def mc(tier, seed):
    return [dict(module="MeshMC", cfg=f"MeshMC_{tier}.cfg", workers=4)]


def classes():
    import openconcept.aerodynamics.openaerostruct as oas
    import openconcept.geometry as geo

    return {n: getattr(m, n) for m in (oas, geo) for n in dir(m) if n[0].isupper()}


def preload():
    classes()
    for n in PLAN:
        R.BY[n].klass()


def jobs(emitted, tier, seed):
    r = rng_of("c24", seed)
    big = tier != "quick"
    E = emitted[0]
    out = [(f"bad-{k}", dict(bad=k, seed=[seed])) for k in range(len(BAD))]
    for k, i in enumerate(r.permutation(len(E))[: 5000 if big else 260]):
        out.append((f"wing-{k}", dict(wing=E[int(i)], seed=[seed, "w", k])))
    for k in range(1500 if big else 60):
        out.append((f"trap-{k}", dict(trap=k, seed=[seed, "t", k])))
    for c in PLAN:
        for k in range(200 if big else 10):
            out.append((f"{c}-{k}", dict(name=c, k=k, seed=[seed, c, k])))
    return out


class Model:
    def __init__(self, c, **o):
        import openmdao.api as om

        self.c, self.o = c, o
        p = self.p = om.Problem(reports=None)
        p.model.add_subsystem("c", classes()[c](**o), promotes=["*"])
        p.setup(check=False)
        p.final_setup()
        self.m = {io: {m["prom_name"]: m for m in p.model.get_io_metadata(io, metadata_keys=["units", "shape"]).values() if not m["prom_name"].startswith("_auto")} for io in ("input", "output")}

    def run(self, x, r, slopes=False):
        """x in SI; every value is given in some unit of its kind"""
        p = self.p
        for n, v in x.items():
            u = self.m["input"][n]["units"]
            u = pick(r, {"m": ["m", "ft"], "m**2": ["m**2", "ft**2"], "deg": ["deg", "rad"]}.get(u, [u]))
            p.set_val(n, laws.unsi(n, v, u), units=u)
        p.run_model()
        if slopes:
            p.model.run_linearize()
        xs = {n: laws.si(n, p.get_val(n, units=m["units"]), m["units"]).tolist() for n, m in self.m["input"].items()}
        ys = {n: laws.si(n, p.get_val(n, units=m["units"]), m["units"]).tolist() for n, m in self.m["output"].items() if n not in xs}
        return xs, ys


def execute(job, rec):
    r = rng_of(*job["seed"])
    try:
        if "bad" in job:
            c, o = BAD[job["bad"]]
            try:
                Model(c, **o)
                return rec("Bad", rejected=False, what=f"{c} {o}")
            except ValueError:
                return rec("Bad", rejected=True, what="")
        if "wing" in job:
            return wing(job["wing"], r, rec)
        if "trap" in job:
            return trap(r, rec)
    except Exception as ex:
        return rec("Exc", what=exc_text(ex))
    c, e = job["name"], R.BY[job["name"]]
    laws.session(dict(name=c, nn=1, seed=job["seed"], opts={o: float(f"{r.uniform(*d):.6g}") for o, d in PLAN[c].items() if r.integers(2)}), rec, points=2)


def style(r, panels):
    if len(set(panels)) == 1 and r.integers(2):
        return panels[0]
    return pick(r, [list, tuple, np.array, lambda v: np.array(v, float)])(panels)


def wing(w, r, rec):
    panels, cut, n = w["panels"], w["cut"], len(w["chord"])
    chord = np.array(w["chord"]) * r.uniform(0.4, 3) * r.uniform(0.9, 1.1, size=n)
    y = -np.cumsum(r.uniform(0.3, 6, size=n - 1))[::-1]
    x = r.uniform(-3, 8, size=n)
    tc = r.uniform(0.05, 0.2, size=n)
    seen = dict(y_sec=y, chord_sec=chord, x_LE_sec=x)
    # the mesh, twice at different numbers of panels, over a history of shapes
    scale, nx = bool(r.integers(2)), int(r.integers(1, 5))
    for ps in (panels, [p * int(r.integers(2, 4)) for p in panels]):
        m = Model("SectionPlanformMesh", num_x=nx, num_y=style(r, ps), num_sections=n, scale_area=scale)
        for k in range(2):
            z = dict(seen) if k == 0 else {a: v * r.uniform(0.7, 1.4) for a, v in seen.items()}
            if scale:
                z["S"] = float(r.uniform(5, 300))
            xs, ys = m.run(z, r, slopes=bool(r.integers(2)))
            rec("Eval", c=m.c, x=xs, y=ys, o={}, num_x=nx, panels=ps)
    cos = bool(r.integers(2))
    m = Model("ThicknessChordRatioInterp", num_y=style(r, panels), num_sections=n, **({} if cos and r.integers(2) else dict(cos_spacing=cos)))
    xs, ys = m.run(dict(section_toverc=tc), r)
    rec("Eval", c=m.c, x=xs, y=ys, o={}, panels=panels, cos=cos)
    u = pick(r, [None, "m", "deg", "K"])
    m = Model("SectionLinearInterp", num_y=style(r, panels), num_sections=n, units=u, **({} if cos and r.integers(2) else dict(cos_spacing=cos)))
    xs, ys = m.run(dict(property_sec=r.uniform(-5, 5, size=n) + (400 if u == "K" else 0)), r)
    rec("Eval", c=m.c, x=xs, y=ys, o={}, panels=panels, cos=cos)
    # planform relations of the selected sections
    o = {}
    if cut[0] or r.integers(2):
        o["idx_sec_start"] = cut[0]
    if cut[1] < n - 1 or r.integers(2):
        o["idx_sec_end"] = cut[1]
    fr = {}
    if r.integers(2):
        fr["chord_frac_start"] = float(f"{r.uniform(0, 0.4):.6g}")
    if r.integers(2):
        fr["chord_frac_end"] = float(f"{r.uniform(0.5, 1):.6g}")
    for c, extra in (("WingAreaFromSections", fr), ("WingMACFromSections", {}), ("WingSweepFromSections", {})):
        m = Model(c, num_sections=n, **o, **extra)
        for z in (seen, {a: v * r.uniform(0.7, 1.4, size=len(v)) if a == "chord_sec" else v * r.uniform(0.6, 1.5) for a, v in seen.items()}):
            xs, ys = m.run({a: v for a, v in z.items() if a in m.m["input"]}, r)
            rec("Eval", c=c, x=xs, y=ys, o=dict(o, **extra))
    area = lambda a, b: Model("WingAreaFromSections", num_sections=n, idx_sec_start=a, idx_sec_end=b).run(dict(y_sec=y, chord_sec=chord), r)[1]["S"][0]
    edges = sorted({0, *cut, n - 1})
    rec("Split", v=dict(parts=[area(a, b) for a, b in zip(edges, edges[1:])], whole=Model("WingAreaFromSections", num_sections=n).run(dict(y_sec=y, chord_sec=chord), r)[1]["S"]))


def trap(r, rec):
    nx, ny = int(r.integers(1, 6)), int(r.integers(1, 9))
    m = Model("TrapezoidalPlanformMesh", num_x=nx, num_y=ny)
    for k in range(2):
        z = dict(S=r.uniform(5, 400), AR=r.uniform(3, 16), taper=pick(r, [1.0, r.uniform(0.05, 1), r.uniform(0.2, 0.6)]), sweep=np.deg2rad(pick(r, [0.0, r.uniform(-30, 40), r.uniform(10, 35)])))
        xs, ys = m.run(z, r, slopes=bool(r.integers(2)))
        rec("Eval", c=m.c, x=xs, y=ys, o={}, num_x=nx, num_y=ny)
    g = np.array(ys["mesh"])
    le, te = g[0], g[-1]
    sec = dict(y_sec=le[:-1, 1], chord_sec=te[:, 0] - le[:, 0], x_LE_sec=le[:, 0])
    n = ny + 1
    mac = Model("WingMACFromSections", num_sections=n).run(sec, r)[1]
    arm = Model("WingMACTrapezoidal").run(dict(S_ref=z["S"], AR=z["AR"], taper=z["taper"]), r)[1]["MAC"]
    span = Model("WingSpan").run(dict(S_ref=z["S"], AR=z["AR"]), r)[1]["span"]
    c0 = 2 * np.sqrt(z["S"] / z["AR"]) / (1 + z["taper"])
    # on a straight quarter-chord line the mean chord sits at its spanwise centroid
    ybar = span[0] / 6 * (1 + 2 * z["taper"]) / (1 + z["taper"])
    rec("Same", v=dict(S=z["S"], AR=z["AR"], sweep=z["sweep"], span_trap=span, span_mesh=-2 * float(le[0, 1]), AR_back=Model("WingAspectRatio").run(dict(S_ref=z["S"], span=span), r)[1]["AR"],
                       MAC_trap=arm, MAC_sec=mac["MAC"], x4_sec=mac["x_c4MAC"], x4=float(ybar * np.tan(z["sweep"])),
                       S_sec=Model("WingAreaFromSections", num_sections=n).run(dict(y_sec=sec["y_sec"], chord_sec=sec["chord_sec"]), r)[1]["S"],
                       sweep_sec=Model("WingSweepFromSections", num_sections=n).run(sec, r)[1]["c4sweep"]))
