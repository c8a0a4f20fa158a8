"""C27: plots of the layouts of PlotMC and of random wings, drawn without a screen and read back from matplotlib, decided in PlotTrace."""
import numpy as np
import openmdao.api as om
from common import *

TRACE = "PlotTrace"
CH = dict(t=("s", ["s", "min", "h"]), h=("m", ["m", "ft", "km"]), v=("m/s", ["kn", "m/s", "ft/s"]), W=("kg", ["lb", "kg"]), n=(None, [None]), q=("Pa", ["psi", "Pa"]), T=("degK", ["degC", "degK", "degF"]))


def mc(tier, seed):
    return [dict(module="PlotMC", cfg=f"PlotMC_{tier}.cfg")]


def preload():
    import matplotlib.pyplot  # noqa
    import openconcept.utilities.visualization  # noqa


def jobs(emitted, tier, seed):
    r = rng_of("c27", seed)
    H = emitted[0]
    big = tier != "quick"
    out = []
    for k, i in enumerate(r.permutation(len(H))[: 1500 if big else 160]):
        out.append((f"{'grid' if k % 4 else 'traj'}-{k}", dict(kind="grid" if k % 4 else "traj", lay=H[int(i)], seed=[seed, "g", k])))
    for k in range(1500 if big else 150):
        out.append((f"wing-{k}", dict(kind="wing", seed=[seed, "w", k])))
    return out


class Case:
    """phases with histories, as a problem"""

    def __init__(self, phases, nns, chans, r):
        p = self.p = om.Problem(reports=None)
        self.vals = {}
        for f, n in zip(phases, nns):
            g = p.model.add_subsystem(f.split(".")[0], om.Group()) if "." in f else None
            c = om.IndepVarComp()
            for a, u in chans:
                v = r.normal(scale=100, size=n)
                self.vals[f, a] = (v, u)
                c.add_output(a, v, units=u)
            (g or p.model).add_subsystem(f.split(".")[-1], c)
        p.setup()
        p.final_setup()


def execute(job, rec):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    plt.close("all")
    keep = plt.show, plt.savefig
    plt.show = lambda *a, **k: None
    try:
        dict(grid=grid, traj=grid, wing=wing)[job["kind"]](job, rec, plt)
    except Exception as ex:
        rec("Exc", what=exc_text(ex))
    finally:
        plt.show, plt.savefig = keep
        plt.close("all")


def lines(ax):
    return [dict(x=np.array(q.get_xdata(), float).tolist(), y=np.array(q.get_ydata(), float).tolist()) for q in ax.lines]


def grid(job, rec, plt):
    from openconcept.utilities import plot_trajectory, plot_trajectory_grid
    r = rng_of(*job["seed"])
    lay = job["lay"]
    phases = [["climb", "cruise", "seg.descent"][int(i)] for i in r.permutation(3)[: lay["phases"]]]
    ks = sorted(CH)
    pool = [(a if k == 0 else f"{a}{k}", CH[a][0], CH[a][1]) for k in range(2) for a in ks]
    chans = [pool[int(i)] for i in r.permutation(len(pool))[: lay["vars"] + 1]]
    nns = [int(r.integers(1, 6)) for _ in phases]
    traj = job["kind"] == "traj"
    cases = [Case(phases, nns, [c[:2] for c in chans], r) for _ in range(1 if traj else lay["cases"])]
    units = [pick(r, c[2]) for c in chans]
    data = [[[np.array(conv(*([c.vals[f, a][0]] + [c.vals[f, a][1], u]))).tolist() for f in phases] for (a, _, _), u in zip(chans, units)] for c in cases]
    xl = pick(r, [None, "abscissa"])
    yl = pick(r, [None, [f"label {i}" for i in range(lay["vars"])]])
    kw = {}
    if xl:
        kw["x_label"] = xl
    if yl:
        kw["y_labels"] = yl
    if r.integers(2):
        kw["marker"] = pick(r, ["-", "x", "s-"])
    ys = [c[0] for c in chans[1:]]
    ev = dict(data=data, yvars=ys, xlabel=xl or chans[0][0], ylabels=yl or [])
    if traj:
        title = pick(r, [None, "My title"])
        if title:
            kw["plot_title"] = title
        plot_trajectory(cases[0].p, chans[0][0], units[0], ys, units[1:], phases, **kw)
        figs = [plt.figure(n) for n in plt.get_fignums()]
        rec("Traj", figs=[dict(lines=[q for a in f.axes for q in lines(a)], xlabel=f.axes[0].get_xlabel(), ylabel=f.axes[0].get_ylabel(), title=f.axes[0].get_title()) for f in figs], title=title or "Trajectory", **ev)
        return
    saved = []

    def savefig(name, *a, **k):
        saved.append([str(name), plt.gcf().number])

    plt.savefig = savefig
    save = bool(r.integers(2))
    stem = "out/plots_1"
    if save:
        kw["savefig"] = stem
    if r.integers(2):
        kw["figsize"] = (5, 4)
    kw["grid_layout"] = [lay["rows"], lay["cols"]]
    plot_trajectory_grid([c.p for c in cases], chans[0][0], units[0], ys, units[1:], phases, **kw)
    nums = plt.get_fignums()
    figs = [plt.figure(n) for n in nums]
    rec("Grid", pages=[dict(axes=[dict(lines=lines(a), xlabel=a.get_xlabel(), ylabel=a.get_ylabel()) for a in f.axes]) for f in figs],
        rows=lay["rows"], cols=lay["cols"], save=save, saved=[[s, nums.index(n) + 1] for s, n in saved], stem=stem, **ev)


def kinds(q):
    """what came back: f a figure, a axes, c contours"""
    from matplotlib.figure import Figure
    from matplotlib.axes import Axes
    from matplotlib.contour import ContourSet
    return ["f" if isinstance(o, Figure) else "a" if isinstance(o, Axes) else "c" if isinstance(o, ContourSet) else "?" for o in (q if isinstance(q, tuple) else () if q is None else (q,))]


def frame(a, kw):
    """axes as a reader of the plot sees them"""
    return dict(lim=[float(v) for v in a.get_xlim()], fixed=not a.get_autoscalex_on(), off=not a.axison, square=a.get_aspect() in (1.0, "equal"), size=[float(v) for v in a.figure.get_size_inches()], fit=kw.get("set_xlim", True), bare=kw.get("turn_off_axis", True))


def wing(job, rec, plt):
    from matplotlib.collections import LineCollection, PolyCollection
    from openconcept.utilities.visualization import plot_OAS_mesh, plot_OAS_force_contours
    r = rng_of(*job["seed"])
    nx, ny = int(r.integers(1, 4)), int(r.integers(1, 6))
    y = -np.append(np.sort(r.uniform(0.5, 30, ny))[::-1], 0)
    c = np.sort(r.uniform(0.5, 5, ny + 1))
    u = np.append(0, np.append(np.sort(r.uniform(0.1, 0.9, nx - 1)), 1))
    m = np.zeros((nx + 1, ny + 1, 3))
    m[:, :, 0] = u[:, None] * c + np.abs(y) * r.uniform(-0.3, 0.7)
    m[:, :, 1] = y * (1 + (0.02 * u[:, None] if r.integers(2) else 0))
    m[:, :, 2] = r.normal(size=m.shape[1]) * 0.1
    ax = None
    if r.integers(2):
        _, ax = plt.subplots()
    kw = {}
    if r.integers(2):
        kw.update(set_xlim=bool(r.integers(2)), turn_off_axis=bool(r.integers(2)))
    before = m.copy()
    q = plot_OAS_mesh(m, ax=ax, **kw) if ax is not None else plot_OAS_mesh(m, **kw)
    a = ax if ax is not None else q[1]
    rec("Frame", draws="mesh", made=ax is None, whole=True, kinds=kinds(q), mesh=before.tolist(), after=m.tolist(), **frame(a, kw))
    outline = [p.vertices.tolist() for g in a.collections if isinstance(g, PolyCollection) for p in g.get_paths()]
    rec("Mesh", mesh=before.tolist(), outline=outline, segs=[[s.tolist() for s in g.get_segments()] for g in a.collections if isinstance(g, LineCollection)])
    F = r.normal(size=(nx, ny, 3)) * 1e4
    side = pick(r, ["left", "right", "both", None])
    d = pick(r, [0, 1, 2, None])
    if side:
        kw["wing"] = side
    if d is not None:
        kw["force_dir"] = d
    import matplotlib.axes
    seen, plain = [], matplotlib.axes.Axes.contourf

    def contourf(self, X, Y, Z, *b, **k):
        seen.append((np.array(X), np.array(Y), np.array(Z)))
        return plain(self, X, Y, Z, *b, **k)

    matplotlib.axes.Axes.contourf = contourf
    try:
        if r.integers(2):
            kw["levels"] = 7
        ax = plt.subplots()[1] if r.integers(2) else None
        Fb = F.copy()
        q = plot_OAS_force_contours(m, F, ax=ax, **kw)
    finally:
        matplotlib.axes.Axes.contourf = plain
    rec("Frame", draws="forces", made=ax is None, whole=side in ("both", None), kinds=kinds(q), mesh=before.tolist(), after=m.tolist(), **frame(plt.gcf().axes[0], kw))
    rec("Forces", before=Fb.ravel().tolist(), after=F.ravel().tolist())
    X, Y, Z = seen[0]
    rec("Press", mesh=before.tolist(), forces=F.tolist(), wing=side or "both", dir=2 if d is None else d, x=X.ravel().tolist(), y=Y.ravel().tolist(), z=Z.ravel().tolist())
    for bad in (dict(wing="center"), dict(force_dir=3)):
        try:
            plot_OAS_force_contours(m, F, **bad)
            rec("Reject", raised=False, what=str(bad))
        except ValueError:
            rec("Reject", raised=True, what=str(bad))
