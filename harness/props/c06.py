"""C06: takeoffs of the profiles of MissionMC, the decision of TakeoffMC, and the takeoff segments and components on their own, replayed in TakeoffTrace."""
import numpy as np
import openmdao.api as om
import mission as M
from common import *
from props.c05 import U, scenarios

TRACE = "TakeoffTrace"
LIMIT = 300
COMP = {
    "ClimbAngleComp": (True, {}, {"thrust": U(3000, 30000), "weight": U(4000, 9000), "drag": U(1000, 9000)}),
    "TakeoffTransition": (False, dict(h_obstacle=(5, 20), load_factor=(1.05, 1.5)), {"fltcond|Utrue": U(25, 90), "gamma": U(0.01, 0.35)}),
    "TakeoffClimb": (False, dict(h_obstacle=(5, 20)), {"h_transition": U(0.1, 12), "gamma": U(0.01, 0.3), "fltcond|Utrue": U(25, 90)}),
}


def mc(tier, seed):
    return [dict(module="MissionMC", cfg=f"MissionMC_{tier}.cfg", workers=4), dict(module="TakeoffMC", cfg=f"TakeoffMC_{tier}.cfg", workers=2)]


def preload():
    import openconcept.mission  # noqa


def jobs(emitted, tier, seed):
    r = rng_of("c06", seed)
    T = tier != "quick"
    takeoffs = [e for e in emitted[0] if e["P"]["to"] != "none" or e["P"]["roll"]]
    out = [(f"mission{i}-{j:03d}", dict(scen=e, seed=["c06", seed, i, j])) for i, j, e in scenarios(takeoffs, r, 300 if T else 14)]
    for kind, tolds in (("roll", ["v0v1", "v1vr", "v1v0"]), ("rotation", ["rotate"]), ("simplified", ["rotate"]), ("gamma", ["EngineOutClimbAngle"])):
        for t in tolds:
            for j in range(200 if T else 10):
                out.append((f"{kind}-{t}-{j:03d}", dict(kind=kind, told=t, seed=["c06s", seed, kind, t, j])))
    for c in COMP:
        for j in range(400 if T else 25):
            out.append((f"{c}-{j:03d}", dict(comp=c, seed=["c06c", seed, c, j])))
    cases = sorted({(e["zone"], e["sign"], e["solution"]) for e in emitted[1]})
    for j in range(60 if T else 6):
        out.append((f"points-{j:03d}", dict(points=[list(c) for c in cases], seed=["c06p", seed, j])))
    for j in range(2000 if T else 120):
        out.append((f"decision-{j:03d}", dict(decide=j % 3, seed=["c06d", seed, j])))
    return [out[i] for i in r.permutation(len(out))]


def execute(job, rec):
    r = rng_of(*job["seed"])
    try:
        if "scen" in job:
            M.session(job["scen"], r, rec)
        elif "kind" in job:
            M.segment(job["kind"], job["told"], r, rec)
        elif "points" in job:
            points(job["points"], r, rec)
        elif "decide" in job:
            decide(job["decide"], r, rec)
        else:
            nodes, o, dom = COMP[job["comp"]]
            M.component(job["comp"], r, rec, int(pick(r, [1, 2, 5])) if nodes else 0, {k: M.g6(r.uniform(*v)) for k, v in o.items() if r.integers(2)}, dom)
    except Exception as ex:
        rec("Exc", what=exc_text(ex))


def points(cases, r, rec):
    """every case of the decision, proposed to the solver's residual"""
    from openconcept.mission.phases import BFLImplicitSolve

    p = om.Problem(reports=None)
    p.model.add_subsystem("c", BFLImplicitSolve(), promotes=["*"])
    p.setup(check=False)
    p.final_setup()
    for zone, sign, solution in cases:
        if zone == "close" and sign >= 0:
            continue  # drawn to the rotation speed; whether equal distances are accepted just short of it is left open
        vr = r.uniform(25, 90)
        v1 = dict(below=vr - r.uniform(0.11, 12), close=vr - r.uniform(0.01, 0.09), at=vr, above=vr + pick(r, [r.uniform(0.001, 0.09), r.uniform(0.2, 15)]))[zone]
        go = r.uniform(400, 2500)
        stop = go - sign * r.uniform(0.1, 600)
        for n, v in (("takeoff|vr", vr), ("takeoff|v1", v1), ("distance_continue", go), ("distance_abort", stop)):
            p.set_val(n, v)
        p.model.run_apply_nonlinear()
        res = abs(float(p.model._residuals["takeoff|v1"][0]))
        rec("Point", vr=vr, v1=v1, go=go, stop=stop, zero=bool(res < 1e-9), solution=solution)


def decide(way, r, rec):
    """the decision speed solved for a runway of our own: way 0 balanced, 1 limited by the rotation speed, 2 whichever"""
    from openconcept.mission.phases import BFLImplicitSolve

    vr = r.uniform(30, 90)
    vb = vr * (r.uniform(0.6, 0.98) if way == 0 else r.uniform(1.02, 1.3) if way == 1 else r.uniform(0.7, 1.2))
    if abs(vb - vr) < 0.3:
        vb = vr - 0.5
    k1, k2, D = r.uniform(0.1, 0.6), r.uniform(5, 25), r.uniform(600, 2500)
    c = D - k1 * vb ** 2          # stop = k1 v^2 + c, go = D + k2 (vb - v)
    p = om.Problem(reports=None)
    m = p.model
    m.add_subsystem("run", om.ExecComp([f"stop={k1!r}*v**2+{c!r}", f"go={D!r}+{k2!r}*({vb!r}-v)"], stop={"units": "m"}, go={"units": "m"}, v={"units": "m/s"}), promotes=[("v", "takeoff|v1")])
    m.add_subsystem("bfl", BFLImplicitSolve(), promotes_inputs=["takeoff|vr"], promotes_outputs=["takeoff|v1"])
    m.connect("run.stop", "bfl.distance_abort")
    m.connect("run.go", "bfl.distance_continue")
    m.nonlinear_solver = om.NewtonSolver(solve_subsystems=True, iprint=-1, maxiter=60, atol=1e-10, rtol=1e-14, err_on_non_converge=True)
    m.nonlinear_solver.linesearch = om.BoundsEnforceLS(bound_enforcement="scalar", iprint=-1)
    m.linear_solver = om.DirectSolver()
    p.setup(check=False)
    p.set_val("takeoff|vr", vr, units="m/s")
    for k in range(2):
        p.set_val("takeoff|v1", vr * r.uniform(0.5, 1.3), units="m/s")
        p.run_model()
        g = lambda n: float(p.get_val(n)[0])
        rec("Decision", v1=g("takeoff|v1"), vr=vr, go=g("run.go"), stop=g("run.stop"))
