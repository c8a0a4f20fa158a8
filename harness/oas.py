"""Direct OpenAeroStruct analyses, assembled here without OpenConcept: what a trained surrogate must reproduce at its training points."""
import numpy as np
import openmdao.api as om
from openaerostruct.aerodynamics.aero_groups import AeroPoint
from openaerostruct.integration.aerostruct_groups import AerostructGeometry, AerostructPoint

X12 = [0.1, 0.2, 0.3, 0.4, 0.5, 0.6]
AIRFOIL = dict(data_x_upper=np.array(X12), data_x_lower=np.array(X12), data_y_upper=np.array([0.045, 0.054, 0.059, 0.06, 0.0586, 0.054]), data_y_lower=np.array([-0.044, -0.0545, -0.059, -0.0594, -0.0561, -0.045]))
VLM0 = dict(name="wing", symmetry=True, S_ref_type="projected", CL0=0.0, CD0=0.0, k_lam=0.05, c_max_t=0.37, with_viscous=True, with_wave=True)
STRUCT0 = dict(name="wing", symmetry=True, S_ref_type="projected", fem_model_type="wingbox", original_wingbox_airfoil_t_over_c=0.12, CL0=0.0, CD0=0.0078, k_lam=0.05, c_max_t=0.38, with_viscous=True, with_wave=True,
               E=73.1e9, G=73.1e9 / 2 / 1.33, mrho=2.78e3, fem_origin=0.35, wing_weight_ratio=1.25, strength_factor_for_upper_skin=1.0, struct_weight_relief=True, distributed_fuel_weight=False, exact_failure_constraint=False)
STRUCT0["yield"] = 420e6 / 1.5


def atmosphere(h, dT):
    """temperature, pressure (the specification checks what follows from them)"""
    P0, L, T0, E, Ts, Pt = 101325.0, 0.0065, 288.16, 5.2561, 216.65, 22632.0
    tr = lambda x: (T0 - L * x, P0 * (1 - L * x / T0) ** E, -L, -P0 * E * L / T0 * (1 - L * x / T0) ** (E - 1))
    st = lambda x: (Ts, Pt * np.exp(-9.81 * (x - 11000) / (288 * Ts)), 0.0, -9.81 / (288 * Ts) * Pt * np.exp(-9.81 * (x - 11000) / (288 * Ts)))
    if h <= 10500:
        T, p = tr(h)[:2]
    elif h > 11500:
        T, p = st(h)[:2]
    else:
        a, b, d, t = tr(10500.0), st(11500.0), 1000.0, (h - 10500) / 1000
        H = lambda u, v, su, sv: (2 * t**3 - 3 * t**2 + 1) * u + (t**3 - 2 * t**2 + t) * d * su + (3 * t**2 - 2 * t**3) * v + (t**3 - t**2) * d * sv
        T, p = H(a[0], b[0], a[2], b[2]), H(a[1], b[1], a[3], b[3])
    return T + dT, p


def flight(M, h, dT):
    """speed, density, Reynolds number per length"""
    T, p = atmosphere(h, dT)
    rho = p / (287.058 * T)
    v = M * np.sqrt(1.4 * 287.058 * T)
    return v, rho, rho * v / (1.792398e-5 - 3.329134e-10 * h)


def bezier(cp, t):
    cp = [np.full_like(t, c) for c in cp]
    while len(cp) > 1:
        cp = [(1 - t) * a + t * b for a, b in zip(cp, cp[1:])]
    return cp[0]


def trapezoid(S, AR, taper, sweep, nx, ny, twist=None):
    """left half of a trapezoidal wing, twisted about its quarter chord (rad)"""
    half = np.sqrt(AR * S) / 2
    root = S / (half * (1 + taper))
    w = np.linspace(0, 1, ny + 1)
    c = root * (taper + (1 - taper) * w)
    y = -half * (1 - w)
    u = np.linspace(0, 1, nx + 1)
    m = np.zeros((nx + 1, ny + 1, 3))
    x4 = -y * np.tan(sweep)
    dx = c[None, :] * (u[:, None] - 0.25)
    th = bezier(twist, w) if twist is not None else 0 * w
    m[:, :, 0] = x4 + np.cos(th) * dx
    m[:, :, 1] = y
    m[:, :, 2] = -np.sin(th) * dx
    return m


def dummy(nx, ny):
    m = np.zeros((nx + 1, ny + 1, 3))
    m[:, :, 0], m[:, :, 1] = np.meshgrid(np.linspace(0, 1, nx + 1), np.linspace(-1, 0, ny + 1), indexing="ij")
    return m


class Aero:
    """vortex lattice analysis of a given mesh"""

    def __init__(self, nx, ny, opts):
        surf = dict(VLM0, mesh=dummy(nx, ny), t_over_c=np.array([0.12]), **{})
        surf.update(opts)
        p = self.p = om.Problem(reports=None)
        n = self.n = surf["name"]
        ivc = p.model.add_subsystem("ivc", om.IndepVarComp(), promotes=["*"])
        for v, u, d in (("v", "m/s", 1.0), ("alpha", "deg", 0.0), ("Mach_number", None, 0.1), ("re", "1/m", 1e6), ("rho", "kg/m**3", 1.0)):
            ivc.add_output(v, d, units=u)
        ivc.add_output("cg", np.zeros(3), units="m")
        ivc.add_output("msh", dummy(nx, ny), units="m")
        ivc.add_output("toc", np.full(ny, 0.12))
        p.model.add_subsystem("a", AeroPoint(surfaces=[surf]), promotes_inputs=["v", "alpha", "Mach_number", "re", "rho", "cg"])
        p.model.connect("msh", [f"a.{n}.def_mesh", f"a.aero_states.{n}_def_mesh"])
        p.model.connect("toc", f"a.{n}_perf.t_over_c")
        p.setup(check=False)

    def __call__(self, M, alpha, h, dT, mesh, toverc):
        p, n = self.p, self.n
        v, rho, re = flight(M, h, dT)
        for k, val in (("v", v), ("alpha", alpha), ("Mach_number", M), ("re", re), ("rho", rho), ("msh", mesh), ("toc", toverc)):
            p.set_val(k, val)
        p.run_model()
        g = lambda k: p.get_val(f"a.{n}_perf.{k}").copy()
        return dict(v=v, rho=rho, re=re, CL=g("CL").item(), CD=g("CD").item(), CDi=g("CDi").item(), CDv=g("CDv").item(), CDw=g("CDw").item(), sec=g("Cl").ravel().tolist(), forces=p.get_val(f"a.aero_states.{n}_sec_forces").copy())


class AeroStruct:
    """coupled analysis of a given mesh and wingbox"""

    def __init__(self, nx, ny, nt, nsk, nsp, opts, mesh):
        surf = dict(STRUCT0, mesh=mesh, t_over_c_cp=np.ones(nt), spar_thickness_cp=np.ones(nsp), skin_thickness_cp=np.ones(nsk), **AIRFOIL)
        surf.update(opts)
        p = self.p = om.Problem(reports=None)
        n = surf["name"]
        ivc = p.model.add_subsystem("ivc", om.IndepVarComp(), promotes=["*"])
        for v, u, d in (("v", "m/s", 1.0), ("alpha", "deg", 0.0), ("Mach_number", None, 0.1), ("re", "1/m", 1e6), ("rho", "kg/m**3", 1.0), ("CT", "1/s", 1e-5), ("R", "m", 1e6), ("W0", "kg", 1.0), ("speed_of_sound", "m/s", 300.0), ("load_factor", None, 1.0)):
            ivc.add_output(v, d, units=u)
        ivc.add_output("empty_cg", np.zeros(3), units="m")
        p.model.add_subsystem(n, AerostructGeometry(surface=surf))
        p.model.add_subsystem("a", AerostructPoint(surfaces=[surf], internally_connect_fuelburn=False), promotes_inputs=["v", "alpha", "Mach_number", "re", "rho", "CT", "R", "W0", "speed_of_sound", "empty_cg", "load_factor"])
        p.model.connect("load_factor", "a.coupled.load_factor")
        p.model.connect("a.fuelburn", "a.total_perf.L_equals_W.fuelburn")
        c, f = f"a.coupled.{n}.", f"a.{n}_perf."
        for s, t in (("local_stiff_transformed", c + "local_stiff_transformed"), ("nodes", [c + "nodes", f + "nodes"]), ("mesh", c + "mesh"), ("cg_location", f"a.total_perf.{n}_cg_location"), ("structural_mass", f"a.total_perf.{n}_structural_mass"), ("t_over_c", f + "t_over_c"),
                     ("spar_thickness", f + "spar_thickness"), ("A_enc", f + "A_enc"), ("Qz", f + "Qz"), ("J", f + "J"), ("htop", f + "htop"), ("hbottom", f + "hbottom"), ("hfront", f + "hfront"), ("hrear", f + "hrear")):
            p.model.connect(f"{n}.{s}", t)
        if surf["struct_weight_relief"]:
            p.model.connect(f"{n}.element_mass", c + "element_mass")
        p.setup(check=False)
        p.model.a.coupled.nonlinear_solver.options["iprint"] = -1
        p.model.a.coupled.nonlinear_solver.options["rtol"] = 1e-13
        p.model.a.coupled.nonlinear_solver.options["maxiter"] = 200
        self.n = n

    def __call__(self, M, alpha, h, dT, toverc, skin, spar):
        p, n = self.p, self.n
        v, rho, re = flight(M, h, dT)
        for k, val in (("v", v), ("alpha", alpha), ("Mach_number", M), ("re", re), ("rho", rho), ("speed_of_sound", v / M), (f"{n}.geometry.t_over_c_cp", toverc), (f"{n}.skin_thickness_cp", skin), (f"{n}.spar_thickness_cp", spar)):
            p.set_val(k, val)
        p.run_model()
        return dict(v=v, rho=rho, re=re, CL=p.get_val("a.CL").item(), CD=p.get_val("a.CD").item(), failure=p.get_val(f"a.{n}_perf.failure").item(), W=p.get_val(f"{n}.structural_mass").item())
