"""A small aircraft of our own, flown through the library's mission profiles and phases, and what was flown."""
import numpy as np
import openmdao.api as om
import laws
from common import *

RHO0, G = 1.225, 9.80665
TAKEOFF = ("v0v1", "v1vr", "v1v0", "rotate", "EngineOutClimbAngle", "AllEngineClimbAngle")
KEYS = ["fltcond|" + k for k in "h vs Utrue Ueas groundspeed singamma cosgamma q rho p T a M CL TempIncrement".split()] + "lift drag thrust weight throttle propulsor_active braking accel_horiz accel_vert zero_accel range fuel_used fuel_flow heat duration gamma takeoff|vr takeoff|v2 takeoff|v1 Vstall_eas s_transition h_transition t_transition s_climb t_climb range_initial range_final fltcond|h_initial fltcond|h_final h_initial fltcond|Utrue_initial fltcond|Utrue_final fuel_used_initial fuel_used_final heat_initial heat_final fltcond|vs_initial fltcond|vs_final ac|geom|wing|S_ref ac|weights|MTOW ac|aero|CLmax_TO zero_speed".split()


class Plant(om.ExplicitComponent):
    """thrust, drag and fuel flow of the aircraft"""

    def initialize(self):
        self.options.declare("nn")
        self.options.declare("par")
        self.options.declare("low")
        self.options.declare("tags", default={})

    def setup(self):
        nn, tags = self.options["nn"], self.options["tags"]
        for n, u in (("throttle", None), ("propulsor_active", None), ("fltcond|rho", "kg/m**3"), ("fltcond|q", "Pa"), ("fltcond|CL", None)):
            self.add_input(n, np.ones(nn), units=u)
        self.add_input("ac|geom|wing|S_ref", 10.0, units="m**2")
        self.add_output("thrust", np.ones(nn), units="N")
        self.add_output("drag", np.ones(nn), units="N")
        self.add_output("fuel_flow", np.ones(nn), units="kg/s", tags=tags.get("fuel_flow", []))
        self.add_output("heat_rate", np.ones(nn), units="W", tags=tags.get("heat_rate", []))
        self.declare_partials("*", "*", method="cs")
        self.declare_coloring(method="cs", show_summary=False, show_sparsity=False, num_full_jacs=2)

    def compute(self, i, o):
        p = self.options["par"]
        n = p["engines"]
        o["thrust"] = p["T0"] * i["throttle"] * (n - 1 + i["propulsor_active"]) / n * (i["fltcond|rho"] / RHO0) ** p["lapse"]
        o["fuel_flow"] = p["tsfc"] * o["thrust"] + p["idle"]
        o["heat_rate"] = p["heat"] * o["thrust"]
        o["drag"] = i["fltcond|q"] * i["ac|geom|wing|S_ref"] * ((p["cd0to"] if self.options["low"] else p["cd0"]) + p["k"] * i["fltcond|CL"] ** 2)


def aircraft(par, kind, seen):
    from openconcept.mission import IntegratorGroup
    from openconcept.utilities import AddSubtractComp, Integrator

    def declare(self):
        self.options.declare("num_nodes", default=1)
        self.options.declare("flight_phase", default=None)

    def plant(self, nn, **kw):
        fp = self.options["flight_phase"]
        seen.append((fp, nn))
        return Plant(nn=nn, par=par, low=fp in TAKEOFF, **kw)

    def weigh(self, nn):
        self.add_subsystem("weigh", AddSubtractComp(output_name="weight", input_names=["ac|weights|MTOW", "fuel_used"], units="kg", vec_size=[1, nn], scaling_factors=[1, -1]), promotes=["*"])

    def manual(self, nn, what):
        ig = self.add_subsystem("int_" + what[0][0], Integrator(num_nodes=nn, method="simpson", diff_units="s", time_setup="duration"), promotes_inputs=["*"], promotes_outputs=["*"])
        for q, rate, u in what:
            ig.add_integrand(q, rate_name=rate, val=1.0, units=u)

    FUEL = ["integrate", "state_name:fuel_used", "state_units:kg", "state_val:1.0", "state_promotes:True"]
    HEAT = ["integrate", "state_name:heat", "state_units:kJ", "state_val:1.0", "state_promotes:True"]

    class Auto(IntegratorGroup):
        initialize = declare

        def setup(self):
            nn = self.options["num_nodes"]
            self.add_subsystem("plant", plant(self, nn, tags=dict(fuel_flow=FUEL, heat_rate=HEAT)), promotes=["*"])
            weigh(self, nn)

    class Manual(om.Group):
        initialize = declare

        def setup(self):
            nn = self.options["num_nodes"]
            self.add_subsystem("plant", plant(self, nn), promotes=["*"])
            manual(self, nn, [("fuel_used", "fuel_flow", "kg"), ("heat", "heat_rate", "kJ")])
            weigh(self, nn)

    class Mixed(om.Group):
        """heat is kept by a nested group of its own, fuel by hand"""
        initialize = declare

        def setup(self):
            nn = self.options["num_nodes"]
            g = IntegratorGroup(num_nodes=nn)
            g.add_subsystem("plant", plant(self, nn, tags=dict(heat_rate=HEAT)), promotes=["*"])
            self.add_subsystem("prop", g, promotes=["*"])
            manual(self, nn, [("fuel_used", "fuel_flow", "kg")])
            weigh(self, nn)

    return dict(auto=Auto, manual=Manual, mixed=Mixed)[kind]


def draw(r):
    """one aircraft"""
    m0 = float(np.exp(r.uniform(np.log(1500), np.log(80000))))
    load = r.uniform(1300, 5000)
    f = lambda v: float(f"{v:.6g}")
    par = dict(T0=f(m0 * G * r.uniform(0.32, 0.55)), lapse=f(r.uniform(0.2, 0.8)), engines=int(pick(r, [2, 2, 3, 4])), tsfc=f(r.uniform(0.6e-5, 2e-5)), idle=f(m0 * r.uniform(0, 3e-7)), heat=f(r.uniform(0.05, 5)),
               cd0=f(r.uniform(0.015, 0.026)), cd0to=f(r.uniform(0.025, 0.05)), k=f(1 / np.pi / r.uniform(7, 12) / 0.8))
    geo = dict(MTOW=f(m0), S=f(m0 * G / load), CLmax=f(r.uniform(1.5, 2.5)))
    return par, geo


def eas(geo, cl):
    return np.sqrt(2 * geo["MTOW"] * G / RHO0 / geo["S"] / cl)


def schedule(r, nn, par, geo, way):
    """equivalent and vertical airspeed along a segment (SI)"""
    cl = pick(r, [lambda: np.full(nn, r.uniform(0.3, 0.8)), lambda: np.linspace(*r.uniform(0.35, 0.7, size=2), nn), lambda: r.uniform(0.4, 0.6, size=nn)])()
    U = eas(geo, cl)
    ld = cl / (par["cd0"] + par["k"] * cl ** 2)
    shape = pick(r, [lambda: np.ones(nn), lambda: np.linspace(1, r.uniform(0.4, 1), nn), lambda: r.uniform(0.7, 1, size=nn)])()
    if way == "up":
        vs = U * shape * r.uniform(0.02, 0.09)
    elif way == "down":
        vs = -U / ld * shape * r.uniform(0.2, 0.7)
    else:
        vs = np.zeros(nn)
    return U, vs


def get(p, path, m):
    return laws.si(path, p.get_val(path, units=m["units"]), m["units"])


def phase_values(p, path, ports):
    out = {}
    for n, (full, u) in ports.items():
        out[n] = laws.si(n, p.get_val(full, units=u), u).ravel().tolist()
    return out


def ports(p, path, keys=KEYS):
    """name inside the phase -> (address, units); the integrator of a steady phase keeps its states inside"""
    out = {}
    pre = path + "."
    for io in ("output", "input"):
        for m in p.model.get_io_metadata(io, metadata_keys=["units"]).values():
            pn = m["prom_name"]
            if pn.startswith(pre):
                q = pn[len(pre):]
            elif pn.startswith("ac|"):
                q = pn
            else:
                continue
            q = q.removeprefix("ode_integ_phase.")
            for own in ("acmodel.", ):
                q = q.removeprefix(own)
            if q in keys and q not in out:
                out[q] = (pn, m["units"])
    return out


class Flight:
    """a mission or one phase inside a problem, ready to fly"""

    def __init__(self, r, build, where, mode="auto"):
        self.r = r
        self.p = p = om.Problem(reports=None)
        iv = p.model.add_subsystem("ac", om.IndepVarComp(), promotes=["*"])
        for n, u in (("ac|weights|MTOW", "kg"), ("ac|geom|wing|S_ref", "m**2"), ("ac|aero|CLmax_TO", None)):
            iv.add_output(n, 1.0, units=u)
        host = p.model
        parts = where.split(".") if where else []
        for s in parts[:-1]:
            host = host.add_subsystem(s, om.Group(), promotes_inputs=["ac|*"])
        if parts:
            host.add_subsystem(parts[-1], build, promotes_inputs=["ac|*"])
        else:
            host.add_subsystem("mission", build, promotes=["*"])
        self.pre = where + "." if where else ""
        nl = p.model.nonlinear_solver = om.NewtonSolver(solve_subsystems=True, iprint=-1, maxiter=40, atol=1e-7, rtol=1e-30, err_on_non_converge=True)
        nl.linesearch = om.BoundsEnforceLS(bound_enforcement="scalar", iprint=-1)
        p.model.linear_solver = om.DirectSolver()
        p.setup(check=False, mode=mode)
        p.final_setup()
        self.names = {m["prom_name"] for io in ("output", "input") for m in p.model.get_io_metadata(io, metadata_keys=["units"]).values()}

    def has(self, n):
        return self.pre + n in self.names

    def fly(self):
        self.p.run_model()

    def put(self, n, v, u=None, top=False):
        """a value given in SI or in some other unit of its kind"""
        alt = {"m": ["m", "ft", "km", "NM"], "m/s": ["m/s", "kn", "ft/min"], "kg": ["kg", "lbm"], "m**2": ["m**2", "ft**2"], "s": ["s", "min"], None: [None]}.get(u, [u])
        u2 = pick(self.r, alt)
        self.p.set_val(n if top else self.pre + n, laws.unsi(n, np.array(v, float), u2), units=u2)


CLS = {(False, True): "MissionWithReserve", (False, False): "BasicMission", (True, False): "FullMissionAnalysis", (True, True): "FullMissionWithReserve"}
FLOWN = ["groundroll", "v0v1", "v1vr", "v1v0", "rotate", "engineoutclimb", "climb", "cruise", "descent", "reserve_climb", "reserve_cruise", "reserve_descent", "loiter"]
WAY = dict(climb="up", cruise="", descent="down", reserve_climb="up", reserve_cruise="", reserve_descent="down", loiter="")
# what is read of a segment, by kind
STEADY = "fltcond|h fltcond|vs fltcond|Utrue fltcond|Ueas fltcond|groundspeed fltcond|singamma fltcond|cosgamma fltcond|q fltcond|rho fltcond|CL fltcond|TempIncrement lift drag thrust weight throttle propulsor_active braking zero_accel range fuel_used fuel_flow heat duration fltcond|h_initial fltcond|h_final range_initial range_final ac|geom|wing|S_ref ac|weights|MTOW ac|aero|CLmax_TO accel_horiz accel_vert gamma takeoff|vr takeoff|v2 s_transition h_transition t_transition s_climb t_climb fltcond|Utrue_initial zero_speed".split()


def g6(v):
    return float(f"{v:.6g}")


class Mission:
    """one profile of MissionMC with one aircraft; scen: {P, par}"""

    def __init__(self, scen, r, host=None, mode="auto"):
        from openconcept.mission import profiles

        self.r, self.scen = r, scen
        P = self.P = scen["P"]
        self.par, self.geo = draw(r)
        if P["to"] != "none" and r.integers(3) == 0:
            self.par["engines"] = 2
            self.par["T0"] = g6(self.par["T0"] * r.uniform(0.6, 0.9))
        self.nn = int(pick(r, [3, 5, 7, 9]))
        self.seen = []
        o = {}
        if P["to"] != "none" and (P["to"] == "ode" or r.integers(2)):
            o["transition_method"] = P["to"]
        if P["to"] == "none" and not P["res"] and (P["roll"] or r.integers(2)):
            o["include_ground_roll"] = P["roll"]
        kind = pick(r, ["auto", "manual", "mixed"])
        cls = getattr(profiles, CLS[P["to"] != "none", P["res"]])
        self.F = Flight(r, cls(num_nodes=self.nn, aircraft_model=aircraft(self.par, kind, self.seen), **o), host if host is not None else pick(r, ["", "an", "study.an"]), mode=mode)
        self.at = {n: ports(self.F.p, self.F.pre + n, STEADY) for n in FLOWN if any(q.startswith(self.F.pre + n + ".") for q in self.F.names)}

    def prepare(self, first=True):
        """draw a mission and give it"""
        F, r, P, s, nn = self.F, self.r, self.P, self.scen["par"], self.nn
        if not first:
            par, geo = self.par, self.geo
            geo.update({k: g6(v * r.uniform(0.95, 1.05)) for k, v in geo.items()})
        geo, par = self.geo, self.par
        for n, k, u in (("ac|weights|MTOW", "MTOW", "kg"), ("ac|geom|wing|S_ref", "S", "m**2"), ("ac|aero|CLmax_TO", "CLmax", None)):
            F.put(n, geo[k], u, top=True)
        elev = 0.0 if s["elev"] == 0 else g6(r.uniform(100, 1500))
        alt = {1: (elev + 1000, elev + 4000), 2: (elev + 4000, 10400), 3: (10500, 12500)}
        self.mp = mp = {"takeoff|h": elev, "cruise|h0": g6(r.uniform(*alt[s["h0"]]))}
        self.set = {}
        far = s["range"] % 2 == 0
        for n in self.at:
            if n in WAY:
                U, vs = schedule(r, nn, par, geo, WAY[n])
                F.put(n + ".fltcond|Ueas", U, "m/s")
                F.put(n + ".fltcond|vs", vs, "m/s")
                self.sched = vs
                if r.integers(2):
                    F.put(n + ".fltcond|TempIncrement", r.uniform(-15, 25) if r.integers(2) else r.uniform(-15, 25, size=nn), None)
                lever = r.uniform(0.2, 0.9)
                F.p.set_val(F.pre + n + ".throttle", np.full(nn, lever))
            else:
                self.take_off(n, first)
        H = max(mp["cruise|h0"] - elev, 1.0)
        Uc = eas(geo, 0.5)
        mp["mission_range"] = g6((H / 0.03 + H / 0.03) * 1.3 + r.uniform(1e5, 4e5) + (r.uniform(3e5, 1.5e6) if far else 0))
        if P["res"]:
            mp["reserve|h0"] = g6(r.uniform(elev + 300, elev + 2500) if s["resh"] == 1 else r.uniform(elev + 2000, elev + 4500))
            mp["reserve_range"] = g6((mp["reserve|h0"] - elev) / 0.03 * 2.6 + r.uniform(2e4, 3e5))
            mp["loiter|h0"] = g6(r.uniform(0, 400) if s["loith"] == 0 else r.uniform(400, 3000))
            mp["loiter_duration"] = g6(r.uniform(1, 200) if s["loit"] == 0 else r.uniform(600, 3600))
            F.put("reserve_climb.ode_integ_phase.fltcond|h_initial", elev, "m")
        if P["roll"]:
            mp["takeoff|v2"] = g6(1.2 * eas(geo, geo["CLmax"]))
        for n, v in mp.items():
            F.put(n, v, "m/s" if n == "takeoff|v2" else "s" if n == "loiter_duration" else "m")

    def take_off(self, n, first):
        """controls of the takeoff segments: their defaults, or set as documented"""
        F, r, nn = self.F, self.r, self.nn
        own = self.set[n] = {}
        v = eas(self.geo, self.geo["CLmax"])
        if n != "engineoutclimb" and F.has(n + ".fltcond|Utrue") and first:
            F.put(n + ".fltcond|Utrue", np.full(nn, v * dict(v0v1=0.6, groundroll=0.6, v1vr=1.0, v1v0=0.75, rotate=1.13).get(n, 1.1)), "m/s")
        if n == "rotate" and self.P["to"] == "ode" and first:
            F.p.set_val(F.pre + n + ".accel_vert", np.full(nn, 0.3))
        if n == "v0v1" and first:
            F.put("takeoff|v1", v * r.uniform(0.75, 1.05), "m/s")
        if r.integers(3) == 0 and n != "engineoutclimb":
            if F.has(n + ".braking") and n != "rotate":
                own["braking"] = g6(r.uniform(0.25, 0.5) if n == "v1v0" else r.uniform(0.015, 0.05))
            if n != "v1v0":
                own["throttle"] = g6(r.uniform(0.85, 1))
            if n in ("v0v1", "v1vr", "v1v0", "groundroll"):
                own["fltcond|h"] = g6(r.uniform(0, 1500))
        if n == "rotate":
            if self.P["to"] == "ode":
                if r.integers(3) == 0:
                    own["h_obs"] = g6(r.uniform(9, 16))
                if r.integers(3) == 0:
                    own["CL_rotate_mult"] = g6(r.uniform(0.75, 0.9))
            else:
                F.put(n + ".h_initial", r.uniform(0, 5), "m")
        base = dict(braking=0.4 if n == "v1v0" else 0.0 if n in ("rotate",) else 0.03, throttle=0.0 if n == "v1v0" else 1.0, h_obs=10.668, CL_rotate_mult=0.83)
        base["fltcond|h"] = 0.0
        for k in ("braking", "throttle", "fltcond|h", "h_obs", "CL_rotate_mult"):
            if k in own or (not first and F.has(n + "." + k) and not (k == "fltcond|h" and n in ("rotate", "engineoutclimb")) and not (n == "engineoutclimb")):
                F.p.set_val(F.pre + n + "." + k, own.get(k, base[k]), units={"fltcond|h": "m", "h_obs": "m"}.get(k))
        if r.integers(2):
            F.put(n + ".fltcond|TempIncrement", r.uniform(-15, 25), None)

    def fly(self):
        self.F.fly()

    def tell(self, rec):
        p = self.F.p
        rec("New", prog=dict(P=self.P))
        v = {n: phase_values(p, self.F.pre + n, at) for n, at in self.at.items()}
        val = lambda n, u: float(p.get_val(self.F.pre + n, units=u).ravel()[0])
        v1 = val("takeoff|v1", "m/s") if self.P["to"] != "none" else self.mp.get("takeoff|v2", 0.0)
        told = {}
        for n in v:
            m = p.model._get_subsystem((self.F.pre or "mission.") + n + ".acmodel")
            told[n] = m.options["flight_phase"]
        for n in v:
            rec("Seg", n=n, P=self.P, v=v[n], par=self.par, v1=v1, set=self.set.get(n, {}), told=told[n], alone=False)
        d = dict(P=self.P, par=self.mp)
        if self.P["to"] != "none":
            d.update(v1=v1, vr=v["v1vr"]["takeoff|vr"][0], go=v["rotate"].get("range_final", [0])[0], stop=v["v1v0"].get("range_final", v["v1v0"]["range"][-1:])[0])
        rec("Mission", **d)


def unsolved(ex):
    """the solver gave up or left the domain of the models: not a converged mission"""
    return isinstance(ex, om.AnalysisError) or (isinstance(ex, RuntimeError) and ("NaN entries" in str(ex) or "ingular" in str(ex) or "full rank" in str(ex)))


def session(scen, r, rec, points=2):
    """fly a scenario; a mission the solver does not close is drawn again"""
    why = ""
    tries = 18 if scen["P"]["to"] == "ode" else 9
    for k in range(tries):
        m = Mission(scen, r)
        for q in range(points):
            m.prepare(first=q == 0)
            try:
                m.fly()
            except Exception as ex:
                if not unsolved(ex):
                    raise
                why = exc_text(ex)
                break
            m.tell(rec)
        else:
            return
        if q:
            return
    rec("Exc", what=f"no mission out of {tries} closes: {why}")


# ---------------------------------------------------------------- one segment on its own
def segment(kind, told, r, rec, tries=18):
    """a phase of the library outside any profile: kind of MissionBook"""
    from openconcept.mission import phases

    why = ""
    for k in range(tries):
        par, geo = draw(r)
        nn = int(pick(r, [1] if kind == "gamma" else [3, 5, 7, 9, 11]))
        cls = dict(steady="SteadyFlightPhase", roll="GroundRollPhase", rotation="RotationPhase", simplified="RobustRotationPhase", gamma="ClimbAnglePhase")[kind]
        seg = getattr(phases, cls)(num_nodes=nn, aircraft_model=aircraft(par, pick(r, ["auto", "manual", "mixed"]), []), flight_phase=told)
        if kind == "steady":
            iv = seg.add_subsystem("clock", om.IndepVarComp(), promotes_outputs=["*"])
            iv.add_output("duration", 600.0, units=pick(r, ["s", "min"]))
        F = Flight(r, seg, pick(r, ["seg", "a.seg"]))
        at = ports(F.p, F.pre[:-1], STEADY)
        own = {}
        if True:
            for q in range(2):
                for n, key, u in (("ac|weights|MTOW", "MTOW", "kg"), ("ac|geom|wing|S_ref", "S", "m**2"), ("ac|aero|CLmax_TO", "CLmax", None)):
                    F.put(n, geo[key], u, top=True)
                F.put("fltcond|TempIncrement", r.uniform(-15, 25, size=nn), None)
                v = eas(geo, geo["CLmax"])
                fuel0 = g6(geo["MTOW"] * r.uniform(0, 0.1)) if r.integers(2) else 0.0
                if kind == "gamma":
                    fuel0 = 0.0
                for s, x, u in (("fuel_used", fuel0, "kg"), ("heat", r.uniform(0, 1e5), "J")):
                    for n in (f"{s}_initial", f"acmodel.ode_integ.{s}_initial", f"acmodel.{s}_initial", f"acmodel.int_fuel_used.{s}_initial", f"acmodel.prop.ode_integ.{s}_initial"):
                        if F.has(n) and kind != "gamma":
                            F.put(n, x, u)
                if kind == "steady":
                    U, vs = schedule(r, nn, par, geo, pick(r, ["up", "", "down"]))
                    F.put("fltcond|Ueas", U, "m/s")
                    F.put("fltcond|vs", vs, "m/s")
                    T = g6(r.uniform(60, 1500))
                    lo = max(0.0, -vs.min() * T)
                    hi = 12500 - max(0.0, vs.max() * T)
                    if hi < lo:
                        T = 300.0
                        lo, hi = max(0.0, -vs.min() * T), 12500 - max(0.0, vs.max() * T)
                    F.put("duration", T, "s")
                    F.put("ode_integ_phase.fltcond|h_initial", g6(r.uniform(lo, hi)), "m")
                    F.put("ode_integ_phase.range_initial", g6(r.uniform(0, 1e5)), "m")
                    if r.integers(3) == 0:
                        F.put("zero_accel", r.uniform(-0.1, 0.1, size=nn), "m/s**2")
                    F.p.set_val(F.pre + "throttle", np.full(nn, r.uniform(0.3, 0.8)))
                elif kind == "roll":
                    F.put("fltcond|Utrue", np.full(nn, 0.8 * v), "m/s")
                    own["braking"] = g6(r.uniform(0.2, 0.5) if told == "v1v0" else r.uniform(0.01, 0.06))
                    F.p.set_val(F.pre + "braking", np.full(nn, own["braking"]))
                    if told != "v1v0":
                        own["throttle"] = g6(r.uniform(0.85, 1))
                        F.p.set_val(F.pre + "throttle", np.full(nn, own["throttle"]))
                    if F.has("takeoff|v1"):
                        v1 = g6(v * r.uniform(0.7, 1.05))
                        F.put("takeoff|v1", v1, "m/s")
                    else:
                        v1 = g6(v * r.uniform(0.8, 1.0))
                        F.put("fltcond|Utrue_initial", v1, "m/s")
                    own["fltcond|h"] = g6(r.uniform(0, 2500))
                    F.put("fltcond|h", np.full(nn, own["fltcond|h"]), "m")
                    if told != "v0v1":
                        F.put("range_initial", r.uniform(100, 2000), "m")
                elif kind == "rotation":
                    F.put("fltcond|Utrue", np.full(nn, 1.13 * v), "m/s")
                    F.put("fltcond|Utrue_initial", g6(1.1 * v), "m/s")
                    F.put("range_initial", r.uniform(100, 2000), "m")
                    F.p.set_val(F.pre + "accel_vert", np.full(nn, 0.3))
                    own["h_obs"] = g6(r.uniform(9, 16))
                    F.put("h_obs", own["h_obs"], "m")
                elif kind == "simplified":
                    F.put("range_initial", r.uniform(100, 2000), "m")
                    F.put("h_initial", r.uniform(0, 3), "m")
                try:
                    F.fly()
                except Exception as ex:
                    if not unsolved(ex):
                        raise
                    why = exc_text(ex)
                    break
                rec("New", prog={})
                to = "ode" if kind == "rotation" else "simplified" if kind == "simplified" else "none"
                name = told if kind in ("roll", "rotation", "simplified") else "climb" if kind == "steady" else "engineoutclimb"
                rec("Seg", n=name, P=dict(to=to, res=False, roll=False), v=phase_values(F.p, F.pre[:-1], at), par=par, v1=v1 if kind == "roll" else 0, set=own, alone=True, told=Told(name))
            else:
                return
            if q:
                return
    rec("Exc", what=f"no {kind} segment out of {tries} closes: {why}")


def Told(n):
    return {"groundroll": "v0v1", "engineoutclimb": "EngineOutClimbAngle"}.get(n, n)


# ---------------------------------------------------------------- components
def component(name, r, rec, nn, opts, dom, pts=2):
    """one component straight from mission/phases.py; dom: input -> SI sampler(r, shape)"""
    from openconcept.mission import phases

    o = {k: v for k, v in opts.items() if v is not None}
    p = om.Problem(reports=None)
    kw = dict(o)
    if nn:
        kw["num_nodes"] = nn
    p.model.add_subsystem("c", getattr(phases, name)(**kw), promotes=["*"])
    p.setup(check=False)
    p.final_setup()
    m = {io: {q["prom_name"]: q for q in p.model.get_io_metadata(io, metadata_keys=["units", "shape"]).values() if not q["prom_name"].startswith("_auto")} for io in ("input", "output")}
    for k in range(pts):
        for n, q in m["input"].items():
            v = np.array(dom[n](r, q["shape"]), float) * np.ones(q["shape"])
            p.set_val(n, laws.unsi(n, v, q["units"]))
        if r.integers(2):
            p.run_model()
            p.model.run_linearize()
        p.run_model()
        take = lambda d: {n: laws.si(n, p.get_val(n, units=q["units"]), q["units"]).ravel().tolist() for n, q in d.items()}
        rec("Eval", c=name, o=o, x=take(m["input"]), y=take(m["output"]))
