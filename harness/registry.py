"""Every model of the library with its option settings and the physical domain of its inputs (C11, C12, C13)."""
import importlib, re
import numpy as np
import openmdao.api as om
from common import *

# domain of an input: (low, high, units) by the end of its name; units None: the declared units
HX = {k: (0.75 * v, 1.3 * v, u) for k, (v, u) in dict(
    n_long_cold=(3, None), n_wide_cold=(430, None), n_tall=(19, None), channel_height_cold=(14, "mm"), channel_height_hot=(1.2, "mm"),
    channel_width_hot=(1.2, "mm"), channel_width_cold=(1.35, "mm"), fin_length_hot=(6, "mm"), fin_length_cold=(6, "mm"), fin_thickness=(0.102, "mm"),
    plate_thickness=(0.2, "mm"), case_thickness=(2, "mm"), material_k=(190, "W/m/degK"), material_rho=(2700, "kg/m**3"),
    cp_cold=(1005, "J/kg/degK"), cp_hot=(3801, "J/kg/degK"), k_cold=(0.02596, "W/m/degK"), k_hot=(0.405, "W/m/degK"), mu_cold=(1.789e-5, "kg/m/s"), mu_hot=(1.68e-3, "kg/m/s")).items()}
DOM = dict(HX)
DOM.update({
    "fltcond|h": (0, 13000, "m"), "fltcond|TempIncrement": (-15, 30, None), "fltcond|Ueas": (40, 140, "m/s"), "fltcond|Utrue": (45, 240, "m/s"), "fltcond|rho": (0.3, 1.25, "kg/m**3"),
    "fltcond|T": (215, 300, "degK"), "fltcond|p": (2e4, 1.02e5, "Pa"), "fltcond|q": (800, 15000, "Pa"), "fltcond|M": (0.1, 0.9, None), "fltcond|CL": (0.1, 1.1, None),
    "fltcond|a": (295, 345, "m/s"), "fltcond|vs": (-9, 9, "m/s"), "fltcond|singamma": (-0.15, 0.2, None), "fltcond|cosgamma": (0.9, 1, None),
    "throttle": (0.05, 1.1, None), "propulsor_active": (0.05, 1, None), "weight": (1500, 60000, "kg"), "drag": (500, 20000, "N"), "lift": (5000, 40000, "N"), "thrust": (800, 60000, "N"), "braking": (0, 0.4, None),
    "ac|geom|wing|S_ref": (15, 300, "m**2"), "S_ref": (10, 100, "m**2"), "S": (10, 100, "m**2"), "AR": (6, 14, None), "taper": (0.15, 1, None), "sweep": (-10, 35, "deg"), "c4sweep": (2, 35, "deg"), "toverc": (0.08, 0.18, None),
    "span": (8, 50, "m"), "MAC": (1, 6, "m"), "c4_to_wing_c4": (5, 20, "m"), "ac|geom|hstab|S_ref": (5, 40, "m**2"), "ac|geom|vstab|S_ref": (4, 30, "m**2"),
    "ac|aero|airfoil_Cl_max": (1.2, 2, None), "CL_max_clean": (1.1, 1.7, None), "CLmax": (1.2, 2.5, None), "flap_extension": (5, 40, "deg"), "e": (0.7, 0.9, None), "CD0": (0.01, 0.04, None),
    "ac|geom|nacelle|S_wet": (10, 40, "m**2"), "ac|geom|nacelle|length": (2, 6, "m"), "ac|propulsion|num_engines": (1, 4, None), "ac|geom|fuselage|S_wet": (50, 400, "m**2"),
    "ac|geom|fuselage|length": (10, 40, "m"), "ac|geom|fuselage|height": (1.5, 5, "m"), "ac|geom|fuselage|width": (1.5, 4, "m"), "L": (1, 30, "m"), "D": (0.5, 4, "m"),
    "component_1_weight": (100, 900, "kg"), "component_1_NR_cost": (1e3, 1e6, None), "fuel_burn": (20, 900, "kg"), "OEW": (1000, 5000, "kg"),
    "battery_weight": (50, 1500, "kg"), "elec_load": (-2e4, 5e5, "W"), "specific_energy": (150, 500, "W*h/kg"), "SOC_initial": (0.3, 1, None), "duration": (30, 3000, "s"),
    "radius": (0.4, 2.5, "m"), "length": (0.3, 6, "m"), "N_layers": (5, 60, None), "max_expected_operating_pressure": (1.5e5, 8e5, "Pa"), "vacuum_gap": (0.02, 0.3, "m"), "environment_design_pressure": (0.8e5, 1.1e5, "Pa"),
    "design_pressure_differential": (1e5, 8e5, "Pa"), "LH2_init": (10, 3000, "kg"), "m_dot_liq": (0, 0.4, "kg/s"), "fill_level_init": (0.2, 0.95, None), "tank_volume": (1, 60, "m**3"),
    "distance_continue": (300, 2000, "m"), "distance_abort": (300, 2000, "m"), "takeoff|vr": (40, 90, "m/s"), "h_transition": (0.5, 9, "m"), "gamma": (0.02, 0.2, "rad"),
    "vec_in": (-50, 80, None), "cp": (0.05, 0.4, None), "J": (0.4, 2.6, None), "shaft_power_in": (2e4, 9e5, "W"), "elec_power_rating": (1e5, 1e6, "W"), "shaft_power_rating": (1e5, 1e6, "W"),
    "diameter": (1.5, 3.5, "m"), "rpm": (1200, 2800, "rpm"), "eta_prop": (0.5, 0.9, None), "ct_over_cp": (0.8, 2.5, None), "power_rating": (1e5, 9e5, "W"), "power_in": (1e4, 9e5, "W"), "power_split_fraction": (0.05, 0.95, None), "power_split_amount": (1e4, 9e5, "W"),
    "T_initial": (285, 320, "degK"), "T_in": (285, 330, "degK"), "T_out": (285, 340, "degK"), "T_surface": (310, 360, "degK"), "T": (300, 360, "degK"), "T_battery": (300, 340, "degK"),
    "q_in": (200, 20000, "W"), "q_out": (100, 9000, "W"), "q": (200, 9000, "W"), "mdot_coolant": (0.08, 3, "kg/s"), "mass": (5, 200, "kg"), "coolant_mass": (5, 30, "kg"), "n_cpb": (40, 120, None), "t_channel": (0.4, 2, "mm"),
    "channel_width": (0.8, 2, "mm"), "channel_height": (10, 30, "mm"), "channel_length": (0.1, 0.5, "m"), "n_parallel": (20, 90, None), "motor_weight": (40, 300, "kg"),
    "T_c": (280, 310, "degK"), "T_h": (320, 380, "degK"), "eff_factor": (0.2, 0.7, None), "COP": (1, 6, None), "specific_power": (100, 500, "W/kg"),
    "T_in_cold": (250, 310, "degK"), "T_in_hot": (320, 370, "degK"), "T_out_refrig_cold": (270, 300, "degK"), "T_out_refrig_hot": (310, 360, "degK"), "bypass": (0, 1, None), "bypass_cold": (0, 1, None), "bypass_hot": (0, 1, None),
    "p": (2e4, 1.02e5, "Pa"), "p_exit": (2e4, 9e4, "Pa"), "p_inf": (3e4, 1e5, "Pa"), "T_inf": (230, 300, "degK"), "n_pipes": (1, 20, None), "pt": (9.5e4, 1.5e5, "Pa"), "nozzle_pressure_ratio": (0.55, 0.97, None), "area": (0.02, 0.3, "m**2"), "area_nozzle": (0.01, 0.08, "m**2"), "area_nozzle_in": (0.01, 0.05, "m**2"),
    "Utrue": (60, 220, "m/s"), "Utrue_inf": (60, 220, "m/s"), "delta_p": (-3000, 0, "Pa"), "delta_p_hex": (-3000, -50, "Pa"), "dynamic_pressure_loss_factor": (0, 0.3, None), "pressure_recovery": (0.9, 1, None), "eta_ram": (0.9, 1, None), "heat_in": (0, 20000, "W"),
    "Tt_in": (250, 320, "degK"), "Tt": (250, 320, "degK"), "pt_in": (8e4, 1.3e5, "Pa"), "mdot": (0.3, 3, "kg/s"), "rho": (0.4, 1.2, "kg/m**3"), "a": (295, 345, "m/s"), "M": (0.1, 0.85, None), "mdot_actual": (0.3, 3, "kg/s"),
    "p_nozzle": (3e4, 1e5, "Pa"), "rho_nozzle": (0.4, 1.2, "kg/m**3"), "mdot_cold": (0.8, 2, "kg/s"), "mdot_hot": (0.05, 0.2, "kg/s"), "rho_cold": (0.4, 1.2, "kg/m**3"), "rho_hot": (1000, 1040, "kg/m**3"), "area_2": (0.05, 0.2, "m**2"), "area_3": (0.05, 0.2, "m**2"),
    "airframe_NR_cost": (1e5, 3e6, None), "takeoff|v1": (30, 80, "m/s"),
    "ac|weights|MTOW": (3000, 80000, "kg"), "ac|weights|MLW": (2800, 70000, "kg"), "ac|weights|W_fuel_max": (500, 15000, "kg"), "ac|weights|W_battery": (300, 2500, "kg"), "ac|num_passengers_max": (6, 200, None), "ac|num_cabin_crew": (2, 8, None), "ac|num_flight_deck_crew": (1, 3, None),
    "ac|geom|V_pressurized": (30, 400, "m**3"), "ac|cabin_pressure": (6, 10, "psi"), "ac|geom|maingear|length": (0.6, 3, "m"), "ac|geom|nosegear|length": (0.6, 3, "m"), "num_wheels": (2, 8, None), "num_shock_struts": (2, 4, None), "ac|aero|Vstall_land": (40, 70, "m/s"), "ac|aero|Mach_max": (0.5, 0.9, None),
    "ac|geom|centerbody|S_aftbody": (20, 150, "m**2"), "ac|geom|centerbody|S_cabin": (60, 300, "m**2"), "taper_aftbody": (0.2, 0.8, None), "ac|propulsion|engine|rating": (None, None, None),
    "W_engine": (150, 3000, "kg"), "W_propeller": (40, 150, "kg"), "W_motors": (40, 300, "kg"), "W_generator": (40, 300, "kg"), "W_fuelsystem": (30, 600, "kg"), "K_ws": (0.1, 0.6, None), "HstabConst": (0.1, 0.9, None), "P_TO": (400, 1500, "hp"), "ac|q_cruise": (40, 250, None),
    "ac|propulsion|motor|rating": (150, 700, "kW"), "ac|propulsion|generator|rating": (150, 700, "kW"), "ac|propulsion|propeller|diameter": (1.8, 3, "m"), "ac|propulsion|battery|specific_energy": (200, 500, "W*h/kg"),
    "ac|propulsion|thermal|refrig|rating": (0.5, 5, "kW"), "ac|propulsion|thermal|refrig|eff": (0.25, 0.6, None), "ac|propulsion|thermal|duct|area_nozzle": (30, 80, "inch**2"),
    "inner_diam": (0.008, 0.03, "m"), "wall_thickness": (0.0008, 0.003, "m"), "delta_T": (0, 3, None), "temp": (5, 75, "degC"), "design_temp": (40, 90, "degC"), "vapor_pressure": (5e5, 4e6, "Pa"), "rho_vapor": (3, 30, "kg/m**3"), "rho_liquid": (480, 640, "kg/m**3"), "design_pressure": (1, 6, "MPa"),
    "q_max": (3000, 9000, "W"), "hose_diameter": (0.01, 0.05, "m"), "hose_length": (0.5, 10, "m"), "hose_design_pressure": (5e5, 2e6, "Pa"), "rho_coolant": (950, 1050, "kg/m**3"), "mu_coolant": (1e-3, 2e-3, "kg/m/s"),
    "mdot_in_A": (0.1, 3, "kg/s"), "mdot_in_B": (0.1, 3, "kg/s"), "T_in_A": (280, 340, "degK"), "T_in_B": (280, 340, "degK"), "mdot_in": (0.1, 3, "kg/s"), "mdot_split_fraction": (0.05, 0.95, None),
    "bypass_start": (0, 1, None), "bypass_end": (0, 1, None), "takeoff_flap_deg": (5, 30, "deg"), "delta_m_liq": (0, 5, "kg"), "delta_m_liq_initial": (0, 5, "kg"),
    "start_val": (-50, 50, None), "end_val": (-50, 50, None), "array": (-50, 50, None), "property_sec": (0.1, 3, None), "section_toverc": (0.08, 0.18, None), "toverc_sec": (0.08, 0.16, None),
    "Nu_dh_cold": (3, 60, None), "Nu_dh_hot": (3, 60, None), "dh_cold": (1e-3, 4e-3, "m"), "dh_hot": (1e-3, 4e-3, "m"), "NTU": (0.3, 4, None), "C_ratio": (0.1, 0.9, None), "h_conv_cold": (50, 300, None), "h_conv_hot": (200, 2000, None), "fin_area_ratio_cold": (0.5, 0.95, None), "fin_area_ratio_hot": (0.3, 0.9, None),
    "xs_area_cold": (0.02, 0.1, "m**2"), "xs_area_hot": (5e-4, 3e-3, "m**2"), "effectiveness": (0.2, 0.9, None), "heat_max": (5e3, 5e4, "W"), "UA_overall": (100, 900, None), "Re_dh_cold": (200, 8000, None), "Re_dh_hot": (100, 5000, None), "j_cold": (0.005, 0.05, None), "j_hot": (0.005, 0.05, None),
    "alpha_cold": (0.05, 0.9, None), "alpha_hot": (0.05, 0.9, None), "delta_cold": (0.01, 0.05, None), "delta_hot": (0.01, 0.05, None), "gamma_cold": (0.03, 0.15, None), "gamma_hot": (0.03, 0.15, None), "heat_transfer": (1e3, 3e4, "W"), "length_overall": (0.01, 0.05, "m"), "width_overall": (0.3, 1, "m"), "f_cold": (0.02, 0.3, None), "f_hot": (0.02, 0.3, None),
    "heat_transfer_area_cold": (3, 20, None), "heat_transfer_area_hot": (1, 6, None), "eta_overall_cold": (0.5, 0.99, None), "eta_overall_hot": (0.5, 0.99, None), "chord_sec": (0.8, 4, "m"), "alpha": (-3, 8, "deg"),
})
JET = {"ac|weights|MTOW": (40000, 100000, "kg"), "ac|weights|MLW": (35000, 80000, "kg"), "ac|geom|wing|S_ref": (80, 250, "m**2"), "ac|propulsion|engine|rating": (15000, 40000, "lbf"), "ac|geom|fuselage|length": (25, 60, "m"), "ac|geom|fuselage|height": (3, 6, "m"), "ac|geom|wing|c4sweep": (15, 35, "deg"), "ac|weights|W_fuel_max": (8000, 30000, "kg"),
       "ac|num_passengers_max": (80, 300, None), "ac|geom|fuselage|S_wet": (200, 700, "m**2"), "ac|geom|hstab|S_ref": (15, 60, "m**2"), "ac|geom|vstab|S_ref": (10, 50, "m**2"), "c4_to_wing_c4": (12, 30, "m"), "W_engine": (1500, 5000, "kg"), "ac|geom|maingear|length": (2, 4, "m"), "ac|geom|nosegear|length": (1, 3, "m")}
TP = {"ac|weights|MTOW": (3000, 8000, "kg"), "ac|weights|MLW": (2800, 7500, "kg"), "ac|geom|wing|S_ref": (15, 60, "m**2"), "ac|geom|fuselage|length": (8, 18, "m"), "ac|geom|fuselage|height": (1.3, 2.2, "m"), "ac|geom|fuselage|S_wet": (30, 90, "m**2"), "ac|num_passengers_max": (4, 12, None), "ac|weights|W_fuel_max": (300, 2000, "kg"), "c4_to_wing_c4": (4, 10, "m")}
ENG = {"ac|propulsion|engine|rating": (200, 900, "kW")}
WBG = {"W_engine": (150, 300, "kg"), "ac|geom|wing|S_ref": (15, 60, "m**2")}


def sections(n):
    """span-wise data of n sections from tip to root"""
    def y(r):
        return -np.sort(r.uniform(2, 25, size=n - 1))[::-1] if n > 2 else -r.uniform(4, 25, size=1)
    return y


class E:
    def __init__(self, mod, cls, opts=(), dom=None, nn="num_nodes", defaults=None, newton=False, gen=None, skip=(), pts=None, integ=False, nns=(1, 3), solver=False, fixed=(), slow=False, atol=1.0, name=None, fopts=None, outs=None, big=False, guess=None, alt=None, keep=(), rt11=2e-5, flat=(), vskip12=()):
        self.flat, self.vskip12 = flat, vskip12
        self.rt11 = rt11
        self.mod, self.cls, self.opts, self.dom, self.nn = mod, cls, list(opts) or [{}], dom or {}, nn
        self.defaults, self.newton, self.gen, self.skip, self.integ, self.nns = defaults or {}, newton, gen or {}, skip, integ, nns
        self.solver, self.fixed, self.slow, self.name, self.fopts = solver or newton, fixed, slow, name or cls, fopts or {}
        self.outs, self.big, self.guess, self.keep = outs, big, guess or {}, keep
        self.explicit, self.alt = not (self.solver or integ or big), alt or {}

    def klass(self):
        return getattr(importlib.import_module("openconcept." + self.mod), self.cls)

    def make(self, nn, opts):
        kw = dict(opts)
        if self.nn:
            kw[self.nn] = nn
        return self.klass()(**kw)

    def option_values(self, variant, r, perturb):
        """a variant plus, when asked, every plain number among the options moved off its default"""
        o = dict(self.opts[variant])
        if not perturb:
            return o
        c = self.make(1 if not self.nn or 1 in self.nns or True else self.nns[0], o)
        for k, d in c.options._dict.items():
            v = d["val"]
            if k in o or k == self.nn or not isinstance(v, float) or k in self.fixed:
                continue
            if k in self.fopts:
                lo, hi = self.fopts[k]
                o[k] = float(np.round(r.uniform(lo, hi), 4))
            elif v == 0.0:
                continue
            elif v == 1.0 and re.search("eff|frac", k):
                o[k] = float(np.round(r.uniform(0.6, 1.0), 4))
            else:
                f = float(np.round(r.uniform(0.85, 1.15), 3))
                nv = v * f
                if 0 < v < 1 and re.search("frac|eff|level|gross|cfg", k):
                    nv = min(nv, 0.99)
                o[k] = nv
        return o


A, T, P, W, G = "aerodynamics.", "thermal.", "propulsion.", "weights.", "geometry.wing_planform"
OAS = A + "openaerostruct."
DJ = A + "drag_jet_transport"
LAM = dict(fuselage_laminar_frac=(0, 0.5), nacelle_laminar_frac=(0, 0.5), laminar_frac=(0.0, 0.8))
sec = lambda n: {"y_sec": sections(n), "x_LE_sec": lambda r: -np.sort(-r.uniform(0, 6, size=n)), "chord_sec": lambda r: np.sort(r.uniform(0.8, 5, size=n))}
THERM = {"T_initial": (290, 310, "degK"), "throttle": (0.2, 0.9, None), "ac|propulsion|thermal|hx|mdot_coolant": (0.08, 0.2, "kg/s"), "fltcond|Utrue": (70, 130, "m/s"), "fltcond|p": (6e4, 1e5, "Pa"), "fltcond|rho": (0.7, 1.2, "kg/m**3"), "fltcond|T": (260, 300, "degK"), "propulsor_active": (0.9, 1, None),
         "ac|propulsion|engine|rating": (230, 290, "kW"), "ac|propulsion|motor|rating": (220, 260, "kW"), "ac|propulsion|generator|rating": (220, 280, "kW"), "rpm": (2000, 2400, "rpm"), "power_split_fraction": (0.3, 0.7, None), "duration": (300, 900, "s"), "ac|propulsion|propeller|diameter": (2.2, 2.7, "m"), "eta_ram": (0.95, 1, None), "dynamic_pressure_loss_factor": (0, 0.05, None)}

ENTRIES = [
    E(A + "CL_max_estimation", "CleanCLmax", nn=None), E(A + "CL_max_estimation", "FlapCLmax", [{}, dict(slat_chord_frac=0.0), dict(slat_span_frac=0.0), dict(wing_area_flapped_frac=0.3)], nn=None),
    E(A + "aerodynamics", "Lift"), E(A + "aerodynamics", "PolarDrag", [{}, dict(vec_CD0=True)]), E(A + "aerodynamics", "StallSpeed", nn=None),
    E(A + "drag_BWB", "ParasiteDragCoefficient_BWB", [{}, dict(configuration="takeoff"), dict(configuration="takeoff", wing_area_flapped_frac=0.4)], dom=JET, fopts=LAM),
    E(DJ, "FlapDrag_JetTransport", nn=None), E(DJ, "FuselageFormFactor_JetTransport", nn=None), E(DJ, "ParasiteDragCoefficient_JetTransport", [dict(include_wing=a, configuration=b) for a in (True, False) for b in ("clean", "takeoff")], dom=JET, fopts=LAM),
    E(DJ, "SkinFrictionCoefficient_JetTransport", [{}, dict(laminar_frac=0.3), dict(laminar_frac=1.0)], fopts=LAM), E(DJ, "WingFormFactor_JetTransport", nn=None),
    E(OAS + "mesh_gen", "SectionLinearInterp", [dict(num_y=y, num_sections=s, cos_spacing=c, units=u) for y, s, c, u in ((5, 2, True, None), (9, 3, True, "m"), (5, 3, False, None), (9, 4, False, "deg"))], nn=None),
    E(OAS + "mesh_gen", "ThicknessChordRatioInterp", [dict(num_y=y, num_sections=s, cos_spacing=c) for y, s, c in ((5, 2, True), (9, 3, True), (5, 3, False), (7, 4, False))], nn=None),
    *[E(OAS + "mesh_gen", "SectionPlanformMesh", [dict(num_x=x, num_y=y, num_sections=s, scale_area=a)], nn=None, gen=sec(s) if a is False else dict(sec(s), y_sec=lambda r, s=s: -np.sort(r.uniform(2, 25, size=s - 1))[::-1]), name=f"SectionPlanformMesh_{s}_{int(a)}") for x, y, s, a in ((2, 5, 2, True), (3, 5, 3, True), (2, 5, 2, False), (3, 9, 3, False), (2, 7, 4, True))],
    E(OAS + "mesh_gen", "TrapezoidalPlanformMesh", [dict(num_x=x, num_y=y) for x, y in ((1, 2), (2, 4), (3, 5))], nn=None),
    *[E(OAS + "wave_drag", "WaveDragFromSections", [dict(num_sections=s, **o)], gen=sec(s), name=f"WaveDrag_{s}_{i}", dom={"fltcond|M": (0.6, 0.9, None), "S_ref": (50, 200, "m**2"), "area_norm": (50, 200, "m**2"), "fltcond|CL": (0.2, 0.7, None)}, fixed=()) for i, (s, o) in enumerate(((2, {}), (3, {}), (4, dict(idx_sec_start=1)), (4, dict(idx_sec_end=2)), (3, dict(specify_area_norm=True))))],
    E("atmospherics.compute_atmos_props", "ComputeAtmosphericProperties", [{}, dict(true_airspeed_in=True)]), E("atmospherics.density_comp", "DensityComp"), E("atmospherics.dynamic_pressure_comp", "DynamicPressureComp"),
    E("atmospherics.mach_number_comp", "MachNumberComp"), E("atmospherics.pressure_comp", "PressureComp"), E("atmospherics.speedofsound_comp", "SpeedOfSoundComp"), E("atmospherics.temperature_comp", "TemperatureComp"),
    E("atmospherics.true_airspeed", "EquivalentAirspeedComp"), E("atmospherics.true_airspeed", "TrueAirspeedComp"),
    E("costs.costs_commuter", "TurbopropOperatingCost", [{}, dict(n_components=3), dict(n_components=2, n_batteries=1), dict(n_batteries=2)], nn=None, fopts={"OEM_premium": (1.0, 1.4)}, gen=None, dom={f"{a}_{i}{b}": v for i in (1, 2, 3) for a, b, v in (("component", "_weight", (100, 900, "kg")), ("component", "_NR_cost", (1e3, 1e6, None)), ("battery", "_weight", (100, 900, "kg")), ("battery", "_energy_used", (50, 900, "MJ")), ("battery", "_NR_cost", (1e3, 1e5, None)))}),
    E("energy_storage.battery", "SOCBattery", integ=True, nns=(3, 5)), E("energy_storage.battery", "SimpleBattery"),
    E("energy_storage.hydrogen.LH2_tank_no_boil_off", "InitialLH2MassModification", dom={"m_LH2": (100, 900, "kg")}), E("energy_storage.hydrogen.LH2_tank_no_boil_off", "LH2TankNoBoilOff", integ=True, nns=(3, 5), fopts={"fill_level_init": (0.5, 0.95)}),
    E("energy_storage.hydrogen.structural", "MLIWeight", nn=None), E("energy_storage.hydrogen.structural", "PressureVesselWallThickness", nn=None), E("energy_storage.hydrogen.structural", "VacuumTankWeight", nn=None, alt={"length": [(1e-3, 0.05, "m"), (1e-7, 5e-7, "m")]}), E("energy_storage.hydrogen.structural", "VacuumWallThickness", nn=None, alt={"length": [(1e-3, 0.05, "m"), (1e-7, 5e-7, "m")]}),
    E("geometry.wetted_area", "CylinderSurfaceArea", nn=None), E(G, "WingAspectRatio", nn=None), E(G, "WingMACTrapezoidal", nn=None), E(G, "WingSpan", nn=None),
    *[E(G, c, [dict(num_sections=s, **o)], nn=None, gen=sec(s), name=f"{c}_{s}_{i}") for c in ("WingAreaFromSections", "WingMACFromSections", "WingSweepFromSections") for i, (s, o) in enumerate(((2, {}), (3, {}), (4, dict(idx_sec_start=1)), (4, dict(idx_sec_end=2)), (3, dict(chord_frac_start=0.2, chord_frac_end=0.7)), (5, dict(idx_sec_start=1, idx_sec_end=3)))) if not ("chord_frac_start" in o and c != "WingAreaFromSections")],
    E("mission.phases", "BFLImplicitSolve", nn=None, newton=True, skip=("c11", "c12", "c13")), E("mission.phases", "ClimbAngleComp", dom={"thrust": (5000, 20000, "N"), "weight": (4000, 9000, "kg"), "drag": (1000, 4000, "N")}),
    E("mission.phases", "FlipVectorComp", [{}, dict(negative=True), dict(negative=True, units="m")], nns=(1, 3), skip=("c12",)), E("mission.phases", "Groundspeeds", alt={"fltcond|vs": [(-150, 150, "m/s")], "fltcond|Utrue": [(1, 30, "m/s")]}), E("mission.phases", "HorizontalAcceleration", dom={"weight": (2000, 9000, "kg")}), E("mission.phases", "SteadyFlightCL"),
    E("mission.phases", "TakeoffClimb", nn=None, fopts={"h_obstacle": (9, 16)}), E("mission.phases", "TakeoffTransition", nn=None), E("mission.phases", "VerticalAcceleration", dom={"weight": (2000, 6000, "kg"), "lift": (15000, 90000, "N")}),
    E(P + "empirical_data.prop_maps", "ConstantPropEfficiency", nn="vec_size"), E(P + "generator", "SimpleGenerator"), E(P + "motor", "SimpleMotor"), E(P + "propeller", "PropCoefficients", dom={"fltcond|Utrue": (0, 240, "m/s")}),
    E(P + "propeller", "SimplePropeller", [{}, dict(num_blades=3)], defaults={"diameter": (2.5, "m"), "power_rating": (500, "kW")}, dom={"shaft_power_in": (2e5, 6e5, "W"), "rpm": (1600, 2300, "rpm"), "fltcond|Utrue": (60, 130, "m/s"), "diameter": (2, 3, "m")}, fixed=("design_cp", "design_J")),
    E(P + "propeller", "ThrustCalc", alt={"J": [(0.1, 0.2, None), (0.01, 0.1, None)]}), E(P + "propeller", "WeightCalc", [{}, dict(num_blades=3)], nn=None),
    E(P + "splitter", "PowerSplit", [dict(rule="fraction"), dict(rule="fixed")], dom={"power_rating": (5e5, 1e6, "W")}, fopts=dict(weight_inc=(1e-5, 1e-3), weight_base=(1, 20), cost_inc=(0.01, 1), cost_base=(1, 200))), E(P + "turboshaft", "SimpleTurboshaft", fopts=dict(weight_inc=(1e-5, 1e-3), weight_base=(1, 200), cost_base=(1, 200))),
    E(P + "systems.simple_turboprop", "TurbopropPropulsionSystem", dom=ENG), E(P + "systems.simple_turboprop", "TwinTurbopropPropulsionSystem", dom=ENG),
    E(P + "systems.simple_series_hybrid", "SeriesHybridElectricPropulsionSystem", dom=dict(ENG, dv_prop1_diameter=(2, 3, "m"), dv_motor1_rating=(200, 600, "kW"), dv_gen1_rating=(200, 600, "kW"), dv_batt1_weight=(200, 900, "kg")), solver=True), E(P + "systems.simple_series_hybrid", "SingleSeriesHybridElectricPropulsionSystem", dom=ENG, solver=True, fixed=("specific_energy",)), E(P + "systems.simple_series_hybrid", "TwinSeriesHybridElectricPropulsionSystem", dom=dict(ENG, **{"ac|propulsion|engine|rating": (230, 500, "kW")}), newton=True, integ=True, nns=(3,)),
    E(P + "systems.simple_all_electric", "AllElectricSinglePropulsionSystemWithThermal_Incompressible", dom=dict(THERM, **{"ac|propulsion|motor|rating": (400, 600, "kW"), "mdot_coolant": (1.0, 3, "kg/s"), "area_nozzle": (0.03, 0.08, "m**2")}), solver=True, newton=True, integ=True, nns=(3,), big=True, fixed=("specific_energy",)),
    E(P + "systems.simple_all_electric", "AllElectricSinglePropulsionSystemWithThermal_Compressible", dom=dict(THERM, **{"ac|propulsion|motor|rating": (400, 600, "kW")}), solver=True, newton=True, integ=True, nns=(3,), big=True, fixed=("specific_energy",)),
    E(P + "systems.thermal_series_hybrid", "TwinSeriesHybridElectricThermalPropulsionRefrigerated", guess={"hx.T_out_hot": (315, "degK"), "motorheatsink.T_out": (305, "degK"), "refrig.T_out_cold": (300, "degK"), "refrig.heat_pump.q_in_1": (-1000, "W"), "refrig.heat_pump.q_in_2": (1500, "W")}, dom=THERM, solver=True, newton=True, integ=True, nns=(3,), big=True),
    E(P + "systems.thermal_series_hybrid", "TwinSeriesHybridElectricThermalPropulsionSystem", dom=THERM, solver=True, newton=True, integ=True, nns=(3,), big=True),
    E("stability.tail_volume_coefficient_sizing", "HStabVolumeCoefficientSizing", nn=None), E("stability.tail_volume_coefficient_sizing", "VStabVolumeCoefficientSizing", nn=None),
    E(T + "battery_cooling", "BandolierCoolingSystem", dom={"T_in": (285, 299, "degK")}), E(T + "battery_cooling", "LiquidCooledBattery", [dict(quasi_steady=True), dict(quasi_steady=False)], newton=True, integ=True, nns=(3,), dom={"q_in": (500, 5000, "W"), "duration": (30, 600, "s")}),
    E(T + "chiller", "COPExplicit", dom={"T_h": (320, 420, "degK")}), E(T + "chiller", "COPHeatPump"), E(T + "chiller", "HeatPumpWeight", nn=None),
    E(T + "chiller", "HeatPumpWithIntegratedCoolantLoop", [{}, dict(nonlinear_bypass_control=True)], newton=True, vskip12=(0,), defaults={"power_rating": (1000, "W")}, dom={"power_rating": (500, 3000, "W"), "T_in_cold": (290, 305, "degK"), "T_in_hot": (310, 330, "degK"), "mdot_coolant": (0.3, 1, "kg/s"), "mdot_coolant_cold": (0.3, 1, "kg/s"), "mdot_coolant_hot": (0.3, 1, "kg/s")}), E(T + "chiller", "LinearSelector", dom={"bypass": (0, 1, None)}),
    E(T + "ducts", "DensityIdealGas"), E(T + "ducts", "DuctExitMachNumber"), E(T + "ducts", "DuctExitPressureRatioImplicit", newton=True, dom={"pt": (9.5e4, 1.5e5, "Pa"), "p_exit": (6e4, 9e4, "Pa")}), E(T + "ducts", "DuctStation", newton=True, dom={"area": (0.05, 0.2, "m**2"), "cp": (1000, 1010, None)}, solver=True), E(T + "ducts", "ExplicitIncompressibleDuct", dom={"delta_p_hex": (-900, -50, "Pa"), "fltcond|rho": (0.8, 1.2, "kg/m**3"), "area_nozzle": (0.03, 0.08, "m**2")}),
    E(T + "ducts", "HeatAdditionPressureLoss", dom={"cp": (1000, 1010, None)}), E(T + "ducts", "Inlet"), E(T + "ducts", "MachNumberDuct", newton=True, dom={"mdot": (0.3, 3, "kg/s"), "area": (0.05, 0.2, "m**2")}), E(T + "ducts", "MachNumberfromSpeed"), E(T + "ducts", "MassFlow"), E(T + "ducts", "NetForce"), E(T + "ducts", "NozzlePressureLoss"),
    E(T + "ducts", "OutletNozzle", newton=True, dom={"p_exit": (6e4, 9e4, "Pa"), "pt_in": (1e5, 1.3e5, "Pa"), "area": (0.02, 0.06, "m**2")}, solver=True), E(T + "ducts", "PressureIsentropic"), E(T + "ducts", "SpeedOfSound", dom={"T": (220, 330, "degK")}), E(T + "ducts", "TemperatureIsentropic"), E(T + "ducts", "TotalPressureIsentropic"), E(T + "ducts", "TotalTemperatureIsentropic"),
    E(T + "ducts", "ImplicitCompressibleDuct", newton=True, big=True, guess={"mdot": (1.5, "kg/s")}, dom={"convergence_hack": (-40, 0, "Pa"), "mdot_hot": (0.05, 0.12, "kg/s"), "T_in_hot": (330, 360, "degK"), "Utrue": (80, 130, "m/s"), "p_inf": (7e4, 1e5, "Pa"), "dynamic_pressure_loss_factor": (0, 0.05, None), "area_nozzle_in": (0.015, 0.028, "m**2"), "eta_ram": (0.98, 1, None)}),
    E(T + "ducts", "ImplicitCompressibleDuct_ExternalHX", newton=True, big=True, guess={"mdot": (1.5, "kg/s")}, dom={"convergence_hack": (-40, 0, "Pa"), "Utrue": (80, 130, "m/s"), "p_inf": (7e4, 1e5, "Pa"), "delta_p": (-300, -20, "Pa"), "dynamic_pressure_loss_factor": (0, 0.05, None), "area_nozzle_in": (0.015, 0.028, "m**2"), "eta_ram": (0.98, 1, None), "heat_in": (0, 9000, "W"), "area_2": (0.08, 0.2, "m**2"), "area_3": (0.08, 0.2, "m**2")}),
    E(T + "heat_exchanger", "ConvectiveCoefficient"), E(T + "heat_exchanger", "CrossFlowNTUEffectiveness"), E(T + "heat_exchanger", "FinEfficiency"), E(T + "heat_exchanger", "HXGroup"), E(T + "heat_exchanger", "HydraulicDiameterReynoldsNumber"), E(T + "heat_exchanger", "NTUEffectivenessActualHeatTransfer"), E(T + "heat_exchanger", "NTUMethod", dom={"mdot_hot": (0.1, 0.9, "kg/s")}),
    E(T + "heat_exchanger", "NusseltFromColburnJ"), E(T + "heat_exchanger", "OffsetStripFinData"), E(T + "heat_exchanger", "OffsetStripFinGeometry", nn=None), E(T + "heat_exchanger", "OutletTemperatures"), E(T + "heat_exchanger", "PressureDrop"), E(T + "heat_exchanger", "UAOverall", [{}, dict(fouling_factor_cold=0.002, fouling_factor_hot=0.001)]),
    E(T + "heat_pipe", "AmmoniaProperties"), E(T + "heat_pipe", "HeatPipeThermalResistance", [dict(vapor_resistance=v, wick_thickness=w) for v in (False, True) for w in (0.0, 0.001)], dom={"q": (300, 3000, "W")}), E(T + "heat_pipe", "HeatPipeVaporTempDrop", dom={"q": (300, 3000, "W")}), E(T + "heat_pipe", "HeatPipeWeight", nn=None, dom={"length": (1, 10, "m")}),
    E(T + "heat_pipe", "QMaxAnalyticalPart", [{}, dict(theta=10.0)]), E(T + "heat_pipe", "QMaxHeatPipe", dom={"length": (1, 10, "m")}), E(T + "heat_pipe", "QMaxWarning", skip=("c11", "c12", "c13")),
    E(T + "heat_pipe", "HeatPipe", [{}, dict(theta=5.0, wick_thickness=0.001)], newton=True, big=True, defaults={"T_evap": (40.0, "degC"), "T_design": (70.0, "degC"), "inner_diam": (0.02, "m"), "length": (5.0, "m"), "q": (800.0, "W")}, keep=("q", "T_evap"), dom={"q": (200, 900, "W"), "T_evap": (25, 60, "degC"), "T_design": (65, 90, "degC"), "length": (2, 8, "m"), "inner_diam": (0.015, 0.03, "m")}),
    E(T + "hose", "SimpleHose", flat=("rho_coolant",)), E(T + "manifold", "FlowCombine", alt={"mdot_in_A": [(1e-7, 1e-3, "kg/s")], "mdot_in_B": [(1e-7, 1e-3, "kg/s")]}), E(T + "manifold", "FlowSplit"), E(T + "motor_cooling", "LiquidCooledMotor", [dict(quasi_steady=True), dict(quasi_steady=False)], newton=True, integ=True, nns=(3,), dom={"duration": (30, 600, "s"), "q_in": (500, 9000, "W")}), E(T + "motor_cooling", "MotorCoolingJacket"), E(T + "pump", "SimplePump", dom={"delta_p": (1e4, 2e5, "Pa")}, fopts=dict(weight_base=(0.5, 20))),
    E(T + "thermal", "ConstantSurfaceTemperatureColdPlate_NTU"), E(T + "thermal", "CoolantReservoir", newton=True, integ=True, nns=(3,), dom={"duration": (5, 60, "s")}), E(T + "thermal", "CoolantReservoirRate"), E(T + "thermal", "LiquidCooledComp", [dict(quasi_steady=True), dict(quasi_steady=False)], newton=True, integ=True, nns=(3,), dom={"duration": (30, 600, "s"), "q_in": (500, 9000, "W")}),
    E(T + "thermal", "PerfectHeatTransferComp"), E(T + "thermal", "ThermalComponentWithMass"), E("utilities.linearinterp", "LinearInterpolator", [{}, dict(units="m")], nns=(2, 5), skip=("c12",)),
    E("utilities.math.max_min_comp", "MaxComp", skip=("c12",)), E("utilities.math.max_min_comp", "MinComp", skip=("c12",)),
    *[E(W + "weights_BWB", c, nn=None, dom=JET) for c in ("AftbodyWeight_BWB", "CabinWeight_BWB", "BWBEmptyWeight")],
    *[E(W + "weights_jet_transport", c, o, nn=None, dom=JET, fixed=("K_door", "K_lg")) for c, o in (("EngineSystemsWeight_JetTransport", ()), ("EngineWeight_JetTransport", ()), ("EquipmentWeight_JetTransport", ()), ("FurnishingWeight_JetTransport", ()), ("FuselageKws_JetTransport", ()), ("FuselageWeight_JetTransport", [{}, dict(K_door=1.12, K_lg=1.12)]), ("HstabConst_JetTransport", ()), ("HstabWeight_JetTransport", [{}, dict(K_uht=1.143)]), ("MainLandingGearWeight_JetTransport", ()), ("NacelleWeight_JetTransport", ()), ("NoseLandingGearWeight_JetTransport", ()), ("VstabWeight_JetTransport", [{}, dict(T_tail=True)]), ("WingWeight_JetTransport", ()), ("JetTransportEmptyWeight", [{}, dict(T_tail=True)]))],
    *[E(W + "weights_turboprop", c, nn=None, dom=dict(TP, **ENG, **(WBG if "Empty" in c else {}))) for c in ("EmpennageWeight_SmallTurboprop", "EquipmentWeight_SmallTurboprop", "FuelSystemWeight_SmallTurboprop", "FuselageWeight_SmallTurboprop", "LandingGearWeight_SmallTurboprop", "NacelleWeight_MultiTurboprop", "NacelleWeight_SmallSingleTurboprop", "WingWeight_SmallTurboprop", "SingleTurboPropEmptyWeight")],
    E(W + "weights_twin_hybrid", "TwinSeriesHybridEmptyWeight", nn=None, dom=dict(TP, **ENG, **WBG)),
]
BY = {e.name: e for e in ENTRIES}
assert len(BY) == len(ENTRIES)


def domain(e, prom, units, default):
    keys = [prom]
    while "." in keys[-1]:
        keys.append(keys[-1].split(".", 1)[1])
    keys += [k.split("|", i)[-1] for k in [keys[-1]] for i in range(1, k.count("|") + 1)]
    for d in (e.dom, DOM):
        for k in keys:
            if k in d and d[k][0] is not None:
                return d[k]
    raise KeyError(f"no domain for input {prom} ({units}, {default}) of {e.name}")


# quantities that change sign in use: negative lift, windmilling thrust, heat flowing the other way
SIGNED = {"fltcond|CL": (-1, 0.1, None), "thrust": (-5000, 800, "N"), "q_in": (-5000, 200, "W"), "q_out": (-3000, 100, "W"), "heat_in": (-5000, 0, "W"), "heat_transfer": (-1e4, 1e3, "W"), "heat_max": (-3e4, 0, "W"), "T_in_cold": (320, 360, "degK"), "T_surface": (270, 310, "degK"), "delta_p": (0, 500, "Pa")}


# inputs whose meaning bounds them however far the rest is pushed
BOUNDED = {"fltcond|h": (-400, 19500), "h": (-400, 19500), "throttle": (0, 1.4), "propulsor_active": (0, 1), "taper": (0.02, 1.6), "toverc": (0.02, 0.3), "braking": (0, 1), "fltcond|M": (0.01, 1.6), "M": (0.01, 1.6), "fltcond|singamma": (-0.95, 0.95), "fltcond|cosgamma": (0.05, 1),
           "fltcond|TempIncrement": (-60, 60), "ac|aero|Mach_max": (0.2, 0.98), "taper_aftbody": (0.05, 1)}


def far(r, key, lo, hi, u, shape):
    """values well outside the usual range, still of the usual kind"""
    b = BOUNDED.get(key) or BOUNDED.get(key.split(".")[-1]) or BOUNDED.get(key.split("|")[-1])
    if b:
        v = r.uniform(*b, size=shape)
        return np.where(r.random(shape) < 0.1, b[int(r.integers(2))], v)
    if u in ("degK", "degC"):
        return r.uniform(max(lo - 70, 120 if u == "degK" else -90), hi + 150, size=shape)
    if u == "deg":
        return r.uniform(lo - 20, min(hi + 25, 65), size=shape) if lo < 0 else r.uniform(0, min(hi + 25, 65), size=shape)
    if u == "rad":
        return r.uniform(lo / 10, min(hi * 4, 1.2), size=shape)
    if lo >= 0 and hi <= 1 and u is None:
        return np.where(r.random(shape) < 0.2, np.round(r.random(shape)), r.random(shape)) if lo == 0 else lo * (1 - r.random(shape) * 0.95) + r.random(shape) * (1 - lo)
    k = float(r.choice([3, 30, 1000]))
    if lo > 0:
        return np.exp(r.uniform(np.log(lo / k), np.log(hi * k**0.7), size=shape))
    if lo == 0:
        return hi * k**0.7 * r.random(shape) ** 4
    return r.uniform(4 * lo, 4 * hi, size=shape)


class Built:
    """a model of one entry with an explicit source for every independent input"""

    def __init__(self, e, nn, opts, mode="auto"):
        self.e, self.nn, self.opts = e, nn, opts

        def wrap(p):
            c = e.make(nn, opts)
            p.model.add_subsystem("c", c)
            if e.newton:
                nl = p.model.nonlinear_solver = om.NewtonSolver(solve_subsystems=True, max_sub_solves=10, maxiter=25, atol=1e-13, rtol=1e-13, iprint=-1, reraise_child_analysiserror=False, err_on_non_converge=False)
                nl.options["stall_limit"] = 3
                nl.linesearch = om.BoundsEnforceLS(bound_enforcement="scalar", iprint=-1)
                p.model.linear_solver = om.DirectSolver()
            return p

        p0 = wrap(om.Problem(reports=None))
        for k, (v, u) in e.defaults.items():
            p0.model.set_input_defaults("c." + k, np.ones(nn) * v if k in e.keep else v, units=u)
        p0.setup(check=False)
        p0.final_setup()
        md = p0.model.get_io_metadata("input", metadata_keys=["units", "shape"])
        self.inputs = {}
        for a, m in md.items():
            if p0.model._conn_global_abs_in2out.get(a, "").startswith("_auto_ivc"):
                n = m["prom_name"]
                if n not in self.inputs and not re.search(r"(^|[.])(rhs|lhs|mult|normalize):", n):
                    v = p0.get_val(n, units=m["units"]) if m["units"] else p0.get_val(n)
                    self.inputs[n] = dict(units=m["units"], shape=m["shape"], default=np.array(v), nodes=len(m["shape"]) == 1 and m["shape"][0] == nn and self.is_vector(n))
        mo = p0.model.get_io_metadata("output", metadata_keys=["units", "shape", "tags"])
        self.inner = {}
        for a, m in mo.items():
            if a.startswith("c.") and "openmdao:indep_var" in m["tags"]:
                v = p0.get_val(m["prom_name"], units=m["units"])
                self.inner[m["prom_name"]] = dict(units=m["units"], shape=m["shape"], default=np.array(v))
        p = om.Problem(reports=None)
        iv = p.model.add_subsystem("iv", om.IndepVarComp())
        self.src = {}
        for k, (n, m) in enumerate(self.inputs.items()):
            iv.add_output(f"i{k}", val=np.array(m["default"]), shape=m["shape"], units=m["units"])
            self.src[n] = f"iv.i{k}"
            p.model.connect(f"iv.i{k}", n)
        for n in self.inner:
            self.src[n] = n
        wrap(p)
        self.p = p
        for k, (v, u) in e.defaults.items():
            if "c." + k not in self.src:
                p.model.set_input_defaults("c." + k, np.ones(nn) * v if k in e.keep else v, units=u)
        p.setup(check=False, mode=mode)
        self.tighten()
        p.final_setup()
        mo = p.model.get_io_metadata("output", metadata_keys=["units", "shape"])
        self.outputs = {m["prom_name"]: m["shape"] for a, m in mo.items() if not a.startswith("iv.")}

    def tighten(self):
        p = self.p
        for s in p.model.system_iter(include_self=True, recurse=True, typ=om.Group):
            so = s.nonlinear_solver
            if so is not None and s is not p.model and hasattr(so, "options") and "atol" in so.options and "maxiter" in so.options and so.options["maxiter"] > 1:
                so.options["atol"] = 1e-12
                so.options["rtol"] = 1e-12
                so.options["iprint"] = -1

    _vec = {}

    def is_vector(self, n):
        """does the shape of this input follow the number of nodes? (decided on a 1-node twin, cached per entry)"""
        return True

    def point(self, r, edge=None):
        """a random point of the physical domain; edge pulls the values towards its ends"""
        x = {}
        wide = edge == "wide" and self.e.explicit
        # together: every input of one unit scaled alike
        units = sorted({m["units"] for n, m in self.inputs.items() if m["units"] not in (None, "degK", "degC", "deg", "rad")})
        scaled = pick(r, units) if wide and units and r.random() < 0.4 else None
        factor = float(np.exp(r.uniform(np.log(1e-4), np.log(300))))
        afar = [n for n in self.inputs if r.random() < 0.3] or ([pick(r, list(self.inputs))] if self.inputs else [])
        for n, m in self.inputs.items():
            key = n.split(".", 1)[1] if n.startswith("c.") else n
            tail = key.split(".")[-1]
            if tail in self.e.gen:
                v = np.array(self.e.gen[tail](r), float)
                assert v.shape == tuple(m["shape"]), (n, v.shape, m["shape"])
                if m["units"]:
                    v = om.convert_units(v, "m", m["units"])
                x[n] = v
                continue
            lo, hi, u = domain(self.e, key, m["units"], m["default"])
            t = r.uniform(size=m["shape"])
            if edge == "low":
                t = t**4
            elif edge == "high":
                t = 1 - t**4
            elif edge == "ends":
                t = np.where(r.integers(2, size=m["shape"]), t**5, 1 - t**5)
            t = 0.002 + 0.996 * t
            v = lo + t * (hi - lo)
            signed = [(*SIGNED[tail], 0.12)] if tail in SIGNED and self.e.explicit and edge is not None and SIGNED[tail][2] == u else []
            for a, z, au, f in [(*t_, 0.3) for t_ in self.e.alt.get(tail, ())] + signed:
                q = r.uniform(a, z, size=m["shape"])
                v = np.where(r.random(m["shape"]) < f, om.convert_units(q, au, u) if au and u else q, v)
            if scaled and m["units"] == scaled and not any(key == b or key.endswith("." + b) or key.endswith("|" + b) for b in BOUNDED):
                v = v * factor
            elif wide and not scaled and n in afar:
                v = np.where(r.random(m["shape"]) < 0.6, far(r, key, lo, hi, u, m["shape"]), v)
            if edge == "exact":
                v = np.where((lo == 0) & (r.uniform(size=m["shape"]) < 0.25), 0.0, np.where((hi == 1) & (r.uniform(size=m["shape"]) < 0.25), 1.0, v))
            if u and m["units"]:
                v = om.convert_units(v, u, m["units"])
            x[n] = np.array(v)
        for n, m in self.inner.items():
            key = n.split(".", 1)[1]
            tail = key.split(".")[-1]
            lo, hi, u = self.e.dom.get(tail, (0, 1, None) if tail.startswith("bypass_") else (None, None, None))
            if lo is None:
                x[n] = m["default"] * r.uniform(0.95, 1.05, size=m["shape"])
                continue
            v = lo + r.uniform(size=m["shape"]) * (hi - lo)
            x[n] = np.array(om.convert_units(v, u, m["units"]) if u and m["units"] else v)
        return x

    def alone(self, x):
        """does the model, built anew, return finite outputs for these inputs?"""
        try:
            y = Built(self.e, self.nn, self.opts).run(x)
        except Exception:
            return False
        return all(np.all(np.isfinite(v)) for v in y.values())

    def meta(self, n):
        return self.inputs[n] if n in self.inputs else self.inner[n]

    def set(self, x):
        for n, v in x.items():
            self.p.set_val(self.src[n], v)

    def run(self, x):
        self.set(x)
        for k, (v, u) in self.e.guess.items():
            self.p.set_val("c." + k, v, units=u)
        self.p.run_model()
        return self.read()

    def converged(self, tol=1e-9):
        """implicit models: is the point just run a solution?"""
        if not self.e.newton:
            return True
        self.p.model.run_apply_nonlinear()
        for n, m in self.p.model.get_io_metadata("output", metadata_keys=["units"]).items():
            if n.startswith(("iv.", "_auto")):
                continue
            o, res = self.p.model._outputs[n], self.p.model._residuals[n]
            if not (np.all(np.isfinite(o)) and np.all(np.abs(res) <= tol * (np.abs(o).max() + 1.0))):
                return False
        return True

    def read(self):
        return {o: np.array(self.p.get_val(o)).copy() for o in self.outputs}
