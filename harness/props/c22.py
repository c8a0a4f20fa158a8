"""C22: every weight and cost part at random settings, and whole build-ups changed one input at a time along WeightMC's programs, decided in WeightTrace."""
import numpy as np
import laws
import registry as R
from common import *

TRACE = "WeightTrace"
NU = dict(n_ult=(2, 7))
BIG = dict(structural_fudge=(0.8, 1.6), total_fudge=(0.8, 1.4), wing_weight_multiplier=(0.7, 1.5), n_ult=(2, 6), n_land_ult=(2, 6), control_surface_area_frac=(0.05, 0.4), kneeling_main_gear_parameter=(1, 1.2), kneeling_nose_gear_parameter=(1, 1.2), K_lav=(0.3, 1.2), K_buf=(1, 6), coeff_fc=(0.4, 0.9), coeff_avionics=(0.3, 1), APU_weight_frac=(0.003, 0.015))
OPTS = {
    "WingWeight_SmallTurboprop": NU, "EmpennageWeight_SmallTurboprop": NU, "FuselageWeight_SmallTurboprop": NU, "NacelleWeight_SmallSingleTurboprop": NU, "NacelleWeight_MultiTurboprop": NU, "LandingGearWeight_SmallTurboprop": NU,
    "FuelSystemWeight_SmallTurboprop": dict(Kfsp=(5, 8)), "EquipmentWeight_SmallTurboprop": {}, "SingleTurboPropEmptyWeight": {}, "TwinSeriesHybridEmptyWeight": {},
    "WingWeight_JetTransport": dict(NU, control_surface_area_frac=(0.05, 0.4)), "HstabConst_JetTransport": dict(fuselage_width_frac=(0, 0.9)), "HstabWeight_JetTransport": dict(NU, K_uht=(1, 1.2), elevator_area_frac=(0.05, 0.5)), "VstabWeight_JetTransport": NU, "FuselageKws_JetTransport": {},
    "FuselageWeight_JetTransport": dict(NU, K_door=(1, 1.25), K_lg=(1, 1.12)), "MainLandingGearWeight_JetTransport": dict(n_land_ult=(2, 6), kneeling_gear_parameter=(1, 1.2)), "NoseLandingGearWeight_JetTransport": dict(n_land_ult=(2, 6), kneeling_gear_parameter=(1, 1.2)),
    "EngineWeight_JetTransport": {}, "EngineSystemsWeight_JetTransport": {}, "NacelleWeight_JetTransport": {}, "FurnishingWeight_JetTransport": dict(K_lav=(0.3, 1.2), K_buf=(1, 6)), "EquipmentWeight_JetTransport": dict(coeff_fc=(0.4, 0.9), coeff_avionics=(0.3, 1), APU_weight_frac=(0.003, 0.015)),
    "JetTransportEmptyWeight": dict(BIG, fuselage_width_frac=(0, 0.9), K_uht=(1, 1.2), elevator_area_frac=(0.05, 0.5), K_door=(1, 1.25), K_lg=(1, 1.12), cabin_length_frac=(0.5, 0.95)),
    "CabinWeight_BWB": {}, "AftbodyWeight_BWB": {}, "BWBEmptyWeight": BIG,
    "TurbopropOperatingCost": dict(airframe_cost_per_kg=(100, 600), fuel_cost_per_kg=(0.3, 2), electricity_cost_per_MJ=(0.005, 0.06), aircraft_life_years=(5, 30), aircraft_daily_cycles=(1, 9), battery_replacement_cycles=(500, 4000), OEM_premium=(1, 1.6)),
}


def mc(tier, seed):
    return [dict(module="WeightMC", cfg=f"WeightMC_{tier}.cfg", workers=4)]


def preload():
    for n in OPTS:
        R.BY[n].klass()


def jobs(emitted, tier, seed):
    r = rng_of("c22", seed)
    H = emitted[0]
    big = tier != "quick"
    out = [(f"default-{c}", dict(default=c, seed=[seed])) for c in ("SingleTurboPropEmptyWeight", "TwinSeriesHybridEmptyWeight")]
    # every input of every family is changed at least once
    first, rest = {}, []
    for i in r.permutation(len(H)):
        h = H[int(i)]
        k = (h["fam"], h["changes"][-1])
        if k in first:
            rest.append(h)
        else:
            first[k] = h
    for k, h in enumerate([*first.values(), *rest][: 12000 if big else 350]):
        out.append((f"book-{k}", dict(book=h, seed=[seed, "b", k])))
    for c in OPTS:
        for k in range(400 if big else 16):
            out.append((f"{c}-{k}", dict(name=c, k=k, seed=[seed, c, k])))
    return out


def draw(r, c):
    o = {o: float(f"{r.uniform(*d):.6g}") for o, d in OPTS[c].items() if r.integers(2)}
    for n in ("aircraft_life_years", "aircraft_daily_cycles", "battery_replacement_cycles"):
        if n in o:
            o[n] = int(o[n])
    return o


def execute(job, rec):
    r = rng_of(*job["seed"])
    if "default" in job:
        import openmdao.api as om

        p = om.Problem(R.BY[job["default"]].klass()(), reports=None)
        p.setup(check=False)
        p.final_setup()
        return rec("Default", c=job["default"], x={n: p.get_val(n, units=u) for n, u in (("W_fluids", "kg"), ("structural_fudge", None))})
    if "book" in job:
        try:
            return book(job["book"], r, rec)
        except Exception as ex:
            return rec("Exc", what=exc_text(ex))
    c, e = job["name"], R.BY[job["name"]]
    laws.session(dict(name=c, nn=1, seed=job["seed"], variant=job["k"] % len(e.opts), opts=draw(r, c)), rec, points=2)


def book(prog, r, rec):
    c = prog["fam"]
    e = R.BY[c]
    o = dict(n_components=2, n_batteries=1) if c == "TurbopropOperatingCost" else dict(e.opts[int(r.integers(len(e.opts)))])
    o.update(draw(r, c))
    b = R.Built(e, 1, o)
    x = b.point(r, None)
    b.run(x)
    xs, ys = laws.snapshot(b)
    rec("Eval", c=c, nn=1, o=o, x=xs, y=ys)
    local = {laws.local(n): n for n in x}
    for n in prog["changes"]:
        if n not in local:
            rec("Exc", what=f"{c} has no input {n}")
            continue
        new = b.point(r, pick(r, [None, "ends"]))
        x = dict(x)
        x[local[n]] = new[local[n]]
        b.run(x)
        prev = ys
        xs, ys = laws.snapshot(b)
        rec("Eval", c=c, nn=1, o=o, x=xs, y=ys, changed=n, prev=prev)
