"""C16: chains of devices from DeviceMC, each device run in the regime the model reached, decided in DeviceTrace."""
import numpy as np
import laws
import registry as R
from common import *

TRACE = "DeviceTrace"
CLS = dict(motor="SimpleMotor", generator="SimpleGenerator", split="PowerSplit", battery="SimpleBattery")


def mc(tier, seed):
    return [dict(module="DeviceMC", cfg=f"DeviceMC_{tier}.cfg")]


def preload():
    for n in [*CLS.values(), "SimpleTurboshaft"]:
        R.BY[n].klass()


def jobs(emitted, tier, seed):
    r = rng_of("c16", seed)
    H = emitted[0]
    out = []
    for k, i in enumerate(r.permutation(len(H))[: 12000 if tier != "quick" else 900]):
        out.append((f"chain-{k}", dict(chain=H[int(i)], seed=[seed, "d", k])))
    for k in range(1500 if tier != "quick" else 150):
        out.append((f"engine-{k}", dict(chain=[dict(dev="engine")], seed=[seed, "e", k])))
    return out


def amounts(rel, r, P):
    """commanded amount per node for a power P and a relation"""
    return np.array([p * (dict(clipped=r.uniform(1.01, 3), equal=1.0, none=0.0, partial=r.uniform(0.05, 0.95))[q]) for p, q in zip(P, rel)])


def execute(job, rec):
    r = rng_of(*job["seed"])
    nn = int(pick(r, [1, 1, 2, 3, 5, 11]))
    P = None
    for d in job["chain"]:
        name = CLS.get(d["dev"], "SimpleTurboshaft")
        e = R.BY[name]
        o = {}
        full = r.integers(3)  # 0: all defaults but the efficiency, else everything moved
        if full:
            o = dict(cost_inc=float(r.uniform(0.01, 2)), cost_base=float(r.uniform(1, 500)))
            if name != "SimpleBattery":
                o.update(weight_inc=float(r.uniform(1e-5, 1e-3)), weight_base=float(r.uniform(0.5, 90)))
            else:
                o.update(specific_power=float(r.uniform(500, 9000)), specific_energy=float(r.uniform(100, 600)))
            if name == "SimpleTurboshaft":
                o.update(psfc=float(r.uniform(0.3, 1)) * 1.69e-7)
        if "eta" in d:
            o["efficiency"] = {0: 0.0, 100: 1.0}.get(d["eta"], float(np.round(r.uniform(0.5, 0.99), 4)))
            if d["eta"] == 100 and r.integers(2):
                o.pop("efficiency")
        if "rule" in d:
            o["rule"] = d["rule"]
            if d["rule"] == "fraction" and r.integers(2):
                o.pop("rule")
        try:
            b = R.Built(e, nn, o, mode=pick(r, ["fwd", "rev"]))
            x = b.point(r, pick(r, [None, "ends", "exact"]))
            p = P if P is not None else r.uniform(1e4, 9e5, size=nn)
            over = {}
            if d["dev"] == "motor":
                rating = r.uniform(0.8, 2) * max(p.max(), 1e4)
                over = {"elec_power_rating": rating, "throttle": p / rating}
            elif d["dev"] == "generator":
                over = {"shaft_power_in": p}
            elif d["dev"] == "battery":
                over = {"elec_load": p * (1 if r.integers(3) else -1)}
            elif d["dev"] == "split":
                rel = [d["rel"]] + [pick(r, ["clipped", "equal", "none", "partial"] if d["rule"] == "fixed" else ["equal", "none", "partial"]) for _ in range(nn - 1)]
                rel = [rel[int(i)] for i in r.permutation(nn)]
                a = amounts(rel, r, p)
                over = {"power_in": p, "power_split_amount": a, "power_split_fraction": np.array([{"none": 0.0, "equal": 1.0}.get(q, r.uniform(0.02, 0.98)) for q in rel])}
            b.run(laws.override(b, x, over, r))
            xs, ys = laws.snapshot(b)
            rec("Eval", c=name, o=o, x=xs, y=ys)
            nxt = {"motor": "shaft_power_out", "generator": "elec_power_out", "split": pick(r, ["power_out_A", "power_out_B"])}.get(d["dev"])
            P = np.abs(np.array(ys[nxt])) if nxt else None
        except Exception as ex:
            rec("Exc", what=f"{name} {o}: {exc_text(ex)}")
