"""C15: altitude bands and airspeed modes enumerated by AtmosMC, run on the atmosphere models, decided in AtmosTrace."""
import numpy as np
import laws
import registry as R
from common import *

TRACE = "AtmosTrace"
BAND = {"below": (-900, 0), "ground": (0, 0), "tropo": (0, 10500), "lo": (10500, 10500), "lo-": (10490, 10500), "lo+": (10500, 10510), "join": (10500, 11500), "hi-": (11490, 11500), "hi": (11500, 11500), "hi+": (11500, 11510), "strato": (11500, 20000)}
COMPS = ["TemperatureComp", "PressureComp", "DensityComp", "SpeedOfSoundComp", "TrueAirspeedComp", "EquivalentAirspeedComp", "MachNumberComp", "DynamicPressureComp"]


def mc(tier, seed):
    return [dict(module="AtmosMC", cfg=f"AtmosMC_{tier}.cfg")]


def preload():
    for n in COMPS + ["ComputeAtmosphericProperties"]:
        R.BY[n].klass()


def jobs(emitted, tier, seed):
    r = rng_of("c15", seed)
    S = emitted[0]
    S = [S[int(i)] for i in r.permutation(len(S))]
    T = tier != "quick"
    out = []
    for k, s in enumerate(S[:20000 if T else 700]):
        out.append((f"atmos-{k}", dict(name="ComputeAtmosphericProperties", nodes=s["nodes"], mode=s["mode"], seed=[seed, "a", k])))
    for k, s in enumerate(S[::-1][:4000 if T else 400]):
        n = COMPS[k % len(COMPS)]
        out.append((f"{n}-{k}", dict(name=n, nodes=s["nodes"], mode="", seed=[seed, n, k])))
    return out


def execute(job, rec):
    r = rng_of(*job["seed"])
    nodes = job["nodes"]
    # long missions: the bands repeat over the nodes
    nn = len(nodes) if r.integers(3) else len(nodes) * int(r.integers(2, 7))
    e = R.BY[job["name"]]
    o = dict(true_airspeed_in=job["mode"] == "tas") if job["mode"] else {}

    def point(b, r, same):
        h = np.array([r.uniform(*BAND[nodes[i % len(nodes)]]) for i in range(nn)])
        inc = r.uniform(-40, 40, size=nn) if same == 0 else np.full(nn, r.uniform(-40, 40)) if same == 1 else np.zeros(nn)
        x = b.point(r, None)
        return laws.override(b, x, {"fltcond|h": h, "fltcond|TempIncrement": inc, "fltcond|Ueas": r.uniform(0.5, 250, size=nn) ** r.choice([1, 0.5]), "fltcond|Utrue": r.uniform(0.5, 320, size=nn),
                                    "fltcond|T": r.uniform(180, 330, size=nn), "fltcond|p": r.uniform(3e3, 1.1e5, size=nn), "fltcond|rho": r.uniform(0.05, 1.4, size=nn), "fltcond|a": r.uniform(280, 350, size=nn)}, r)

    try:
        b = R.Built(e, nn, o, mode=pick(r, ["fwd", "rev"]))
        for same in (0, 1, 2):
            x = point(b, r, same)
            b.run(x)
            xs, ys = laws.snapshot(b)
            d = dict(x=xs, y=ys)
            if "c.fltcond|h" in b.src and r.integers(2):
                of = [n for n in ("fltcond|T", "fltcond|p") if "c." + n in b.outputs]
                J = b.p.compute_totals(of=["c." + n for n in of], wrt=[b.src["c.fltcond|h"]])
                d["J"] = [dict(of=n, J=J["c." + n, b.src["c.fltcond|h"]]) for n in of]
            rec("Eval", **d)
        if job["mode"]:
            b2 = R.Built(e, nn, dict(true_airspeed_in=job["mode"] != "tas"))
            i, want = ("fltcond|Ueas", "fltcond|Utrue") if job["mode"] == "tas" else ("fltcond|Utrue", "fltcond|Ueas")
            x2 = b2.point(r, None)
            x2 = laws.override(b2, x2, {"fltcond|h": xs["fltcond|h"], "fltcond|TempIncrement": xs["fltcond|TempIncrement"], i: ys[i]}, r)
            b2.run(x2)
            xs2, ys2 = laws.snapshot(b2)
            rec("Eval", x=xs2, y=ys2, want=xs[want])
    except Exception as ex:
        rec("Exc", what=exc_text(ex))
