"""C04: missions of every profile from MissionMC flown with aircraft of our own, replayed segment by segment in ClosureTrace."""
import mission as M
from common import *

TRACE = "ClosureTrace"
LIMIT = 300


def mc(tier, seed):
    return [dict(module="MissionMC", cfg=f"MissionMC_{tier}.cfg", workers=4)]


def preload():
    import openconcept.mission  # noqa


def jobs(emitted, tier, seed):
    r = rng_of("c04", seed)
    by = {}
    for e in emitted[0]:
        by.setdefault(repr(sorted(e["P"].items())), []).append(e)
    out = []
    n = 14 if tier == "quick" else 400
    for i, k in enumerate(sorted(by)):
        es = by[k]
        for j in range(n):
            out.append((f"mission{i}-{j:03d}", dict(scen=es[int(r.integers(len(es)))], seed=["c04", seed, i, j])))
    return [out[i] for i in r.permutation(len(out))]


def execute(job, rec):
    r = rng_of(*job["seed"])
    try:
        M.session(job["scen"], r, rec)
    except Exception as ex:
        rec("Exc", what=exc_text(ex))
