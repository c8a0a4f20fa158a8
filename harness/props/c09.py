"""C09: programs of joins and splits from SplitJoinMC, run on the real components, replayed in VectorMathTrace."""
from common import *
import vecmath

TRACE = "VectorMathTrace"


def mc(tier, seed):
    return [dict(module="SplitJoinMC", cfg=f"SplitJoinMC_{tier}.cfg")]


def preload():
    import openconcept.utilities  # noqa


def jobs(emitted, tier, seed):
    r = rng_of("c09", seed)
    one = [p for p in emitted[0] if len(p["rels"]) == 1]
    more = [p for p in emitted[0] if len(p["rels"]) > 1]
    k = 500 if tier == "quick" else 6000
    ps = vecmath.sample(one, k, r) + vecmath.sample(more, k, r)
    out = [(f"prog-{i:05d}", dict(kind="part", prog=p, seed=["c09", seed, i])) for i, p in enumerate(ps)]
    for i in range(60 if tier == "quick" else 800):
        q = rng_of("c09long", seed, i)
        kind = pick(q, ["cat", "split", "catsplit", "splitcat"])
        rels = []
        for _ in range(int(q.integers(1, 5))):
            s = [int(v) for v in q.integers(1, 8, size=int(q.integers(2, 7)))]
            rels.append(dict(kind=kind, sizes=s, nparts=len(s), len=int(pick(q, [1, 1, 2, 4])), um=pick(q, ["none", "units"])))
        out.append((f"long-{i:04d}", dict(kind="part", seed=["c09l", seed, i], prog=dict(legal=True, rels=rels))))
    dups = [x for x in more if x["legal"] and x["rels"][0]["kind"] in ("cat", "split")]
    for i in range(6):
        out.append((f"dup-{i}", dict(kind="part", prog=dups[i * 11], dup=True, seed=["c09d", seed, i])))
    out.append(("reject", dict(kind="part", reject=True)))
    return out


def execute(job, rec):
    if job.get("reject"):
        vecmath.run_reject(job, rec)
    else:
        vecmath.run_parts(job, rec)
