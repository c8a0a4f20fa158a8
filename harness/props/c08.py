"""C08: programs of element-wise relations from SumProdMC (mul), run on the real component, replayed in VectorMathTrace."""
from common import *
import vecmath

TRACE = "VectorMathTrace"


def mc(tier, seed):
    return [dict(module="SumProdMC", cfg=f"SumProdMC_mul_{tier}.cfg")]


def preload():
    import openconcept.utilities  # noqa


def jobs(emitted, tier, seed):
    r = rng_of("c08", seed)
    one = [p for p in emitted[0] if len(p["eqs"]) == 1]
    more = [p for p in emitted[0] if len(p["eqs"]) > 1]
    k = 500 if tier == "quick" else 8000
    ps = vecmath.sample(one, k, r) + vecmath.sample(more, k, r)
    out = [(f"prog-{i:05d}", dict(kind="mul", prog=p, seed=["c08", seed, i])) for i, p in enumerate(ps)]
    # long programs: many equations of the single space in one component
    legal = [p["eqs"][0] for p in one if p["legal"]]
    for i in range(60 if tier == "quick" else 1000):
        q = rng_of("c08long", seed, i)
        m = int(q.integers(3, 7))
        out.append((f"long-{i:04d}", dict(kind="mul", seed=["c08l", seed, i], prog=dict(legal=True, eqs=[pick(q, legal) for _ in range(m)], styles=[pick(q, ["init", "add"])] + ["add"] * (m - 1)))))
    for i in range(6):
        p = [x for x in more if x["legal"]][i * 7]
        out.append((f"dup-{i}", dict(kind="mul", prog=p, dup=True, seed=["c08d", seed, i])))
    out.append(("reject", dict(kind="mul", reject=True)))
    return out


def execute(job, rec):
    if job.get("reject"):
        vecmath.run_reject(job, rec)
    else:
        vecmath.run_math(job, rec)
