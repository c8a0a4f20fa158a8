"""Helpers shared by the drivers."""
import contextlib, io, random, zlib
import numpy as np
import openmdao.api as om


def rng_of(*key):
    return np.random.default_rng(zlib.crc32(repr(key).encode()))


def pick(r, xs):
    return xs[int(r.integers(len(xs)))]


def conv(val, a, b):
    """value in units a expressed in units b (None: as is)"""
    if a is None or b is None or a == b:
        return val
    return om.convert_units(val, a, b)


def exc_text(e):
    return f"{type(e).__name__}: {str(e)}"[:400]


def problem(model, setup=True, **kw):
    p = om.Problem(model, reports=None)
    if setup:
        p.setup(check=False, **kw)
    return p


STEMS = ["range", "cool_range", "range_0", "a", "aa", "b", "x", "x1", "x10", "xx", "fuel", "fuel_used", "W", "weight_empty", "h", "fltcond|h", "ac|weights|MTOW", "ac|geom|wing|S_ref", "S_ref", "in_1", "comp_1", "t", "T_in", "mdot_coolant", "v", "ve", "vec_2", "z", "zed", "Q", "q_loss"]


def names(r, n, bar=True, avoid=()):
    """n different variable names of all lengths, some of them beginnings or ends of others"""
    pool = [s for s in STEMS if (bar or "|" not in s) and s not in avoid]
    k = r.permutation(len(pool))
    out = [pool[int(i)] for i in k[:n]]
    i = 0
    while len(out) < n:
        out.append(f"{pool[int(k[i % len(k)])]}_{i}")
        i += 1
    return out
