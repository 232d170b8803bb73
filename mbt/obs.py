"""Projection of observed Python values onto the integers of the specification."""
import math
import numbers
import random

NANV, PINF, NINF, BIGV, NBIGV, NONEV = (2000000001, 2000000002, -2000000002,
                                        2000000003, -2000000003, 2000000004)


def mic(v):
    """float -> micro integer (or sentinel)."""
    if v is None:
        return NONEV
    if isinstance(v, str):
        return NONEV
    v = float(v)
    if math.isnan(v):
        return NANV
    if math.isinf(v):
        return PINF if v > 0 else NINF
    if v > 1999:
        return BIGV
    if v < -1999:
        return NBIGV
    return int(round(v * 1e6))


def mics(a):
    return [mic(v) for v in a]


def cnt(v):
    """A count that must be an integer; non-integers become sentinels."""
    try:
        f = float(v)
    except Exception:
        return NONEV
    if math.isnan(f):
        return NANV
    if math.isinf(f):
        return PINF if f > 0 else NINF
    r = int(round(f))
    if abs(f - r) > 1e-6 or abs(r) >= 2000000000:
        return BIGV
    return r


def cnts(a):
    return [cnt(v) for v in a]


def rng_for(seed, driver, k):
    return random.Random("%s|%s|%s" % (seed, driver, k))


def exc_name(e):
    return type(e).__name__


def vb(seed, every=9):
    """One case in `every` runs with verbose output, which must not change anything."""
    return {"verbose": True} if seed % every == 4 else {}
