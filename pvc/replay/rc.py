"""shared helpers of the concrete oracles"""
import math, random
from fractions import Fraction as Fr
import numpy as np


def limits(name):
    s = name.startswith("int")
    w = int(name.strip("uint"))
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


ALLT = [f"{s}{w}" for w in range(1, 33) for s in ("int", "uint")]
COMMON = ["int8", "uint8", "int16", "uint16", "int32", "uint32"]


def rtype(rng):
    return rng.choice(COMMON) if rng.random() < 0.6 else rng.choice(ALLT)


def rzp(rng, lo, hi):
    r = rng.random()
    if r < 0.25:
        return lo
    if r < 0.5:
        return hi
    if r < 0.65 and lo <= 0 <= hi:
        return 0
    return rng.randint(lo, hi)


def rscale(rng):
    r = rng.random()
    if r < 0.35:
        return 2.0 ** rng.randint(-12, 8)
    if r < 0.45:
        return 1.0
    return math.exp(rng.uniform(-14, 7))


def rshape(rng):
    return rng.choice([[], [1], [3], [7], [2, 3], [1, 4], [2, 1, 3], [0], [2, 2, 2, 2], [5, 1], [17]])


def size(shape):
    return int(np.prod(shape)) if shape else 1


def rvals(rng, n, s, zp, lo, hi):
    """reals around the interesting codes of a type"""
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.2:
            c = rng.choice([lo, hi, lo - 1, hi + 1, zp, lo + 1, hi - 1])
        elif r < 0.8:
            c = rng.randint(lo, hi)
        else:
            c = rng.randint(2 * lo - hi - 2, 2 * hi - lo + 2)
        d = rng.choice([0, 0, .25, -.25, .5, -.5, .4375, -.4375, .499, -.499, rng.uniform(-.5, .5)])
        out.append(float((c + d - zp) * s))
    if n and rng.random() < 0.1:
        out[rng.randrange(n)] = rng.choice([1e18, -1e18, 0.0, 1e9, -1e9])
    return out


def arr(d):
    return np.array(d["data"], dtype=d.get("dtype", "float64")).reshape(d["shape"])


def mk(shape, data, dtype="float64"):
    return {"shape": list(shape), "data": list(data), "dtype": dtype}


def same_shape(out, inp):
    return np.shape(out) == np.shape(inp)


def exact(x, s, zp):
    return Fr(float(x)) / Fr(float(s)) + Fr(int(zp))


def floor(f):
    return f.numerator // f.denominator


def near_ok(r, t, lo, hi, rel=Fr(1, 1 << 49), bias=Fr(1, 2)):
    """r is floor(t + bias) clipped, allowing float rounding of t"""
    tol = (abs(t) + abs(hi) + abs(lo) + 1) * rel
    a = min(max(floor(t + bias - tol), lo), hi)
    b = min(max(floor(t + bias + tol), lo), hi)
    return a <= r <= b


def isint(a):
    return np.asarray(a).dtype.kind in "iu"
