import stubs
from rc import *
from itcl_quantization import Quantization
from itcl_quantizer.quantizer.distributions.distribution import Distribution
from itcl_quantizer.optimizers.minmax import MinMaxOptimizer
RULE = "distributions of random data (constants, zeros, single values, one-sided and two-sided, float32, several ranks, 1 to 512 bins), whole or sliced as the trimmers slice them, quantised for random types with and without forced parameters; scale, zero point and the error of every datum inside the selected range checked in exact arithmetic; non-trivial: more than one datum"
TY = ["int8"] * 4 + ["uint8", "int16", "uint16", "int4", "uint4", "int32", "int2", "uint1", "int24", "int6"]


def cases(rng, tier):
    for _ in range(1500 if tier == "quick" else 20000):
        k = rng.choice(["u", "u", "pos", "neg", "const", "zeros", "one", "int", "gauss", "tiny"])
        n = rng.choice([1, 2, 3, 5, 40, 600])
        m = rng.choice([1e-3, .5, 1, 10, 3e4])
        g = {"u": lambda: rng.uniform(-m, m), "pos": lambda: rng.uniform(0, m), "neg": lambda: -rng.uniform(m / 3, m), "one": lambda: m, "int": lambda: float(rng.randint(-3, 3)),
             "gauss": lambda: rng.gauss(m, m), "tiny": lambda: rng.choice([0.0, 1e-30, -1e-30])}
        c = rng.choice([m, -m, 0.0])
        x = [c] * n if k == "const" else [0.0] * n if k == "zeros" else [g[k]() for _ in range(n)]
        s = rng.choice([None, None, None, [0, None], [0, 6], [-m / 2, m / 2], [None, m / 3], [m / 7, None], "narrow"])
        t = rng.choice(TY)
        yield {"x": x, "shape": rng.choice(["flat", "col"]), "f32": rng.random() < .3, "bins": rng.choice([None, None, 1, 2, 10]), "slice": s, "type": t,
               "zp": rng.choice([None, None, 0, 0, "any"]), "s": rng.choice([None, None, None, .25]), "symmetric": rng.random() < .4}


def trivial(c):
    return len(c["x"]) < 2


def run(c):
    x = np.array(c["x"], dtype="float32" if c["f32"] else "float64")
    if c["shape"] == "col":
        x = x.reshape(-1, 1)
    d = Distribution(x, **({} if c["bins"] is None else {"bins": c["bins"]}))
    a, b = None, None
    if c["slice"] == "narrow":
        a = b = float(x.flat[len(c["x"]) // 2])
        d = d[a:b]
    elif c["slice"]:
        a, b = c["slice"]
        d = d[a:b]
    inside = [Fr(float(v)) for v in x.flat if (a is None or v >= a) and (b is None or v <= b)]
    return judge(c, d, inside)


def judge(c, d, inside):
    lo, hi = limits(c["type"])
    gmin, gmax = float(d.get_min()), float(d.get_max())
    eps = Fr(1, 10 ** (5 if c["f32"] else 12))
    for v in inside:
        if not (Fr(gmin) - abs(v) * eps <= v <= Fr(gmax) + abs(v) * eps):
            return f"datum {float(v)} outside the range {gmin}, {gmax}"
    if c["symmetric"] and c["type"] == "int1":
        return
    zp = c["zp"]
    if zp == "any":
        zp = (lo + hi) // 2 + (1 if hi > 1 else 0)
    if zp is not None and lo == 0 and gmin < 0:
        return
    kw = {k: v for k, v in (("force_zp", zp), ("force_s", c["s"])) if v is not None}
    if c["symmetric"]:
        kw["symmetric"] = True
    s, z = d.quantize(Quantization(c["type"]), **kw)
    if not s > 0 or not np.isfinite(s):
        return f"scale {s}"
    if int(z) != z or not lo <= z <= hi:
        return f"zero point {z} is not a code of {c['type']}"
    if zp is not None and z != zp:
        return f"zero point {z} instead of the forced {zp}"
    if c["s"] is not None:
        return None if s == c["s"] else f"scale {s} instead of the forced one"
    if zp not in (None, 0):
        return
    S = Fr(float(s))
    for v in inside + [Fr(0)]:
        q = min(max(floor(v / S + int(z) + Fr(1, 2)), lo), hi)
        e = abs((q - int(z)) * S - v)
        if e > S * (1 + Fr(1, 10 ** 5)) + abs(v) * eps:
            return f"{float(v)} is represented by code {q}, {float(e / S)} steps away (scale {float(s)}, zero point {z})"
    q0 = Quantization(c["type"]).quantize(np.array([0.0]), int(z), float(s))
    if float(Quantization(c["type"]).dequantize(q0, int(z), float(s))[0]) != 0:
        return "zero is not represented exactly"


def from_hint(h):
    return []
