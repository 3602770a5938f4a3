from rc import *
from itcl_quantization import Quantization
RULE = "random types of 1..32 bits, scales, zero points and tensors concentrated on codes, half codes and both limits; non-trivial: at least one element"


def cases(rng, tier):
    for t in COMMON + ["int1", "uint1", "int2", "uint2", "int31", "uint31", "int24"]:
        lo, hi = limits(t)
        for zp in (lo, hi, max(lo, min(hi, 0))):
            yield {"t": t, "s": 1.0, "zp": zp, "x": mk([4], [float(lo - zp), float(hi - zp), float(lo - zp - 7), float(hi - zp + 7)])}
    n = 4000 if tier == "quick" else 40000
    for _ in range(n):
        t = rtype(rng)
        lo, hi = limits(t)
        s, zp = rscale(rng), rzp(rng, lo, hi)
        sh = rshape(rng)
        c = {"t": t, "s": s, "zp": zp, "x": mk(sh, rvals(rng, size(sh), s, zp, lo, hi))}
        r = rng.random()
        if r < .1:
            c["as"] = "list"
        elif r < .2 and sh == []:
            c["as"] = "scalar"
        elif r < .3:
            c["x"]["dtype"] = "float32"
        elif r < .4:
            c["x"]["dtype"] = "int64"
            c["x"]["data"] = [int(max(-2**62, min(2**62, v))) for v in c["x"]["data"]]
        yield c


def trivial(c):
    return not c["x"]["data"]


def run(c):
    lo, hi = limits(c["t"])
    X = arr(c["x"])
    X0 = X.copy()
    arg = X.tolist() if c.get("as") in ("list", "scalar") else X
    r = Quantization(getattr(np, c["t"]) if c["t"] in COMMON and len(str(c)) % 2 else c["t"]).quantize(arg, c["zp"], c["s"])
    if not np.array_equal(X, X0):
        return "argument modified"
    if not same_shape(r, X):
        return f"shape {np.shape(r)} for input shape {X.shape}"
    if not isint(r):
        return f"result dtype {np.asarray(r).dtype}"
    for i, x in enumerate(X.ravel()):
        g = int(np.ravel(r)[i])
        t = exact(x, c["s"], c["zp"])
        if not near_ok(g, t, lo, hi):
            return f"quantize({float(x)!r}, zp={c['zp']}, scale={c['s']!r}, {c['t']}) = {g}, nearest code is {min(max(floor(t + Fr(1, 2)), lo), hi)}"


def from_hint(h):
    return []
