from rc import *
from itcl_quantization import Quantization
RULE = "random types of 1..32 bits, scales, zero points, code arrays including both limits, and reals of the representable range; non-trivial: at least one code"


def cases(rng, tier):
    for t in COMMON + ["int1", "uint1", "int31", "uint31"]:
        lo, hi = limits(t)
        for zp in (lo, hi, max(lo, min(hi, 0))):
            yield {"t": t, "s": 0.5, "zp": zp, "q": [lo, hi, (lo + hi) // 2], "shape": [3], "u": [0.0, .25, 1.0], "dt": "int64"}
    n = 3000 if tier == "quick" else 30000
    for _ in range(n):
        t = rtype(rng)
        lo, hi = limits(t)
        sh = rshape(rng)
        k = size(sh)
        yield {"t": t, "s": rscale(rng), "zp": rzp(rng, lo, hi), "shape": sh,
               "q": [rng.choice([lo, hi, rng.randint(lo, hi)]) for _ in range(k)], "u": [rng.random() for _ in range(k)],
               "dt": rng.choice(["int64", "int64", "list", t if t in COMMON else "int64"])}


def trivial(c):
    return not c["q"]


def run(c):
    lo, hi = limits(c["t"])
    q = Quantization(getattr(np, c["t"]) if c["t"] in COMMON and len(str(c)) % 2 else c["t"])
    s, zp = c["s"], c["zp"]
    base = np.array(c["q"], dtype="int64").reshape(c["shape"])
    Q = base.tolist() if c["dt"] == "list" else base.astype(c["dt"])
    keep = base.copy()
    d = q.dequantize(Q, zp, s)
    if c["dt"] != "list" and not np.array_equal(Q.astype("int64"), keep):
        return "argument modified"
    if np.shape(d) != tuple(c["shape"]):
        return f"dequantize changed the shape {c['shape']} to {np.shape(d)}"
    for code, v in zip(c["q"], np.ravel(d)):
        want = Fr(code - zp) * Fr(s)
        if abs(Fr(float(v)) - want) > abs(want) * Fr(1, 1 << 50):
            return f"dequantize({code}, {zp}, {s!r}) = {v!r} for {c['t']}, expected {float(want)!r}"
    back = q.quantize(d, zp, s)
    if np.ravel(back).tolist() != c["q"]:
        return f"{c['t']} zp={zp} scale={s!r}: codes {c['q']} come back as {np.ravel(back).tolist()}"
    a, b = (lo - zp) * s, (hi - zp) * s
    X = np.array([a + u * (b - a) for u in c["u"]]).reshape(c["shape"])
    R = q.dequantize(q.quantize(X, zp, s), zp, s)
    for x, y in zip(np.ravel(X), np.ravel(R)):
        tol = s / 2 * (1 + 1e-9) + (abs(a) + abs(b)) * 1e-12
        if abs(float(x) - float(y)) > tol:
            return f"{c['t']} zp={zp} scale={s!r}: {x!r} reconstructed as {y!r}, error above half a step"
