from rc import *
import stubs
from itcl_quantization import Quantization
from itcl_quantizer.equalizers.adaround.irounding_policy import get_base_rounding
RULE = "random tensors, 0/1 policies of the same shape, base policies (scalar scale) and policies of incompatible shape; non-trivial: at least one element"


def cases(rng, tier):
    n = 3000 if tier == "quick" else 30000
    for _ in range(n):
        t = rtype(rng)
        lo, hi = limits(t)
        s, zp = rscale(rng), rzp(rng, lo, hi)
        sh = rshape(rng)
        k = size(sh)
        kind = rng.choice(["policy", "policy", "base", "incompatible"])
        c = {"t": t, "s": s, "zp": zp, "x": mk(sh, rvals(rng, k, s, zp, lo, hi)), "kind": kind}
        if kind == "policy":
            c["p"] = [rng.randint(0, 1) for _ in range(k)]
            c["pdt"] = rng.choice(["int64", "float64", "int8"])
        if kind == "incompatible":
            if len(sh) == 0 or sh[-1] < 2:
                c["x"] = mk([2, 3], rvals(rng, 6, s, zp, lo, hi))
            c["pshape"] = [c["x"]["shape"][-1] + rng.choice([1, 2, 5])]
            c["pone"] = rng.randint(0, 1)
        yield c


def trivial(c):
    return not c["x"]["data"]


def run(c):
    lo, hi = limits(c["t"])
    X = arr(c["x"])
    s, zp = c["s"], c["zp"]
    q = Quantization(getattr(np, c["t"]) if c["t"] in COMMON and len(str(c)) % 2 else c["t"])
    if c["kind"] == "base":
        P = get_base_rounding(X, s)
        if np.shape(P) != X.shape:
            return f"base policy of shape {np.shape(P)} for tensor of shape {X.shape}"
        if not set(np.ravel(P).tolist()) <= {0, 1}:
            return f"base policy {np.ravel(P).tolist()[:5]} not 0/1"
    elif c["kind"] == "policy":
        P = np.array(c["p"], dtype=c["pdt"]).reshape(X.shape)
    else:
        P = np.full(c["pshape"], c["pone"])
    P0 = np.array(P).copy()
    X0 = X.copy()
    r = q.quantize(X, zp, s, rounding_policy=P)
    if not (np.array_equal(P, P0) and np.array_equal(X, X0)):
        return "argument modified"
    if not same_shape(r, X):
        return f"shape {np.shape(r)} for {X.shape}"
    for i, x in enumerate(X.ravel()):
        g = int(np.ravel(r)[i])
        t = exact(x, s, zp)
        tol = (abs(t) + abs(lo) + abs(hi) + 1) * Fr(1, 1 << 49)
        if c["kind"] == "policy":
            bias = Fr(int(np.ravel(P)[i]))
        else:
            bias = Fr(1, 2)
        a = min(max(floor(t + bias - tol), lo), hi)
        b = min(max(floor(t + bias + tol), lo), hi)
        if c["kind"] == "base" and (abs(t - floor(t)) < tol or abs(t - floor(t) - 1) < tol):
            # policy from x/s, codes from x/s+zp: either side of a float-rounded grid point
            b = min(b + 1, hi); a = max(a - 1, lo)
        if not a <= g <= b:
            return f"{c['kind']}: x={float(x)!r} zp={zp} scale={s!r} {c['t']} policy={np.ravel(P)[i] if c['kind'] != 'incompatible' else c['pshape']} gives {g}, expected {a}"
