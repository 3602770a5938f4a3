from rc import *
from itcl_inference_engine.util.floating import FloatingIntegerApprox
from itcl_inference_engine.layers.tflite.fullyconnected import FullyConnectedQuantizedMultiplier as FCM
RULE = "multipliers at and around every power of two between 2^-36 and 2^31, random ones, either sign, with random integer operands; non-trivial: non-zero multiplier"


def cases(rng, tier):
    yield {"x": 0.0, "kind": "approx"}
    for e in range(-40, 33):
        for m in (.5, .5 + 2 ** -40, 1 - 2 ** -40, 1 - 2 ** -32, .75, 2 / 3):
            for k in ("approx", "neg", "dense"):
                yield {"x": m * 2.0 ** e, "kind": k}
    n = 8000 if tier == "quick" else 80000
    for _ in range(n):
        x = math.exp(rng.uniform(-24, 21.5)) if rng.random() < .9 else rng.randint(1, 1 << 20) * 2.0 ** rng.randint(-30, 8)
        yield {"x": x, "kind": rng.choice(["approx", "neg", "dense", "dense"]), "sw": rscale(rng), "so": rscale(rng),
               "o": rng.choice([rng.randint(-2 ** 31, 2 ** 31 - 1), rng.randint(-300, 300), 2 ** 31 - 1, -2 ** 31])}


def trivial(c):
    return c["x"] == 0


def from_hint(h):
    for k, v in h.items() if isinstance(h, dict) else []:
        if isinstance(v, (int, float)) and "mult" in k:
            for kind in ("approx", "neg", "dense"):
                yield {"x": abs(float(v)), "kind": kind}


def check(q, s, x, tiny):
    if not 1 <= s <= 62:
        return f"multiplier {x!r}: shift {s} outside 1..62"
    if q != int(q) or not -(1 << 31) <= q <= (1 << 31) - 1:
        return f"multiplier {x!r}: mantissa {q} does not fit a signed 32-bit word"
    v, w = Fr(int(q)) / (1 << int(s)), Fr(x)
    if abs(v - w) > abs(w) / (1 << 30) and not (q == 0 and abs(w) < tiny):
        return f"multiplier {x!r} approximated by {int(q)} / 2^{int(s)} = {float(v)!r}"


def run(c):
    x = c["x"]
    if c["kind"] == "dense":
        sw, so = c.get("sw", 1.0), c.get("so", 1.0)
        si = x * so / sw
        x = si * sw / so                     # the multiplier the layer is asked for
        try:
            m = FCM(si, sw, so)
        except AssertionError:
            return None if x >= (1 << 30) - 1 else f"dense multiplier {x!r} rejected"
        msg = check(float(m.quantized_multiplier), int(m.shift), x, Fr(1, 10 ** 6))
        if not msg and int(m.round) != 1 << (int(m.shift) - 1):
            msg = f"dense multiplier {x!r}: rounding constant {m.round} for shift {m.shift}"
        return msg
    if c["kind"] == "neg":
        x = -x
    try:
        f = FloatingIntegerApprox(x)
    except (AssertionError, ValueError, OverflowError):
        return None if abs(x) >= (1 << 30) - 1 else f"multiplier {x!r} rejected"
    msg = check(f._q, f._shift, x, Fr(1, 1 << 32))
    if msg or x < 0:
        return msg
    o = c.get("o", 1000003)
    r = f * o
    want = Fr(o) * Fr(x)
    tol = Fr(1, 2) + (abs(want) / (1 << 30)) + (abs(o) * Fr(1, 1 << 32) if x < 2 ** -32 else 0)
    if abs(Fr(int(r)) - want) > tol:
        return f"{o} * {x!r} = {r}, expected {float(want)!r} rounded"
    if x < (1 << 30) - 1 and abs(o) < (1 << 31):
        a = f * np.array([o, 7], dtype="int64")
        if int(a[0]) != int(r):
            return f"array product {a[0]} differs from scalar product {r} for {o} * {x!r}"
