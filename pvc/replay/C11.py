from rc import *
from itcl_inference_engine.layers.onnx.q_linear_mmul import QLinearMatMul
RULE = "random uint8 operands (1..9 inputs, 1..6 units, and 1000..4000 inputs next to a rounding boundary; vectors, batches, 3-d batches), all zero points, multipliers over 1e-6..6e7; non-trivial: a non-zero weight"


def cases(rng, tier):
    n = 4000 if tier == "quick" else 40000
    v = lambda: rng.choice([0, 255, rng.randint(0, 255), rng.randint(0, 255)])
    for j in range(n // 20):      # wide products: accumulators beyond 2^24, multiplier next to a rounding boundary
        ni, no, k = rng.randint(1000, 4000), 2, rng.randint(1, 250)
        g = np.random.default_rng(rng.randint(0, 1 << 30))
        X, W = g.integers(100, 256, ni), g.integers(100, 256, (no, ni))
        zi, zw = rng.choice([0, 3, 255]), rng.choice([0, 7, 255])
        acc = int((W[0] - zw) @ (X - zi))
        if not acc:
            continue
        M = (k + .5) / (abs(acc) + rng.choice([.5, -.5, 2.5, -2.5]))
        yield {"M": M, "so": 1.0, "sw": 1.0, "zi": zi, "zw": zw, "zo": 255 if acc < 0 else 0, "lead": rng.choice([[], [1]]), "X": X.tolist(), "W": W.tolist(),
               "how": rng.choice(["ctor", "model"]), "dt": rng.choice(["uint8", "uint8", "int64"])}
    for _ in range(n):
        ni, no = rng.choice([1, 2, 3, 5, 9]), rng.choice([1, 2, 3, 6])
        lead = rng.choice([[], [1], [2], [4], [2, 3]])
        M = rng.choice([2.0 ** rng.randint(-16, 3), math.exp(rng.uniform(-12, 3)), math.exp(rng.uniform(-12, 18))])
        yield {"M": M, "so": 2.0 ** rng.randint(-6, 3), "sw": rscale(rng), "zi": v(), "zw": v(), "zo": v(), "lead": lead,
               "X": [v() for _ in range(size(lead + [ni]))], "W": [[v() for _ in range(ni)] for _ in range(no)], "how": rng.choice(["ctor", "model"]),
               "dt": rng.choice(["uint8", "uint8", "int64"])}


def trivial(c):
    return not any(any(r) for r in c["W"])


def nd(s, z, t=None):
    return {"scale": s, "zero_point": z, "tensor": t, "LUT": None, "idx": 0}


def nearest(t, zo, got):
    """got is t rounded to the nearest integer (either way on ties and float noise), offset and saturated"""
    tol = (abs(t) + 1) * Fr(1, 1 << 45)
    lo = -floor(-(t - Fr(1, 2) - tol))
    hi = floor(t + Fr(1, 2) + tol)
    return min(max(lo + zo, 0), 255) <= got <= min(max(hi + zo, 0), 255)


def run(c):
    W = np.array(c["W"], dtype="uint8")
    si = c["M"] * c["so"] / c["sw"]
    if c["how"] == "ctor":
        L = QLinearMatMul(si, c["zi"], W, c["sw"], c["zw"], c["so"], c["zo"])
    else:
        L = QLinearMatMul.from_model({"op_type": "QLinearMatMul", "name": "n", "outputs": [], "inputs": [
            nd(si, c["zi"]), nd(c["sw"], c["zw"], {"tensor": c["W"], "dtype": "uint8", "shape": list(W.shape)}), nd(c["so"], c["zo"])]})
    no, ni = W.shape
    X = np.array(c["X"], dtype=c["dt"]).reshape(c["lead"] + [ni])
    keep = X.copy()
    Y = L.infer(X)
    if not np.array_equal(X, keep):
        return "operand modified"
    if list(Y.shape) != c["lead"] + [no]:
        return f"result shape {Y.shape}"
    M = Fr(si) * Fr(c["sw"]) / Fr(c["so"])
    rows, out = X.reshape(-1, ni), Y.reshape(-1, no)
    for r in range(len(rows)):
        for o in range(no):
            acc = sum((int(w) - c["zw"]) * (int(x) - c["zi"]) for w, x in zip(c["W"][o], rows[r]))
            if not nearest(acc * M, c["zo"], int(out[r, o])):
                return f"row {r} unit {o}: {int(out[r, o])} for accumulator {acc}, multiplier {float(M)!r}, zero point {c['zo']}"
        if not np.array_equal(L.infer(rows[r]), out[r]):
            return f"row {r} of the batch differs from the sample alone"
