from rc import *
from itcl_inference_engine.layers.tflite.fullyconnected import FullyConnected
RULE = "random dense layers (1..9 inputs, 1..6 units, batches 1..4 and single vectors, every output type, effective multipliers over 1e-6..2^20); non-trivial: a non-zero weight"


def cases(rng, tier):
    n = 3500 if tier == "quick" else 40000
    for j in range(n):
        odt = rng.choice(["int8", "int8", "int16", "uint8"])
        lo, hi = limits(odt)
        ni, no, b = rng.choice([1, 2, 3, 5, 9]), rng.choice([1, 2, 3, 6]), rng.choice([0, 1, 2, 4])
        M = math.exp(rng.uniform(-13.8, 2)) if rng.random() < .8 else math.exp(rng.uniform(-13.8, 14))
        so, sw = rscale(rng), rscale(rng)
        v = lambda: rng.choice([-128, 127, 0, rng.randint(-128, 127), rng.randint(-128, 127)])
        big = rng.random() < .3
        yield {"odt": odt, "M": M, "so": so, "sw": sw, "zi": v(), "zw": rng.choice([0, 0, v()]), "zo": rzp(rng, lo, hi),
               "W": [[v() for _ in range(ni)] for _ in range(no)],
               "B": [rng.randint(-2 ** 30, 2 ** 30) if big else rng.randint(-5000, 5000) for _ in range(no)],
               "X": [[v() for _ in range(ni)] for _ in range(b or 1)], "vec": b == 0,
               "dt": rng.choice(["int8", "int64"]), "how": rng.choice(["build", "model", "model"])}


def trivial(c):
    return not any(any(r) for r in c["W"])


def run(c):
    lo, hi = limits(c["odt"])
    si = c["M"] * c["so"] / c["sw"]
    if c["how"] == "build":
        L = FullyConnected.build(si, c["zi"], c["sw"], c["zw"], np.array(c["W"]), si * c["sw"], 0, np.array(c["B"]), c["so"], c["zo"], c["odt"])
    else:
        nd = lambda s, z, t, d: {"scale": s, "zero_point": z, "tensor": {"tensor": t, "dtype": d, "shape": []}, "LUT": None}
        L = FullyConnected.from_model({"op_type": "FULLY_CONNECTED", "inputs": [nd(si, c["zi"], None, "int8"), nd(c["sw"], c["zw"], c["W"], "int8"),
                                       nd(si * c["sw"], 0, c["B"], "int32")], "outputs": [nd(c["so"], c["zo"], None, c["odt"])], "attributes": None})
    X = np.array(c["X"], dtype=c["dt"])
    if c["vec"]:
        X = X[0]
    keep = X.copy()
    Y = L.infer(X)
    if not np.array_equal(X, keep):
        return "input modified"
    W, B, no = c["W"], c["B"], len(c["W"])
    if Y.shape != ((no,) if c["vec"] else (len(c["X"]), no)):
        return f"output shape {Y.shape}"
    Y2 = Y.reshape(-1, no)
    M = Fr(si) * Fr(c["sw"]) / Fr(c["so"])
    for r, x in enumerate(c["X"]):
        for o in range(no):
            acc = sum((w - c["zw"]) * (v - c["zi"]) for w, v in zip(W[o], x)) + B[o]
            if abs(acc) >= 1 << 31:
                continue
            want = min(max(floor(acc * M + c["zo"] + Fr(1, 2)), lo), hi)
            got = int(Y2[r, o])
            if abs(got - want) > 1 or not lo <= got <= hi:
                return f"row {r} unit {o}: {got}, expected {want} (accumulator {acc}, multiplier {float(M)!r}, zp {c['zo']}, {c['odt']})"
        if not c["vec"] and not np.array_equal(L.infer(X[r]), Y[r]):
            return f"row {r} of a batch differs from the sample alone"
