from rc import *
import stubs
from itcl_inference_engine.layers.tflite import tanh as TT, logistic as TL, quantize as TQ, dequantize as TD
from itcl_inference_engine.layers.onnx import q_linear_sigmoid as OS, quantize_linear as OQ, dequantize_linear as OD, tanh as OT

RULE = "every layer, built directly and from a description, random scales, zero points and shapes, codes including both limits; non-trivial: at least one element"


def cases(rng, tier):
    n = 5000 if tier == "quick" else 50000
    for _ in range(n):
        w = rng.choice(["Tanh", "Sigmoid", "QLinearSigmoid", "Quantize", "Dequantize", "QuantizeLinear", "DequantizeLinear", "OTanh"])
        ty = {"QLinearSigmoid": "uint8", "QuantizeLinear": "uint8", "DequantizeLinear": "uint8"}.get(w) or \
            (rng.choice(["int8", "uint8", "int16", "int32"]) if "uantize" in w else "int8")
        lo, hi = limits(ty)
        sh = rng.choice([[3], [1], [2, 3], [2, 1, 3], [7], [], [1, 4]])
        s, z = rscale(rng) if "uantize" in w else rng.choice([2.0 ** rng.randint(-8, 0), math.exp(rng.uniform(-7, 0)), math.exp(rng.uniform(-7, 3))]), rzp(rng, lo, hi)
        k = size(sh)
        x = rvals(rng, k, s, z, lo, hi) if w in ("Quantize", "QuantizeLinear") else \
            [rng.uniform(-4, 4) for _ in range(k)] if w == "OTanh" else [rng.choice([lo, hi, rng.randint(lo, hi)]) for _ in range(k)]
        yield {"w": w, "ty": ty, "s": s, "z": z, "so": rng.choice([1 / 256, 1 / 128, 2.0 ** rng.randint(-9, -4), rng.uniform(.002, .02)]), "zo": rzp(rng, lo, hi),
               "shape": sh, "x": x, "how": rng.choice(["ctor", "model"]), "dt": rng.choice([ty, "int64"])}


def node(s, z, dt=None):
    return {"scale": s, "zero_point": z, "tensor": {"tensor": None, "dtype": dt, "shape": None} if dt else None, "LUT": None, "idx": 0}


def run(c):
    w, s, z, so, zo, ty = c["w"], c["s"], c["z"], c["so"], c["zo"], c["ty"]
    lo, hi = limits(ty)
    real = w in ("Quantize", "QuantizeLinear", "OTanh")
    X = np.array(c["x"], dtype="float64" if real else c["dt"]).reshape(c["shape"])
    op = lambda i, o: {"op_type": w, "name": "n", "attributes": None, "inputs": i, "outputs": o}
    model = c["how"] == "model"
    N = node(s, z, ty)
    O = node(so, zo, ty)
    if w == "Tanh":
        L = TT.Tanh.from_model(op([N], [O])) if model else TT.Tanh(s, z)
    elif w == "Sigmoid":
        L = TL.Sigmoid.from_model(op([N], [O])) if model else TL.Sigmoid(s, z)
    elif w == "QLinearSigmoid":
        L = OS.QLinearSigmoid.from_model(op([N, O], [])) if model else OS.QLinearSigmoid(s, z, so, zo)
    elif w == "Quantize":
        L = TQ.Quantize.from_model(op([O], [N])) if model else TQ.Quantize(s, z, ty)
    elif w == "Dequantize":
        L = TD.Dequantize.from_model(op([N], [O])) if model else TD.Dequantize(s, z, ty)
    elif w == "QuantizeLinear":
        L = OQ.QuantizeLinear.from_model(op([N, O], [O])) if model else OQ.QuantizeLinear(s, z)
    elif w == "DequantizeLinear":
        L = OD.DequantizeLinear.from_model(op([N, O], [O])) if model else OD.DequantizeLinear(s, z)
    else:
        L = OT.Tanh()
    keep = X.copy()
    Y = L.infer(X)
    if not np.array_equal(X, keep):
        return "input modified"
    if np.shape(Y) != X.shape:
        return f"shape {np.shape(Y)} instead of {X.shape}"
    for x, y in zip(X.ravel(), np.ravel(Y)):
        if w == "OTanh":
            if abs(float(y) - math.tanh(x)) > 1e-12:
                return f"tanh({x!r}) = {y!r}"
        elif w in ("Dequantize", "DequantizeLinear"):
            want = Fr(int(x) - z) * Fr(s)
            if abs(Fr(float(y)) - want) > abs(want) * Fr(1, 1 << 40):
                return f"{w}: code {int(x)} -> {y!r}, expected {float(want)!r} (scale {s!r}, zp {z})"
        elif w in ("Quantize", "QuantizeLinear"):
            if not near_ok(int(y), exact(x, s, z), lo, hi):
                return f"{w} to {ty}: {x!r} -> {int(y)} (scale {s!r}, zp {z})"
        else:
            r = (int(x) - z) * s
            t = math.tanh(r) * 128 if w == "Tanh" else 1 / (1 + math.exp(min(-r, 700.0))) * 256 - 128 if w == "Sigmoid" else 1 / (1 + math.exp(min(-r, 700.0))) / so + zo
            want = min(max(math.floor(t + .5), lo), hi)
            if abs(int(y) - want) > 1 or not lo <= int(y) <= hi:
                return f"{w}: code {int(x)} -> {int(y)}, expected {want} (scale {s!r}, zp {z}, out {so!r}, {zo})"
