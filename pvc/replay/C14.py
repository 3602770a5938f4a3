from rc import *
from itcl_inference_engine.layers.onnx.softmax import Softmax
RULE = "random logits (vectors, batches, 3-d batches), small, large (up to 1e5) and mixed magnitudes; non-trivial: more than one class"


def cases(rng, tier):
    n = 5000 if tier == "quick" else 50000
    for _ in range(n):
        k = rng.choice([1, 2, 3, 5, 10])
        lead = rng.choice([[], [1], [2], [4], [2, 3]])
        m = rng.choice([1, 5, 5, 50, 800, 1e5])
        yield {"lead": lead, "k": k, "x": [rng.uniform(-m, m) + rng.choice([0, 0, 0, m, 1000]) for _ in range(size(lead + [k]))], "how": rng.choice(["ctor", "model"])}


def trivial(c):
    return c["k"] < 2


def run(c):
    L = Softmax() if c["how"] == "ctor" else Softmax.from_model({"op_type": "Softmax"})
    X = np.array(c["x"]).reshape(c["lead"] + [c["k"]])
    keep = X.copy()
    Y = np.asarray(L.infer(X))
    if not np.array_equal(X, keep):
        return "logits modified"
    if Y.shape != X.shape:
        return f"shape {Y.shape} instead of {X.shape}"
    for x, y in zip(X.reshape(-1, c["k"]), Y.reshape(-1, c["k"])):
        if not np.all(np.isfinite(y)) or np.any(y < 0):
            return f"softmax({x.tolist()}) = {y.tolist()}"
        if abs(float(np.sum(y)) - 1) > 1e-9:
            return f"softmax({x.tolist()}) sums to {float(np.sum(y))!r}"
        e = [math.exp(v - max(x)) for v in x]
        for a, b in zip(e, y):
            if abs(a / sum(e) - b) > 1e-9 * (1 + abs(b)):
                return f"softmax({x.tolist()}) = {y.tolist()}, expected {[v / sum(e) for v in e]}"
        if not np.allclose(L.infer(x), y, rtol=1e-12, atol=1e-300):
            return f"row {x.tolist()} of a batch gives {y.tolist()}, alone {np.asarray(L.infer(x)).tolist()}"
