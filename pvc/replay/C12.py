from rc import *
from C11 import nd, nearest
from itcl_inference_engine.layers.onnx.q_linear_add import QLinearAdd
RULE = "random uint8 operands of equal or broadcast shapes, all zero points and random scales; non-trivial: a non-zero operand"


def cases(rng, tier):
    n = 5000 if tier == "quick" else 50000
    v = lambda: rng.choice([0, 255, rng.randint(0, 255), rng.randint(0, 255)])
    for _ in range(n):
        xs, bs = rng.choice([([3], [3]), ([1], [1]), ([2, 3], [3]), ([2, 3], [2, 3]), ([2, 2, 3], [3]), ([4, 1], [1]), ([7], [7]), ([2, 3], [2, 1])])
        k = rng.randint(-3, 3)
        so = 2.0 ** rng.randint(-6, 3) if rng.random() < .5 else rscale(rng)
        yield {"si": so * rng.choice([.5, 1, 2, 2.0 ** k, math.exp(rng.uniform(-6, 3)), math.exp(rng.uniform(-6, 20))]), "sb": so * rng.choice([.5, .25, 1, math.exp(rng.uniform(-6, 3)), math.exp(rng.uniform(-6, 20))]),
               "so": so, "zi": v(), "zb": v(), "zo": v(), "xs": xs, "bs": bs, "X": [v() for _ in range(size(xs))], "B": [v() for _ in range(size(bs))],
               "how": rng.choice(["ctor", "model"]), "dt": rng.choice(["uint8", "uint8", "int64"])}


def trivial(c):
    return not any(c["B"])


def run(c):
    X = np.array(c["X"], dtype=c["dt"]).reshape(c["xs"])
    B = np.array(c["B"], dtype="uint8").reshape(c["bs"])
    if c["how"] == "ctor":
        L = QLinearAdd(c["si"], c["zi"], B, c["sb"], c["zb"], c["so"], c["zo"])
    else:
        L = QLinearAdd.from_model({"op_type": "QLinearAdd", "name": "n", "outputs": [], "inputs": [
            nd(c["si"], c["zi"]), nd(c["sb"], c["zb"], {"tensor": B.tolist(), "dtype": "uint8", "shape": list(B.shape)}), nd(c["so"], c["zo"])]})
    kx, kb = X.copy(), B.copy()
    Y = L.infer(X)
    if not (np.array_equal(X, kx) and np.array_equal(B, kb)):
        return "operand modified"
    if Y.shape != X.shape:
        return f"result shape {Y.shape}"
    BB = np.broadcast_to(B, X.shape)
    for x, b, y in zip(X.ravel(), BB.ravel(), Y.ravel()):
        t = (Fr(c["si"]) * (int(x) - c["zi"]) + Fr(c["sb"]) * (int(b) - c["zb"])) / Fr(c["so"])
        if not nearest(t, c["zo"], int(y)):
            return f"{int(x)} + {int(b)} -> {int(y)}, real sum / output scale = {float(t)!r}, zero points {c['zi']}, {c['zb']}, {c['zo']}"
