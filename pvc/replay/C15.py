from rc import *
from itcl_inference_engine.layers.common.relu import RELU
RULE = "every int8 code (both limits included) under random scales and zero points, several shapes; non-trivial: a code above the input zero point"


def cases(rng, tier):
    n = 4000 if tier == "quick" else 40000
    for _ in range(n):
        so = rscale(rng)
        k = rng.choice([1, .5, 2, .25, 2.0 ** rng.randint(-8, 4), math.exp(rng.uniform(-5, 4)), math.exp(rng.uniform(-5, 20))])
        sh = rng.choice([[3], [1], [2, 3], [2, 1, 3], [7], [], [16]])
        z = rzp(rng, -128, 127)
        yield {"s": so * k, "so": so, "z": z, "zo": rzp(rng, -128, 127), "shape": sh, "how": rng.choice(["ctor", "model"]), "dt": rng.choice(["int8", "int64"]),
               "x": [rng.choice([-128, 127, z, max(-128, z - 1), min(127, z + 1), rng.randint(-128, 127)]) for _ in range(size(sh))]}


def trivial(c):
    return all(x <= c["z"] for x in c["x"])


def run(c):
    s, so, z, zo = c["s"], c["so"], c["z"], c["zo"]
    nd = lambda s, z: {"scale": s, "zero_point": z, "tensor": None, "LUT": None}
    L = RELU(s, z, so, zo) if c["how"] == "ctor" else RELU.from_model({"op_type": "RELU", "inputs": [nd(s, z)], "outputs": [nd(so, zo)]})
    X = np.array(c["x"], dtype=c["dt"]).reshape(c["shape"])
    keep = X.copy()
    Y = np.asarray(L.infer(X))
    if not np.array_equal(X, keep):
        return "input modified"
    if Y.shape != X.shape:
        return f"shape {Y.shape} instead of {X.shape}"
    for x, y in zip(X.ravel(), Y.ravel()):
        t = max(Fr(0), (int(x) - z) * Fr(s)) / Fr(so) + zo
        want = min(max(floor(t + Fr(1, 2)), -128), 127)
        y = int(y)
        if abs(y - want) > 1 or not -128 <= y <= 127 or (x <= z and y != zo):
            return f"relu of code {int(x)} (scale {s!r}, zp {z}) -> {y}, expected {want} (out scale {so!r}, zp {zo})"
