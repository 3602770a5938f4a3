from rc import *
import math
from itcl_quantization import Quantization
from itcl_inference_engine.layers.common.lut import LUTActivation
from itcl_quantization.quantization.lut import ReducedLUT
RULE = "tables of random monotone/non-monotone activation functions, types of 2..8 bits (and int10), random parameters, full code coverage; lookups of random code arrays; non-trivial: all"
FNS = {"tanh": math.tanh, "sig": lambda x: 1 / (1 + math.exp(-max(-700, min(700, x)))), "relu": lambda x: max(0.0, x), "sq": lambda x: x * x,
       "abs": abs, "sin": math.sin, "id": lambda x: x, "neg": lambda x: -x, "const": lambda x: 0.25, "step": lambda x: 1.0 if x > 0 else -1.0,
       "cube": lambda x: x * x * x / 100.0}


def cases(rng, tier):
    n = 500 if tier == "quick" else 5000
    for _ in range(n):
        t = rng.choice(["int8", "uint8", "int8", "uint8", "int4", "uint4", "int2", "uint3", "int10"])
        lo, hi = limits(t)
        c = {"t": t, "is": rscale(rng), "izp": rzp(rng, lo, hi), "os": rscale(rng), "ozp": rzp(rng, lo, hi), "f": rng.choice(list(FNS)),
             "qs": [rng.randint(lo, hi) for _ in range(6)] , "shape": rng.choice([[6], [2, 3], [1, 2, 3], [6, 1], [1, 6]]),
             "qdt": rng.choice(["int64", "int32", t if t in ("int8", "uint8") else "int16"]), "red": rng.choice([0, 0, 1, 3]), "pol": rng.random() < .2}
        yield c
    # tables of any entries
    for _ in range(n // 5):
        k = rng.choice([1, 2, 3, 9, 256, 1024, 70000 if rng.random() < .1 else 9])
        yield {"table": [rng.choice([-128, 127, 255, -32768, 32768, 65535, -2 ** 31, 2 ** 32 - 1, rng.randint(-9, 9)]) for _ in range(min(k, 40))], "n": k,
               "off": rng.choice([0, k // 2, k - 1]), "seed": rng.randrange(10 ** 6)}


def lookup(c):
    rng = random.Random(c["seed"])
    T = (c["table"] * (c["n"] // len(c["table"]) + 1))[:c["n"]]
    X = np.array([rng.choice([0, c["n"] - 1, rng.randrange(c["n"])]) - c["off"] for _ in range(6)]).reshape(rng.choice([[6], [2, 3], [1, 6]]))
    Y = np.asarray(LUTActivation(list(T), c["off"]).infer(X))
    want = [T[a + c["off"]] for a in X.ravel().tolist()]
    if Y.shape != X.shape or Y.ravel().tolist() != want:
        return f"lookup of {X.tolist()} with offset {c['off']} gives {Y.tolist()}, the table has {want}"


def run(c):
    if "table" in c:
        return lookup(c)
    lo, hi = limits(c["t"])
    f = FNS[c["f"]]
    q = Quantization(c["t"])
    fs = [f(float((code - c["izp"]) * c["is"])) for code in range(lo, hi + 1)]
    pol = None
    if c["pol"]:
        rr = random.Random(str(c))
        pol = np.array([rr.randint(0, 1) for _ in fs])
        T = q.create_LUT(f, c["is"], c["izp"], c["os"], c["ozp"], rounding_policy=pol)
    else:
        T = q.create_LUT(f, c["is"], c["izp"], c["os"], c["ozp"])
    if len(T) != hi - lo + 1:
        return f"table of {c['t']} has {len(T)} entries"
    if not all(type(v) is int for v in T):
        return "table entries are not integers"
    for k, code in enumerate(range(lo, hi + 1)):
        t = exact(fs[k], c["os"], c["ozp"])
        if pol is not None:
            if not near_ok(T[k], t, lo, hi, bias=Fr(int(pol[k]))):
                return f"{c}: entry of code {code} = {T[k]} under the rounding policy"
        elif not near_ok(T[k], t, lo, hi):
            return f"{c['t']} {c['f']} in ({c['is']!r},{c['izp']}) out ({c['os']!r},{c['ozp']}): entry of code {code} is {T[k]}, exact {float(t)!r}"
    lut = {"LUT": T, "offset": -lo, "reduced_LUT": None}
    if c.get("red"):
        lut["reduced_LUT"] = ReducedLUT(T, c["red"], 0).serialize()
    node = {"tensor": None, "scale": c["is"], "zero_point": c["izp"], "LUT": lut}
    layer = LUTActivation.from_model({"op_type": "TANH", "name": "t", "inputs": [node], "outputs": [node], "attributes": None})
    X = np.array(c["qs"], dtype=c["qdt"]).reshape(c["shape"])
    X0 = X.copy()
    for data in (X, X):
        Y = np.asarray(layer.infer(data))
        if Y.shape != X.shape:
            return f"lookup of shape {X.shape} gives shape {Y.shape}"
        for a, b in zip(X.ravel().tolist(), Y.ravel().tolist()):
            if b != T[a - lo]:
                return f"lookup of code {a} = {b}, table entry is {T[a - lo]} ({c['t']}, offset {-lo})"
    if not np.array_equal(X, X0):
        return "lookup modified its argument"
    # offset 0: codes already count from the first entry, whatever the node's own parameters
    node = {"tensor": None, "scale": c["os"], "zero_point": min(c["ozp"], 0) - 3, "LUT": {**lut, "offset": 0}}
    Y = np.asarray(LUTActivation.from_model({"op_type": "TANH", "name": "t", "inputs": [node], "outputs": [node], "attributes": None}).infer(X.astype("int64") - lo))
    if Y.ravel().tolist() != [T[a - lo] for a in X.ravel().tolist()]:
        return f"lookup of {(X.astype('int64') - lo).tolist()} with offset 0 in a table of {len(T)} entries gives {Y.tolist()}"
