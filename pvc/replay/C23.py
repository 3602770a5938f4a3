import stubs
from rc import *
from itcl_quantization import Quantization
import itcl_quantizer.tensor_extractor.tensor as tm
import itcl_quantizer.tensor_extractor.keras.layers.keras_dense as km
from itcl_quantizer.tensor_extractor.abstract_layer import QuantizationResult
import json as js
RULE = "stacks of 1 to 3 dense layers (random weights, with and without bias, trimmed and whole kernels, several types and activations) quantised by the real KerasDense over a numpy stand-in of the Keras layer; after every change of a random history of parameter changes every bias must have zero point 0 and the product of the current scales, codes and exports of the trained weights; non-trivial: at least one change"
ACT = {"linear": lambda x: x, "tanh": lambda x: np.tanh(x), "sigmoid": lambda x: 1 / (1 + np.exp(-x)), "relu": lambda x: np.maximum(x, 0), "relu6": lambda x: np.clip(x, 0, 6)}


class Layer(km.keras.layers.Dense):
    def __init__(self, name, W, B, act):
        self.name, self.W, self.B = name, W, B
        self.activation = ACT[act]
        self.activation.__name__ = act

    def get_weights(self):
        return [self.W] if self.B is None else [self.W, self.B]

    def __call__(self, x):
        y = np.asarray(x) @ self.W + (0 if self.B is None else self.B)
        return y if self.activation is None else self.activation(y)


class Trim:
    def __init__(self, w):
        self.w = w

    def trim(self, d):
        return d[-self.w:self.w]


OPS = ["in", "kernel", "in_zp", "kernel_zp", "in_def", "kernel_def", "reset", "out", "policy", "both", "reset_rounding"]


def cases(rng, tier):
    for _ in range(400 if tier == "quick" else 6000):
        dims = [rng.randint(1, 5) for _ in range(rng.randint(2, 4))]
        share = rng.random() < .3
        if share:
            dims = [dims[0]] * len(dims)
        ls = []
        for a, b in zip(dims, dims[1:]):
            m = rng.choice([.05, 1, 7])
            ls.append({"W": [[round(rng.uniform(-m, m), 4) for _ in range(b)] for _ in range(a)], "B": None if rng.random() < .3 else [round(rng.uniform(-m, m), 4) for _ in range(b)],
                       "act": rng.choice(list(ACT)), "kt": rng.choice(["int8", "int8", "int4", "int16"]), "bt": rng.choice(["int32", "int32", "int16"]), "sym": rng.random() < .7,
                       "trim": rng.random() < .25})
        n = rng.randint(1, 4)
        yield {"layers": ls, "f32": rng.random() < .6, "x": [[round(rng.uniform(-2, 2), 3) for _ in range(dims[0])] for _ in range(n)], "si": rng.choice([.05, .01, .5]), "zi": rng.randint(-20, 20),
               "values": rng.random() < .5, "twice": rng.random() < .2, "share": share,
               "ops": [{"op": rng.choice(OPS), "l": rng.randrange(len(ls)), "s": rng.choice([.5, 2, .93, .125]), "z": rng.randint(-5, 5), "k": rng.randrange(4), "seed": rng.randrange(10 ** 6)} for _ in range(rng.randint(0, 7))]}


def trivial(c):
    return not c["ops"]


def run(c):
    ft = "float32" if c["f32"] else "float64"
    inn = tm.NodeTensorBase(c["si"], c["zi"], "input", Quantization("int8"))
    X = np.array(c["x"])
    if c["values"]:
        inn = inn.with_tensor(X)
    res = QuantizationResult(X, None, inn, None)
    L = []
    for k, l in enumerate(c["layers"]):
        W = np.array(l["W"], dtype=ft)
        B = None if l["B"] is None else np.array(l["B"], dtype=ft)
        lay = Layer(f"dense{k}", W, B, l["act"])
        kd = km.KerasDense(lay, kernel_dtype=l["kt"], bias_dtype=l["bt"], kernel_symmetric=l["sym"], **({"kernel_optimizer": Trim(.02)} if l["trim"] else {}))
        if c["share"] and k and len(c["layers"][0]["W"]) == len(l["W"]):
            res = QuantizationResult(X, None, inn, None)        # this layer reads the input as well
        src = res.out_node
        if c["twice"]:
            kd.quantize(QuantizationResult(res.input_data, None, tm.NodeTensorBase(.3, 1, "other", Quantization("int8")), None))
        res = kd.quantize(res)
        fc = res.operators[0]
        if fc.inputs[0] is not src or len(fc.inputs) != 3:
            return "inputs of the operator"
        if fc.inputs[1].zero_point != 0:
            return f"zero point {fc.inputs[1].zero_point} of the weights"
        w0 = W.copy() if c["f32"] else W.copy()
        L.append({"src": src, "k": fc.inputs[1], "b": fc.inputs[2], "out": fc.outputs[0], "act": res.out_node, "W": w0, "B": np.zeros(W.shape[1]) if B is None else B.copy(),
                  "c": l, "kd": kd, "lay": lay, "fc": fc, "og": [src.scale, src.zero_point, fc.inputs[1].scale, 0]})

    def codes(node, x, t):
        lo, hi = limits(t)
        s, z, P = Fr(float(node.scale)), int(node.zero_point), np.asarray(node.rounding_policy)
        for at in np.ndindex(x.shape):
            v = Fr(float(x[at])) / s + z
            tol = Fr(1, 10 ** (5 if c["f32"] else 9)) * max(1, abs(v))
            g, p = int(node.quantized[at]), int(P[at])
            if abs(v - floor(v) - Fr(1, 2)) <= tol and min(max(floor(v), lo), hi) <= g <= min(max(floor(v) + 1, lo), hi):
                continue            # a tie in single precision
            if not min(max(floor(v + p - tol), lo), hi) <= g <= min(max(floor(v + p + tol), lo), hi):
                return f"code {g} of {x[at]} under scale {float(s)}, zero point {z}, policy {p}"

    def look(where):
        for n, l in enumerate(L):
            k, b = l["k"], l["b"]
            w = f"{where}, layer {n}: "
            if b.zero_point != 0:
                return w + f"bias zero point {b.zero_point}"
            p = float(k.scale) * float(l["src"].scale)
            if abs(b.scale - p) > 1e-12 * p:
                return w + f"bias scale {b.scale}, input scale {l['src'].scale} times weight scale {k.scale} is {p}"
            if not np.array_equal(b.fp_tensor, l["B"]):
                return w + "bias values"
            if not l["c"]["trim"]:
                if not np.array_equal(k.fp_tensor, l["W"].T):
                    return w + "weight values are not the trained ones"
                kw, kb = l["kd"].get_weights()
                if not np.array_equal(kw, l["W"].T) or not np.array_equal(kb, l["B"]):
                    return w + "get_weights"
                r = codes(k, l["W"].T, l["c"]["kt"])
                if r:
                    return w + "weights: " + r
            if not np.array_equal(l["lay"].W, l["W"]) or l["lay"].activation is None:
                return w + "the float layer was changed"
            r = codes(b, l["B"], l["c"]["bt"])
            if r:
                return w + "bias: " + r
            j = js.loads(js.dumps(l["fc"].as_json(), default=float))["inputs"]
            if j[2]["tensor"]["tensor"] != b.quantized.tolist() or j[1]["tensor"]["tensor"] != k.quantized.tolist() or abs(j[2]["scale"] - p) > 1e-12 * p or j[2]["zero_point"] != 0:
                return w + "exported bias or weights"
    r = look("built")
    if r:
        return r
    for n, o in enumerate(c["ops"]):
        l = L[o["l"]]
        src, k, op = l["src"], l["k"], o["op"]
        if op in ("in", "both"):
            src.update_quant_parameters(src.scale * o["s"], o["z"])
        if op in ("kernel", "both"):
            k.update_quant_parameters(k.scale * o["s"], k.zero_point)
        if op == "in_zp":
            src.update_quant_parameters(src.scale, o["z"])
        elif op == "kernel_zp":
            k.update_quant_parameters(k.scale * o["s"], o["z"])
        elif op == "in_def":
            src.update_quant_parameters(src.scale * o["s"], src.zero_point, requantize=False)
        elif op == "kernel_def":
            k.update_quant_parameters(k.scale * o["s"], k.zero_point, requantize=False)
            p = float(k.scale) * float(src.scale)
            if abs(l["b"].scale - p) > 1e-12 * p:
                return f"deferred change {n} of the weights: bias scale {l['b'].scale} instead of {p}"
            k.update_quant_parameters(k.scale, k.zero_point)
        elif op == "reset":
            [src.reset_scale, src.reset_zp, k.reset_scale, k.reset_zp][o["k"]]()
        elif op == "out":
            l["out"].update_quant_parameters(l["out"].scale * o["s"], o["z"])
        elif op == "policy":
            l["b"].rounding_policy = np.random.RandomState(o["seed"]).randint(0, 2, l["b"].fp_tensor.shape)
        elif op == "reset_rounding":
            k.reset_rounding()
        r = look(f"after change {n} ({op})")
        if r:
            return r


def from_hint(h):
    return []
