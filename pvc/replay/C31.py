import stubs
from rc import *
from itcl_quantization import Quantization
import itcl_quantizer.tensor_extractor.tensor as tm
import itcl_quantizer.tensor_extractor.keras.layers.keras_lstm as lm
import itcl_quantizer.tensor_extractor.keras.layers.keras_dense as km
from itcl_quantizer.quantizer import Distribution
from itcl_quantizer.tensor_extractor.abstract_layer import QuantizationResult
from itcl_inference_engine.layers.itclq.lstm import LSTM as EngineLSTM
import json as js
RULE = "random LSTM layers (1 to 4 units, 1 to 5 features, 1 to 6 steps, 1 to 4 samples, sequences returned or not, default and other types, sometimes behind a dense layer) quantised by the real KerasLSTM over a numpy stand-in of the Keras layer; against an independent evaluation of the recurrence in Python floats: recorded states, every node's parameters, values, codes, tables and export, then the derived scales after every change of a random history; non-trivial: more than one step or a change"
GATES = ("input", "forget", "cell", "output")
DEF = {"kernel": "int8", "recurrent_kernel": "int8", "bias": "int32", "bias_add": "int32", "recurrent_add": "int8", "activation": "int8", "cell_state": "int8", "hidden_state": "int8"}


class Layer:
    def __init__(self, K, U, B, n, ret):
        self.name, self.K, self.U, self.B, self.units, self.return_sequences = "lstm", K, U, B, n, ret

    def get_weights(self):
        return [self.K, self.U, self.B]


class Dense(km.keras.layers.Dense):
    def __init__(self, W):
        self.name, self.W, self.activation = "dense", W, lambda x: x
        self.activation.__name__ = "linear"

    def get_weights(self):
        return [self.W]

    def __call__(self, x):
        return np.asarray(x) @ self.W


def cases(rng, tier):
    for _ in range(150 if tier == "quick" else 2500):
        n, F, T, b = rng.randint(1, 4), rng.randint(1, 5), rng.randint(1, 6), rng.randint(1, 4)
        m = rng.choice([.2, 1, 3])
        r = lambda *d: [round(rng.uniform(-m, m), 4) for _ in range(d[0])] if len(d) == 1 else [r(*d[1:]) for _ in range(d[0])]
        yield {"n": n, "K": r(F, 4 * n), "U": r(n, 4 * n), "B": r(4 * n), "x": r(b, T, F), "ret": rng.random() < .5, "f32": rng.random() < .5, "dense": rng.random() < .3, "W": r(F, F),
               "si": rng.choice([.05, .01, .5]), "zi": rng.randint(-20, 20),
               "types": rng.choice([None, None, {"kernel": "int4", "recurrent_kernel": "int16", "bias": "int16", "bias_add": "int16", "recurrent_add": "int6", "activation": "uint8", "cell_state": "int12", "hidden_state": "uint6"}]),
               "ops": [{"op": rng.choice(["in", "kernel", "recurrent", "hidden", "reset", "zp", "policy"]), "g": rng.randrange(4), "s": rng.choice([.5, 2, .93, .125]), "seed": rng.randrange(10 ** 6)} for _ in range(rng.randint(0, 5))]}


def trivial(c):
    return not c["ops"] and len(c["x"][0]) == 1


def sg(x):
    return 1 / (1 + np.exp(-x))


def floats(K, U, B, X, n):
    """the recurrence, one number at a time"""
    b, T, F = X.shape
    out = {k: np.zeros((T, b, 4 * n if k.endswith("_add") else n)) for k in ("bias_add", "recurrent_add", "input_gate", "forget_gate", "cell_gate", "output_gate", "cell_state", "cell_state_activation", "hidden_state")}
    for s in range(b):
        h, c = [0.] * n, [0.] * n
        for t in range(T):
            z = []
            for k in range(4 * n):
                y = float(B[k]) + sum(float(X[s, t, f]) * float(K[f, k]) for f in range(F))
                out["bias_add"][t, s, k] = y
                y += sum(h[u] * float(U[u, k]) for u in range(n))
                out["recurrent_add"][t, s, k] = y
                z.append(y)
            for u in range(n):
                i, f, g, o = sg(z[u]), sg(z[n + u]), np.tanh(z[2 * n + u]), sg(z[3 * n + u])
                c[u] = f * c[u] + i * g
                a = np.tanh(c[u])
                for k, v in (("input_gate", i), ("forget_gate", f), ("cell_gate", g), ("output_gate", o), ("cell_state", c[u]), ("cell_state_activation", a), ("hidden_state", o * a)):
                    out[k][t, s, u] = v
            h = [out["hidden_state"][t, s, u] for u in range(n)]
    return out


def run(c):
    ft = "float32" if c["f32"] else "float64"
    tol = 2e-4 if c["f32"] else 1e-9
    n, X = c["n"], np.array(c["x"])
    K, U, B = (np.array(c[k], dtype=ft) for k in "KUB")
    w0 = [a.copy() for a in (K, U, B)]
    ty = {**DEF, **(c["types"] or {})}
    inn = tm.NodeTensorBase(c["si"], c["zi"], "input", Quantization("int8")).with_tensor(X)
    res = QuantizationResult(X, None, inn, None)
    if c["dense"]:
        res = km.KerasDense(Dense(np.array(c["W"]))).quantize(res)
        inn, X = res.out_node, np.asarray(res.input_data)
    lay = Layer(K, U, B, n, c["ret"])
    F = floats(*w0, X, n)
    got = lm.LSTM(lay).call(X)
    for k, v in F.items():
        g = np.asarray(getattr(got, k))
        if g.shape != v.shape or not np.allclose(g, v, rtol=tol, atol=tol):
            return f"recorded {k}: shape {g.shape}, expected {v.shape}" if g.shape != v.shape else f"recorded {k} differs from the recurrence by {abs(g - v).max()}"
    want = np.swapaxes(F["hidden_state"], 0, 1) if c["ret"] else F["hidden_state"][-1]
    if np.asarray(got.result).shape != want.shape or not np.allclose(got.result, want, rtol=tol, atol=tol):
        return "result of the recurrence"
    q = lm.KerasLSTM(lay, **({} if c["types"] is None else {k + "_dtype": v for k, v in ty.items()}))
    r = q.quantize(res)
    if r.layer is not q:
        return f"the result names {type(r.layer).__name__} as its layer, not the quantised layer: adaround and equalisation cannot be applied"
    if len(r.operators) != 1 or len(r.operators[0].inputs) != 32 or r.operators[0].outputs != [r.out_node]:
        return "form of the operator"
    if np.asarray(r.input_data).shape != want.shape or not np.allclose(r.input_data, want, rtol=tol, atol=tol):
        return "data for the next layer"
    op = r.operators[0]
    N, hid = op.inputs, r.out_node
    if N[0] is not inn:
        return "first input"
    part = lambda a, g: a[..., g * n:(g + 1) * n]
    close = lambda a, b: abs(float(a) - float(b)) <= tol * max(abs(float(a)), abs(float(b))) + 1e-12

    def covers(node, data, what, **kw):
        s, z = Distribution(np.asarray(data)).quantize(node.quant, **kw)
        if not close(node.scale, s) or abs(int(node.zero_point) - int(z)) > (1 if c["f32"] else 0) and not close(float(s) * 10 ** 6, 0):
            return f"{what}: scale {node.scale}, zero point {node.zero_point}; its data give {s}, {z}"
        lo, hi = limits(str(node.quant.dtype_str()))
        for v in (float(np.min(data)), float(np.max(data))):
            k = min(max(floor(Fr(v) / Fr(float(node.scale)) + int(node.zero_point) + Fr(1, 2)), lo), hi)
            if abs((k - int(node.zero_point)) * float(node.scale) - v) > 1.01 * float(node.scale):
                return f"{what}: {v} is not covered by scale {node.scale}, zero point {node.zero_point}"

    def table(node, out, fn, what):
        lo, hi = limits(str(node.quant.dtype_str()))
        ol, oh = limits(str(out.quant.dtype_str()))
        L = node.LUT
        if L is None or len(L) != hi - lo + 1 or L.offset != -lo:
            return f"{what}: no table of the input type"
        for k in range(lo, hi + 1):
            v = float(fn((k - int(node.zero_point)) * float(node.scale))) / float(out.scale) + int(out.zero_point)
            if abs(L[k - lo] - min(max(v, ol), oh)) > .5 + 1e-6:
                return f"{what}: entry {L[k - lo]} for code {k}, expected about {v}"

    for g, name in enumerate(GATES):
        for base, arr, kind in ((1, w0[0], "kernel"), (5, w0[1], "recurrent_kernel"), (9, w0[2], "bias"), (13, F["bias_add"], "bias_add"), (17, F["recurrent_add"], "recurrent_add")):
            node, v = N[base + g], part(arr, g)
            w = f"{kind} of the {name} gate"
            f = np.asarray(node.fp_tensor)
            if f.shape != v.shape or not (np.array_equal(f, v) if base < 13 else np.allclose(f, v, rtol=tol, atol=tol)):
                return f"{w}: its values"
            if str(node.quant.dtype_str()) != ty[kind]:
                return f"{w}: type {node.quant.dtype_str()}"
            if kind not in ("bias", "bias_add"):
                e = covers(node, v, w)
                if e:
                    return e
        rec = part(F["recurrent_add"], g)
        fn = np.tanh if g == 2 else sg
        lut, out = N[22 + 2 * g], N[23 + 2 * g]
        if lut.scale != N[17 + g].scale or lut.zero_point != N[17 + g].zero_point:
            return f"{name} gate: table of other codes"
        e = covers(out, fn(rec), f"activation of the {name} gate") or table(lut, out, fn, f"activation of the {name} gate")
        if e:
            return e
        if str(out.quant.dtype_str()) != ty["activation"]:
            return f"{name} gate: type of the activation"
    e = covers(N[21], F["cell_state"], "cell state", force_zp=0, symmetric=True) or covers(hid, F["hidden_state"], "hidden state")
    e = e or covers(N[31], np.tanh(F["cell_state"]), "activated cell state") or table(N[30], N[31], np.tanh, "activated cell state")
    if e:
        return e
    if N[21].zero_point != 0 or N[30].scale != N[21].scale or N[30].zero_point != 0:
        return "cell state parameters"
    if str(N[21].quant.dtype_str()) != ty["cell_state"] or str(hid.quant.dtype_str()) != ty["hidden_state"]:
        return "type of a state"

    def look(where):
        for g, name in enumerate(GATES):
            k, u, b, a = (N[x + g] for x in (1, 5, 9, 13))
            w = f"{where}, {name} gate: "
            if b.zero_point != 0 or a.zero_point != 0:
                return w + "zero point of a sum"
            if not close(b.scale, float(inn.scale) * float(k.scale)):
                return w + f"bias scale {b.scale}, input scale times kernel scale is {float(inn.scale) * float(k.scale)}"
            if not close(a.scale, float(hid.scale) * float(u.scale)):
                return w + f"scale {a.scale} of the bias addition, hidden scale times recurrent scale is {float(hid.scale) * float(u.scale)}"
            for node, arr, kind in ((k, w0[0], "kernel"), (u, w0[1], "recurrent_kernel"), (b, w0[2], "bias")):
                v = part(arr, g)
                lo, hi = limits(ty[kind])
                s, z, P = Fr(float(node.scale)), int(node.zero_point), np.asarray(node.rounding_policy)
                for at in np.ndindex(v.shape):
                    y = Fr(float(v[at])) / s + z
                    t = Fr(1, 10 ** (5 if c["f32"] else 9)) * max(1, abs(y))
                    q_ = int(node.quantized[at])
                    if abs(y - floor(y) - Fr(1, 2)) <= t and min(max(floor(y), lo), hi) <= q_ <= min(max(floor(y) + 1, lo), hi):
                        continue
                    if not min(max(floor(y + int(P[at]) - t), lo), hi) <= q_ <= min(max(floor(y + int(P[at]) + t), lo), hi):
                        return w + f"code {q_} of {v[at]} in the {kind}"
    e = look("built")
    if e:
        return e
    j = js.loads(js.dumps(op.as_json(), default=float))
    if j["op_type"] != "LSTM" or len(j["inputs"]) != 32 or len(j["outputs"]) != 1:
        return "exported operator"
    for k, (a, b) in enumerate(zip(j["inputs"] + j["outputs"], N + [hid])):
        if not close(a["scale"], b.scale) or a["zero_point"] != b.zero_point:
            return f"exported parameters of input {k}"
        if 1 <= k <= 12 and a["tensor"]["tensor"] != b.quantized.tolist():
            return f"exported tensor {k}"
        if k > 12 and a["tensor"] is not None and a["tensor"]["tensor"] is not None:
            return f"exported data of tensor {k}"
        if k in (22, 24, 26, 28, 30) and (a["LUT"] is None or a["LUT"]["LUT"] != [b.LUT[x] for x in range(len(b.LUT))] or a["LUT"]["offset"] != b.LUT.offset):
            return f"exported table {k}"
    if j["attributes"]["n_cells"]["value"] != [n] or j["attributes"]["return_sequences"]["value"] != [c["ret"]]:
        return "exported attributes"
    if c["types"] is None:
        e = EngineLSTM.from_model(op.as_json())
        y = np.asarray(e.infer(inn.quant.quantize(X, inn.zero_point, inn.scale)))
        if y.shape != want.shape:
            return f"the engine answers shape {y.shape} instead of {want.shape}"
    for k, o in enumerate(c["ops"]):
        kn, un = N[1 + o["g"]], N[5 + o["g"]]
        if o["op"] == "in":
            inn.update_quant_parameters(inn.scale * o["s"], inn.zero_point)
        elif o["op"] == "kernel":
            kn.update_quant_parameters(kn.scale * o["s"], kn.zero_point)
        elif o["op"] == "recurrent":
            un.update_quant_parameters(un.scale * o["s"], un.zero_point)
        elif o["op"] == "hidden":
            hid.update_quant_parameters(hid.scale * o["s"], 3)
        elif o["op"] == "reset":
            [inn, kn, un, hid][o["g"]].reset_scale()
        elif o["op"] == "zp":
            inn.update_quant_parameters(inn.scale, 5)
        else:
            b = N[9 + o["g"]]
            b.rounding_policy = np.random.RandomState(o["seed"]).randint(0, 2, b.fp_tensor.shape)
        e = look(f"after change {k} ({o['op']})")
        if e:
            return e
    for a, b, w in zip(w0, (lay.K, lay.U, lay.B), ("kernel", "recurrent kernel", "bias")):
        if not np.array_equal(a, b):
            return f"the trained {w} was changed"


def from_hint(h):
    return []
