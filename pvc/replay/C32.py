import stubs
from rc import *
import copy, os, tempfile, types
import json as js
import tensorflow as tf
from itcl_quantization import Quantization
import itcl_quantizer.tensor_extractor.keras.keras_builder as kb
import itcl_quantizer.tensor_extractor.keras.layers.keras_dense as km
from itcl_quantizer.config.models import keras as cm
from itcl_quantizer.quantizer import Distribution
RULE = "random stacks of 1 to 6 stand-in Keras layers (dense with five activations, recurrent, dropout, input; names with and without settings of their own) quantised and built by the real _quantize and build, the model loader replaced: order and kinds of the operators, nodes handed from layer to layer, settings by name, float data of every layer evaluated independently, node parameters, exported shapes, the written file and exports after later changes; unknown layers; non-trivial: at least two quantised layers"
ACT = {"linear": lambda x: x, "softmax": lambda x: np.exp(x - x.max(-1, keepdims=True)) / np.exp(x - x.max(-1, keepdims=True)).sum(-1, keepdims=True), "tanh": np.tanh, "sigmoid": lambda x: 1 / (1 + np.exp(-x)),
       "relu": lambda x: np.maximum(x, 0), "relu6": lambda x: np.clip(x, 0, 6)}
FIELDS = ("activation_dtype", "bias_add_dtype", "bias_dtype", "kernel_dtype")


class Dense(tf.keras.layers.Dense):
    def __init__(self, name, W, B, act):
        self.name, self.W, self.B, self.act = name, W, B, act
        self.activation = lambda x: ACT[act](np.asarray(x))
        self.activation.__name__ = act

    def get_weights(self):
        return [self.W] if self.B is None else [self.W, self.B]

    def __call__(self, x):
        y = np.asarray(x) @ self.W + (0 if self.B is None else self.B)
        return y if self.activation is None else self.activation(y)


class LSTM(tf.keras.layers.LSTM):
    def __init__(self, name, K, U, B, n, ret):
        self.name, self.K, self.U, self.B, self.units, self.return_sequences = name, K, U, B, n, ret

    def get_weights(self):
        return [self.K, self.U, self.B]

    def floats(self, x):
        x, n, s = np.asarray(x), self.units, lambda v: 1 / (1 + np.exp(-v))
        h, c, out = np.zeros((len(x), n)), np.zeros((len(x), n)), []
        for t in range(x.shape[1]):
            z = x[:, t] @ self.K + h @ self.U + self.B
            i, f, g, o = (z[:, k * n:(k + 1) * n] for k in range(4))
            c = s(f) * c + s(i) * np.tanh(g)
            h = s(o) * np.tanh(c)
            out.append(h)
        return np.swapaxes(np.array(out), 0, 1) if self.return_sequences else h


def plain(kind, name):
    c = type(kind + "_", (getattr(tf.keras.layers, kind),), {})
    x = c.__new__(c)
    x.name = name
    return x


def cases(rng, tier):
    for _ in range(200 if tier == "quick" else 3000):
        d, seq, ls = rng.randint(1, 4), rng.random() < .3, []
        first = d
        names = rng.choice([[f"layer{k}" for k in range(6)], ["dense"] + [f"dense_{k}" for k in range(1, 6)], ["a/dense", "dense", "Dense", "dense_1", "dense_10", "b"]])
        for k in range(rng.randint(1, 6)):
            kind = rng.choice(["dense", "dense", "dense", "lstm" if seq else "dense", "drop", "input"])
            n = rng.randint(1, 4)
            m = rng.choice([.2, 1, 3])
            r = lambda *s: [round(rng.uniform(-m, m), 4) for _ in range(s[0])] if len(s) == 1 else [r(*s[1:]) for _ in range(s[0])]
            l = {"kind": kind, "name": names[k]}
            if kind == "dense":
                l.update(W=r(d, n), B=None if rng.random() < .3 else r(n), act=rng.choice(list(ACT)))
                d = n
            elif kind == "lstm":
                ret = rng.random() < .6
                l.update(K=r(d, 4 * n), U=r(n, 4 * n), B=r(4 * n), n=n, ret=ret)
                d, seq = n, seq and ret
            ls.append(l)
        tseq = any(l["kind"] == "lstm" for l in ls)
        if rng.random() < .06:
            ls.insert(rng.randint(0, len(ls)), {"kind": "unknown", "name": "unknown"})
        conf = lambda: {"activation_dtype": rng.choice(["int8", "uint8", "int10"]), "bias_add_dtype": rng.choice(["int8", "int8", "int10"]), "bias_dtype": rng.choice(["int32", "int16"]), "kernel_dtype": rng.choice(["int8", "int4", "int16"]), "kernel_symmetric": rng.random() < .5}
        b, T = rng.randint(1, 4), rng.randint(1, 4)
        v = lambda: round(rng.uniform(-2, 2), 3)
        x = [[[v() for _ in range(first)] for _ in range(T)] for _ in range(b)] if tseq else [[v() for _ in range(first)] for _ in range(b)]
        yield {"layers": ls, "x": x, "in": rng.choice(["int8", "int8", "uint8", "int16"]), "base": conf(), "own": {n: conf() for n in names if rng.random() < .3}, "f32": rng.random() < .5,
               "loss": rng.random() < .6, "eq": rng.random() < .6, "round": rng.random() < .6, "scale": rng.choice([.5, 2, .9]),
               "many": rng.choice([0] * 12 + [150, 300, 5000]) if not tseq else 0, "seed": rng.randrange(10 ** 6)}


def trivial(c):
    return sum(l["kind"] in ("dense", "lstm") for l in c["layers"]) < 2


def layer(l, ft):
    a = lambda v: None if v is None else np.array(v, dtype=ft)
    if l["kind"] == "dense":
        return Dense(l["name"], a(l["W"]), a(l["B"]), l["act"])
    if l["kind"] == "lstm":
        return LSTM(l["name"], a(l["K"]), a(l["U"]), a(l["B"]), l["n"], l["ret"])
    return plain({"drop": "Dropout", "input": "InputLayer", "unknown": "Flatten"}[l["kind"]], l["name"])


def clean(g):
    return js.loads(js.dumps(g, default=lambda v: v.item() if hasattr(v, "item") else float(v)))


def run(c):
    ft, tol = ("float32", 1e-4) if c["f32"] else ("float64", 1e-9)
    X = np.array(c["x"])
    if c["many"]:          # many samples, their extremes anywhere
        R = np.random.RandomState(c["seed"])
        X = R.uniform(-1, 1, (c["many"], X.shape[1]))
        for v in (-40, -9, 12, 30):
            X[R.randint(len(X))] = v * R.uniform(.5, 1)
        if c["seed"] % 2:
            X[-3:] *= 10
    layers = [layer(l, ft) for l in c["layers"]]
    cfg = types.SimpleNamespace(dense=cm.KerasDenseCfg(**c["base"], adaround_optimizer=None), quantize=types.SimpleNamespace(dtype=c["in"]),
                                specific_layers={k: cm.KerasDenseCfg(**v, adaround_optimizer=None) for k, v in c["own"].items()}, ada_round_net=None, param_equalizer=None)
    log = []
    cfg.param_equalizer = types.SimpleNamespace(max_retries=7) if c["eq"] else None
    cfg.ada_round_net = types.SimpleNamespace(build=lambda: "rounding") if c["round"] else None
    loss = (lambda n: 0.) if c["loss"] else None
    keep = {k: getattr(kb, k) for k in ("ParamEqualizerFullNet", "AdaroundNet", "keras")}

    def change(net, f):
        for o in net.as_operators():
            for nd in o.outputs:
                nd.update_quant_parameters(nd.scale * f, nd.zero_point)

    class Eq:
        def __init__(self, net, l, o):
            self.net = net
            log.append(("equalise", l is loss))

        def equalize(self):
            change(self.net, c["scale"])

    class Rd(Eq):
        def __init__(self, net, l, o):
            self.net = net
            log.append(("round", l is loss, o()))

        def round(self):
            change(self.net, 1.25)
    kb.ParamEqualizerFullNet, kb.AdaroundNet = Eq, Rd
    kb.keras = types.SimpleNamespace(models=types.SimpleNamespace(load_model=lambda p: types.SimpleNamespace(layers=layers)))
    fd, path = tempfile.mkstemp()
    os.close(fd)
    unknown = any(l["kind"] == "unknown" for l in c["layers"])
    try:
        import io, contextlib
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                res = kb._quantize(layers, X, cfg)
                net = kb.build("m", path, X, loss, cfg)
        except (ValueError, TypeError) as e:
            return None if unknown else f"{type(e).__name__}: {e}"
        if unknown:
            return "an unknown layer is not rejected"
        text = js.load(open(path))
    finally:
        for k, v in keep.items():
            setattr(kb, k, v)
        os.unlink(path)
    want = [("equalise", True)] * (c["loss"] and c["eq"]) + [("round", True, "rounding")] * (c["loss"] and c["round"])
    if log != want:
        return f"searches run: {log}, configured: {want}"
    now = clean(net.as_json())
    if text["graph"] != now["graph"] or text["operators"] != len(now["graph"]):
        return "the file is not the description of the network returned"
    r = chain(c, layers, res, X, tol)
    if r:
        return r
    s = c["scale"] ** (c["loss"] and c["eq"]) * 1.25 ** (c["loss"] and c["round"])
    return chain(c, layers, net.as_quant_results(), X, tol, s) or lists(net, s)


def lists(net, s):
    ops = [o for r in net.as_quant_results() for o in r.operators]
    if len(ops) != len(net.as_operators()) or any(a is not b for a, b in zip(ops, net.as_operators())):
        return "the network's operators are not those of its layers in order"
    for k in range(2):
        g = clean(net.as_json()["graph"])
        if g != clean([o.as_json() for o in ops]):
            return "the description is not that of the operators" + (" after a change" if k else "")
        for o in ops:
            for nd in o.outputs:
                nd.update_quant_parameters(nd.scale * .75, nd.zero_point)


def chain(c, layers, res, X, tol, changed=1):
    kept = [l for l in layers if isinstance(l, (Dense, LSTM))]
    if len(res) != len(kept) + 2:
        return f"{len(res)} results of {len(kept)} layers, input and output"
    near = lambda a, b: abs(float(a) - float(b)) <= 10 * tol * max(abs(float(a)), abs(float(b)), 1e-9)

    def derived(nd, data, what, part=None):
        d = Distribution(np.asarray(data))
        if part is not None and tol > 1e-6:
            return          # bins of a single precision forward pass
        s, z = (d if part is None else d[part]).quantize(nd.quant)
        if not near(nd.scale, float(s) * changed) and not near(float(s), 0):
            return f"{what}: scale {nd.scale}, its float data give {float(s) * changed}"
        if abs(int(nd.zero_point) - int(z)) > (tol > 1e-6):
            return f"{what}: zero point {nd.zero_point}, its float data give {z}"
    first = res[0].operators
    if len(first) != 1 or first[0].as_json()["op_type"] != "QUANTIZE" or first[0].inputs or first[0].outputs != [res[0].out_node]:
        return "input quantisation"
    if str(res[0].out_node.quant.dtype_str()) != c["in"] or not np.array_equal(res[0].input_data, X):
        return "input quantisation: type or data"
    r = derived(res[0].out_node, X, "input")
    if r:
        return r
    prev, x = res[0].out_node, X
    for lay, q in zip(kept, res[1:-1]):
        w = f"layer {lay.name}: "
        if q.operators[0].inputs[0] is not prev:
            return w + "does not read the output node of the layer before"
        if isinstance(lay, LSTM):
            y = lay.floats(x)
            if len(q.operators) != 1 or len(q.operators[0].outputs) != 1 or type(q.layer).__name__ != "KerasLSTM":
                return w + "operators of a recurrent layer"
        else:
            t = c["own"].get(lay.name, c["base"])
            fc = q.operators[0]
            z = np.asarray(x) @ lay.W + (0 if lay.B is None else lay.B)
            y = z if lay.act == "softmax" else ACT[lay.act](z)
            lut = lay.act in ("tanh", "sigmoid")
            if len(q.operators) != 1 + lut or fc.as_json()["op_type"] != "FULLY_CONNECTED":
                return w + "operators of a dense layer"
            got = [str(n.quant.dtype_str()) for n in (q.operators[-1].outputs[0] if lut else None, fc.outputs[0], fc.inputs[2], fc.inputs[1]) if n is not None]
            if got != [t[k] for k in FIELDS if lut or k != "activation_dtype"]:
                return w + f"types {got}, configured {t}"
            r = derived(fc.outputs[0], z, w + "sums", {"relu": slice(0, None), "relu6": slice(0, 6)}.get(lay.act))
            if r:
                return r
            if not np.allclose(fc.outputs[0].fp_tensor, z, rtol=tol, atol=tol):
                return w + "the node of the sums holds other data"
            if list(fc.as_json()["outputs"][0]["tensor"]["shape"]) != list(z.shape[1:]):
                return w + f"exported shape {fc.as_json()['outputs'][0]['tensor']['shape']} of the sums, one sample has {z.shape[1:]}"
            if lut:
                r = derived(q.operators[1].outputs[0], y, w + "activation")
                if r:
                    return r
                if np.shape(q.operators[1].outputs[0].fp_tensor) != y.shape or not np.allclose(q.operators[1].outputs[0].fp_tensor, y, rtol=tol, atol=tol):
                    return w + "the node of the activation holds other data"
            if (fc.inputs[1].zero_point != 0) or (fc.inputs[2].zero_point != 0):
                return w + "zero point of weights or bias"
        if np.asarray(q.input_data).shape != y.shape or not np.allclose(q.input_data, y, rtol=tol, atol=tol):
            return w + "the float output passed on is not the layer's"
        prev, x = q.operators[-1].outputs[0], y
        if q.out_node is not prev:
            return w + "the output node passed on is not the last one"
    last = res[-1].operators
    if len(last) != 1 or last[0].as_json()["op_type"] != "DEQUANTIZE" or last[0].inputs != [prev] or list(last[0].outputs) != []:
        return "dequantisation of the last output"
