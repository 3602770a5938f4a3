import stubs  # noqa
import random, types, json
import numpy as np
from types import SimpleNamespace as NS
import keras2json as k2
RULE = "the real converter on random fake Keras models (all layer kinds, with and without bias, unsupported and look-alike layers, odd dimensions): operators per layer in order, weights, biases, dimensions and activations element by element; non-trivial: more than one layer"
KIND = ["Dense", "Dense", "LSTM", "Conv2D", "Flatten", "MaxPooling2D", "Dropout", "InputLayer"]
BAD = ["GRU", "Embedding", "Conv1D", "Conv2DTranspose", "DepthwiseConv2D", "SeparableConv2D", "ConvLSTM2D", "CuDNNLSTM", "GlobalMaxPooling2D", "BatchNormalization", "DenseFeatures", "Dense2", "Add", "Inputs", "SpatialDropout2D", "AveragePooling2D"]
ACTS = ["relu", "linear", "tanh", "sigmoid", "softmax"]


def cases(rng, tier):
    for _ in range(500 if tier == "quick" else 4000):
        ks = [rng.choice(KIND) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
        if rng.random() < .2:
            ks.insert(rng.randrange(len(ks) + 1), rng.choice(BAD))
        yield {"kinds": ks, "seed": rng.randrange(10 ** 6), "rank": 3 if rng.random() < .93 else rng.choice([2, 4])}


def trivial(c):
    return len(c["kinds"]) < 2


class Leaky:
    pass


def layer(kind, rng, k, rank):
    r = np.random.RandomState(rng.randrange(10 ** 6))
    dt = rng.choice(["float32", "float64"])
    arr = lambda *s: r.randn(*s).astype(dt)
    bias = rng.random() < .65
    a = rng.choice(ACTS)
    d = {"name": f"layer_{k}", "bias": bias, "dt": dt, "act": a.upper()}
    fn = NS(__name__=a)
    n, u = rng.randint(1, 5), rng.randint(1, 5)
    d.update(n=n, u=u)
    if kind == "LSTM":
        d["w"] = [arr(n, 4 * u), arr(u, 4 * u)] + ([arr(4 * u)] if bias else [])
        d["cfg"] = {"units": u, "name": d["name"], "return_sequences": rng.choice([True, False]), "use_bias": bias}
        d["steps"] = rng.randint(1, 9)
        d["shape"] = {3: (None, d["steps"], n), 2: (None, n), 4: (None, d["steps"], n, 1)}[rank]
    elif kind == "Conv2D":
        d["w"] = [arr(rng.randint(1, 3), rng.randint(1, 3), n, u)] + ([arr(u)] if bias else [])
        if rng.random() < .3:
            fn, d["act"] = Leaky(), "LEAKY"
    else:
        d["w"] = [arr(n, u)] + ([arr(u)] if bias else [])
        d["act"] = a
    d["strides"], d["pool"] = (rng.randint(1, 3), rng.randint(1, 3)), (rng.randint(1, 4), rng.randint(1, 4))
    d["padding"] = rng.choice(["valid", "same"])
    cls = type(kind, (), {})
    o = cls()
    o.__dict__.update(name=d["name"], activation=fn, strides=d["strides"], pool_size=d["pool"], padding=d["padding"], get_weights=lambda: [w.copy() for w in d["w"]],
                      get_config=lambda: d.get("cfg", {}), _batch_input_shape=d.get("shape"))
    return o, d


def tensor_bad(node, w):
    t = node["tensor"]
    if t["shape"] != list(w.shape):
        return f"shape {t['shape']}, expected {list(w.shape)}"
    if t["tensor"] != w.tolist():
        return f"values {t['tensor']}, expected {w.tolist()}"
    if node["scale"] is not None or node["zero_point"] is not None:
        return "parameters appear"
    if t["dtype"] != w.dtype.name:
        return f"type {t['dtype']}, expected {w.dtype.name}"


def op_bad(kind, ops, d):
    w = d["w"]
    zb = lambda n: np.zeros(n)
    if kind in ("Dense", "Conv2D"):
        want = "FULLY_CONNECTED_F" if kind == "Dense" else "CONV_2D_F"
        act = d["act"] if kind == "Dense" else d["act"] + "_F"
        if [o["op_type"] for o in ops] != [want, act]:
            return f"operators {[o['op_type'] for o in ops]}, expected {[want, act]}"
        if len(ops[0]["inputs"]) != 2:
            return "number of tensors"
        b = tensor_bad(ops[0]["inputs"][0], w[0].T if kind == "Dense" else w[0])
        if b:
            return "kernel: " + b
        b = tensor_bad(ops[0]["inputs"][1], w[1] if len(w) > 1 else zb(w[0].shape[-1]))
        if b:
            return ("bias: " if len(w) > 1 else "missing bias: ") + b
    elif kind == "LSTM":
        if ops[0]["op_type"] != "LSTM_F":
            return f"operator {ops[0]['op_type']}"
        by = {n["tensor"]["name"]: n for n in ops[0]["inputs"]}
        for k, v in (("kernel/complete", w[0].T), ("recurrent_kernel/complete", w[1].T), ("bias/complete", w[2] if len(w) > 2 else zb(4 * d["u"]))):
            b = tensor_bad(by[k], v) if k in by else "missing"
            if b:
                return f"{k}: {b}"
        a = {k: v["value"] for k, v in ops[0]["attributes"].items()}
        if a != {"units": [d["u"]], "steps": [d["steps"]], "return_sequences": [d["cfg"]["return_sequences"]]}:
            return f"attributes {a}"
    elif kind == "Flatten":
        if ops[0]["op_type"] != "FLATTEN" or ops[0]["inputs"]:
            return f"operator {ops[0]}"
    if kind in ("Conv2D", "MaxPooling2D"):
        a = {k: v["value"] for k, v in ops[0]["attributes"].items()}
        e = {"strides": list(d["strides"]), "padding": [0 if d["padding"] == "valid" else 1]}
        if kind == "MaxPooling2D":
            e["pool_size"] = list(d["pool"])
            if ops[0]["op_type"] != "MAXPOOLING_2D_F" or ops[0]["inputs"]:
                return f"operator {ops[0]['op_type']}"
        if a != e:
            return f"attributes {a}, expected {e}"


def run(c):
    rng = random.Random(c["seed"])
    ls = [layer(k, rng, i, c["rank"]) for i, k in enumerate(c["kinds"])]
    reject = any(k in BAD for k in c["kinds"]) or (c["rank"] != 3 and "LSTM" in c["kinds"])
    try:
        net = k2.convert(NS(layers=[l for l, _ in ls]))
    except ValueError as ex:
        return None if reject else f"rejected: {ex}"
    if reject:
        return f"layers {c['kinds']} (LSTM input of rank {c['rank']}) are converted, an unsupported one is not rejected"
    json.dumps(net)
    g, i = net["graph"], 0
    if net["operators"] != len(g):
        return "number of operators"
    for k, (_, d) in zip(c["kinds"], ls):
        n = {"Dense": 2, "Conv2D": 2, "Dropout": 0, "InputLayer": 0}.get(k, 1)
        if i + n > len(g):
            return f"{len(g)} operators from {c['kinds']}"
        if n:
            b = op_bad(k, g[i:i + n], d)
            if b:
                return f"{k} {d['name']}: {b}"
        i += n
    if i != len(g):
        return f"{len(g)} operators from {c['kinds']}"
