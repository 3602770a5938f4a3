from convlib import *
import random
RULE = "the real converters on random quantised operators: values, order, scales, zero points, types and indices (value zero included) against the source, tables against the quantised activation of all 256 codes; non-trivial: more than one element or a table"
KINDS = ["QuantizeLinear", "DequantizeLinear", "Tanh", "Softmax", "QLinearAdd", "QLinearMatMul", "QLinearSigmoid"]


def cases(rng, tier):
    for k in range(600 if tier == "quick" else 5000):
        if rng.random() < .5:
            ks = rng.choice([RUN, [rng.choice(KINDS)], [rng.choice(KINDS)], [rng.choice(KINDS), rng.choice(KINDS)]])
            yield {"what": "onnx", "kinds": ks, "seed": rng.randrange(10 ** 6)}
        else:
            yield {"what": "tflite", "ops": [rng.choice([14, 28, 14, 28, 9, 0, 25]) for _ in range(rng.choice([1, 1, 2]))], "nt": rng.randint(1, 4), "seed": rng.randrange(10 ** 6)}


def trivial(c):
    return c.get("kinds") in (["QuantizeLinear"], ["DequantizeLinear"])


def run(c):
    rng = random.Random(c["seed"])
    if c["what"] == "onnx":
        main, g = onnx()
        M = Onnx(rng, c["kinds"], scalar=True)
        net = quiet(main.model2json, M.model)
        want = onnx_expected(c["kinds"])
        if len(net["graph"]) != len(want):
            return f"{len(net['graph'])} operators from {c['kinds']}"
        for k, (o, (t, w)) in enumerate(zip(net["graph"], want)):
            b = onnx_content(o, w, M)
            if b:
                return f"operator {k} ({t}): {b}"
        for key, vals in (("input", M.model.graph.input), ("output", M.model.graph.output)):
            if len(net[key]) != len(vals):
                return f"number of {key}s"
            for n, v in zip(net[key], vals):
                b = base_bad(n, v)
                if b:
                    return f"graph {key}: {b}"
        return
    M = Tfl(rng, c["ops"], c["nt"])
    net = M.convert()
    p = lambda i: (M.tensors[i]["s"], M.tensors[i]["z"]) if M.tensors[i]["q"] == "params" else (1.0, 0)
    for k, (o, s) in enumerate(zip(net["graph"], M.ops)):
        for key, idx in (("inputs", s["in"]), ("outputs", s["out"])):
            if len(o[key]) != len(idx):
                return f"operator {k}: number of {key}"
            for n, i in zip(o[key], idx):
                b = M.node_bad(n, i)
                if b:
                    return f"operator {k}: {b}"
        if s["code"] in (14, 28):
            n = o["inputs"][0]
            if n["LUT"]["offset"] != 128:
                return "offset of the table"
            b = table_bad(n["LUT"]["LUT"], "tanh" if s["code"] == 28 else "sigmoid", *p(s["in"][0]), *p(s["out"][0]), -128, 127) or reduced_bad(n, 3, 0)
            if b:
                return f"operator {k}: {b}"
    for key, idx in (("input", M.inputs), ("output", M.outputs)):
        for n, i in zip(net[key], idx):
            b = M.node_bad(n, i)
            if b:
                return f"graph {key}: {b}"
