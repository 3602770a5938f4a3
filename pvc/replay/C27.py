from convlib import *
import random
RULE = "the real converters on random ONNX node sequences (fused runs at any position, overlapping and partial ones, unsupported types) and TFLite models: one operator per node or fused run, in order, inputs and outputs by tensor index; non-trivial: more than one node"
KINDS = ["QuantizeLinear", "DequantizeLinear", "Tanh", "Softmax", "QLinearAdd", "QLinearMatMul", "QLinearSigmoid"]
OPS = [0, 9, 14, 19, 25, 28, 114, 6]


def cases(rng, tier):
    for k in range(450 if tier == "quick" else 4000):
        if rng.random() < .55:
            ks = []
            for _ in range(rng.choice([0, 1, 2, 3, 4, 6])):
                ks += rng.choice([RUN, RUN[:2], RUN[1:], [rng.choice(KINDS)], [rng.choice(KINDS)], RUN + RUN[1:]])
            bad = None
            if rng.random() < .15 and ks:
                bad = rng.choice(["Conv", "Relu", "QuantizeLinearV2", "tanh", "Quantize", "TanhV2", "Add", ""])
                ks = list(ks)
                ks[rng.randrange(len(ks))] = bad
            yield {"what": "onnx", "kinds": ks, "seed": rng.randrange(10 ** 6)}
        else:
            yield {"what": "tflite", "ops": [rng.choice(OPS) for _ in range(rng.choice([0, 1, 2, 3, 5]))], "nt": rng.randint(1, 6), "seed": rng.randrange(10 ** 6), "main": rng.random() < .3}


def trivial(c):
    return len(c.get("kinds", c.get("ops"))) < 2


def run(c):
    rng = random.Random(c["seed"])
    if c["what"] == "onnx":
        main, g = onnx()
        M = Onnx(rng, c["kinds"])
        want = onnx_expected(c["kinds"])
        ok = all(t in KINDS + ["TanhLUT", "SigmoidLUT"] for t, _ in want)
        try:
            net = quiet(main.model2json, M.model)
        except ValueError as ex:
            return None if not ok else f"conversion of {c['kinds']} rejected: {ex}"
        if not ok:
            return f"an unsupported type in {c['kinds']} is not rejected: {[o['op_type'] for o in net['graph']]}"
        got = [o["op_type"] for o in net["graph"]]
        if got != [t for t, _ in want] or [o["name"] for o in net["graph"]] != got:
            return f"operators {got} from {c['kinds']}, expected {[t for t, _ in want]}"
        for k, (o, (t, w)) in enumerate(zip(net["graph"], want)):
            b = onnx_content(o, w, M)
            if b:
                return f"operator {k} ({t}, nodes {w}): {b}"
        gr = M.model.graph
        for key, vals in (("input", gr.input), ("output", gr.output)):
            if [n["tensor"]["name"] for n in net[key]] != [v.name for v in vals]:
                return f"{key}s {[n['tensor']['name'] for n in net[key]]}, the model's {[v.name for v in vals]}"
        return
    M = Tfl(rng, c["ops"], c["nt"])
    net = M.convert_main() if c.get("main") else M.convert()
    if len(net["graph"]) != len(M.ops) or net["operators"] != len(M.ops):
        return f"{len(net['graph'])} operators from {len(M.ops)}"
    names = {v: k for k, v in vars(BuiltinOperator).items() if not k.startswith("_")}
    for k, (o, s) in enumerate(zip(net["graph"], M.ops)):
        w = {"TANH": "TANHLUT", "LOGISTIC": "SIGMOIDLUT"}.get(names[s["code"]], names[s["code"]])
        if o["op_type"] != w or o["name"] != w:
            return f"operator {k} is {o['op_type']}, the source's {names[s['code']]}"
        for key, idx in (("inputs", s["in"]), ("outputs", s["out"])):
            got = [int(n["tensor"]["name"][1:]) for n in o[key]]
            if got != idx:
                return f"operator {k} has the {key} {got}, the source's {idx}"
            for n, i in zip(o[key], idx):
                b = M.node_bad(n, i)
                if b:
                    return f"operator {k}: {b}"
    for key, idx in (("input", M.inputs), ("output", M.outputs)):
        got = [int(n["tensor"]["name"][1:]) for n in net[key]]
        if got != idx:
            return f"graph {key}s {got}, the source's {idx}"
