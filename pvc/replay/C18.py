import json, os, tempfile
import stubs
from rc import *
import importlib
import itcl_inference_engine.network.sequential as m
TB = importlib.import_module("itcl_inference_engine.layers.tflite.build_layer")
OB = importlib.import_module("itcl_inference_engine.layers.onnx.build_operator")
REAL = {"TFLITE": TB.build_layer, "ONNX": OB.build_operator}
RULE = "random networks of 1 to 12 layers, half of toy layers that record what they get (the builders replaced), half of the engine's own layers read from a description or a JSON file; both engines in any letter case, quantising or not, repeated inferences on the same network, rejected descriptions; non-trivial: at least two layers"

T = ["QUANTIZE", "RELU", "TANHLUT", "FULLY_CONNECTED", "SIGMOIDLUT", "LOGISTIC", "DEQUANTIZE", "TANH"]
O = ["QuantizeLinear", "TanhLUT", "QLinearMatMul", "QLinearAdd", "SigmoidLUT", "QLinearSigmoid", "DequantizeLinear"]


def cases(rng, tier):
    for _ in range(500 if tier == "quick" else 6000):
        eng = rng.choice(["TFLITE", "ONNX"])
        c = {"kind": rng.choice(["toy", "real", "real", "reject"]) if rng.random() < .3 else rng.choice(["toy", "real"]), "engine": eng,
             "spell": rng.choice([eng, eng.lower(), eng.title()]), "seed": rng.randrange(10 ** 9), "n": rng.choice([1, 1, 2, 2, 3, 4, 5, 7, 12]),
             "shape": rng.choice([[3], [1, 4], [2, 3], [5, 2], [2, 2, 3]]), "turns": rng.choice([1, 2, 3]), "verbose": rng.random() < .3,
             "quant": rng.random() < .6, "file": rng.random() < .3, "s": rng.choice([None, rscale(rng)]), "z": rng.choice([None, 0, rng.randint(-128, 127)]),
             "batch": rng.random() < .2, "own": rng.random() < .5}
        yield c


def trivial(c):
    return c["n"] < 2


class Toy:
    def __init__(self, i, k, log, own):
        self.i, self.k, self.log, self.own = i, k, log, own

    def f(self, x):
        x = np.asarray(x, "float64")
        if self.own and self.k % 5 == 4:
            return x
        return (x[..., :1] * 2 + self.k if self.k % 5 == 0 else np.concatenate([x, x[..., :1]], -1) + self.k if self.k % 5 == 1 else x * 3 - self.k)

    def infer(self, x):
        self.log.append((self.i, np.array(x)))
        return x if self.own and self.k % 5 == 4 else self.f(x)


def node(rng, s=None, z=None, tensor=None, dt="int8", shape=None, lut=None):
    return {"scale": rng.choice([.5, .125, .05, .02]) if s is None else s, "zero_point": rng.randint(-20, 20) if z is None else z, "LUT": lut,
            "tensor": {"name": "t", "dtype": dt, "shape": shape or [], "tensor": tensor}}


def real_graph(rng, eng, n, width, quant):
    """n operators of the engine, with operands of matching sizes"""
    g = []
    ops = T if eng == "TFLITE" else O
    for i in range(n):
        t = (ops[0] if i == 0 and quant else ops[-2 if eng == "TFLITE" else -1] if i == n - 1 and n > 1 else rng.choice(ops[1:-2] if eng == "TFLITE" else ops[1:-1]))
        o = {"op_type": t, "name": (("Quantize " if i == 0 and quant else "op ") + str(rng.choice([i, i, 1]))), "attributes": None, "inputs": [], "outputs": [node(rng)]}
        if t in ("FULLY_CONNECTED", "QLinearMatMul"):
            m_ = rng.choice([1, 2, 4])
            W = [[rng.randint(-127, 127) for _ in range(width)] for _ in range(m_)]
            o["inputs"] = [node(rng), node(rng, z=0, tensor=W, shape=[len(W), len(W[0])])]
            if eng == "TFLITE":
                o["inputs"].append(node(rng, z=0, tensor=[rng.randint(-900, 900) for _ in range(m_)], dt="int32", shape=[m_]))
            width = m_
        elif t == "QLinearAdd":
            o["inputs"] = [node(rng), node(rng, tensor=[rng.randint(-100, 100) for _ in range(width)], shape=[width])]
        elif "LUT" in t:
            o["inputs"] = [node(rng, lut={"LUT": [rng.randint(-128, 127) + (128 if eng == "ONNX" else 0) for _ in range(256)], "offset": 0 if eng == "ONNX" else 128, "reduced_LUT": None})]
        else:
            o["inputs"] = [node(rng)]
        if t.startswith("QLinear"):
            o["inputs"].append(node(rng))
        g.append(o)
    return g


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")


def swap(new):
    """replaces the two builders wherever the network module gets them from; returns the undo list"""
    undo = []
    for k, f in REAL.items():
        for mod in (m, TB, OB):
            for name, v in list(vars(mod).items()):
                if v is f:
                    undo.append((mod, name, v))
                    setattr(mod, name, new[k])
    return undo


def run(c):
    rng = random.Random(c["seed"])
    eng, n, sh = c["engine"], c["n"], c["shape"]
    s, z = c["s"], c["z"]
    if c["kind"] == "real" and len(sh) > 2:
        sh = sh[1:]
    desc = lambda g: {"engine": c["spell"], "generated_at": "año \u20ac", "input": [node(rng, s=s or 0, z=z or 0) | {"scale": s, "zero_point": z}], "output": [node(rng)], "graph": g}
    if c["kind"] == "reject":
        g = real_graph(rng, eng, n, sh[-1], True)
        for bad in ("keras", "TFLITE2", "", "ON"):
            try:
                m.SequentialNetwork({**desc(g), "engine": bad})
                return f"engine {bad!r} accepted"
            except ValueError:
                pass
        for k in ("input", "output"):
            try:
                m.SequentialNetwork({**desc(g), k: [None]})
                return f"network without {k} tensor accepted"
            except ValueError:
                pass
        return
    X = np.array([rng.uniform(-3, 3) if c["quant"] or rng.random() < .5 else rng.uniform(-300, 300) for _ in range(size(sh))]).reshape(sh)
    log, undo = [], []
    if c["kind"] == "toy":
        toys = [Toy(i, rng.randint(0, 9), log, c["own"]) for i in range(n)]
        g = [{"name": ("Quantize" if c["quant"] and i == 0 else f"layer{rng.choice([i, i, 1])}"), "op_type": "toy", "no": i} for i in range(n)]
        built = []
        mk = lambda k: lambda op: (built.append((k, op["no"])), toys[op["no"]])[1]
        undo = swap({k: mk(k) for k in REAL})
        ref = [t.f for t in toys]
    else:
        g = real_graph(rng, eng, n, sh[-1], c["quant"])
        ref = [REAL[eng](json.loads(json.dumps(o))).infer for o in g]
    try:
        d = desc(g)
        if c["file"]:
            with tempfile.TemporaryDirectory() as t:
                p = os.path.join(t, "m.json")
                with open(p, "w", encoding="utf-8") as f:
                    json.dump(d, f, ensure_ascii=c["seed"] % 2)
                net = m.SequentialNetwork.from_json_file(p)
                if type(net) is not m.SequentialNetwork or net.schema != json.loads(json.dumps(d)):
                    return f"the network of a file does not have the file's description: {str(net.schema)[:80]}, in the file {str(d)[:80]}"
        else:
            net = m.SequentialNetwork(d)
        if c["kind"] == "toy" and built != [(eng, i) for i in range(n)]:
            return f"layers built: {built}, expected {n} by the {eng} builder in order"
        for turn in range(c["turns"] + 1):
            if turn == c["turns"]:
                x = keep0
            else:
                x = X * (1 + turn) / 2
            keep = np.array(x)
            if turn == 0:
                keep0 = keep.copy()
            v = x if c["quant"] else np.clip(np.floor(np.asarray(x) / (s or 1) + (z or 0) + .5), -128, 127).astype("int64")
            exp = [np.array(v)]
            for f in ref:
                exp.append(np.array(f(np.array(exp[-1]) if c["quant"] or len(exp) > 1 else exp[-1].astype("int8"))))
            log.clear()
            y = net.infer(x.tolist() if turn == 1 else x, verbose=c["verbose"], isBatch=c["batch"])
            if not np.array_equal(x, keep):
                return "the input was modified"
            if c["kind"] == "toy":
                if [i for i, _ in log] != list(range(n)):
                    return f"inference {turn}: layers run: {[i for i, _ in log]} of {n}"
                for i, got in log:
                    if not same(got.astype("float64"), exp[i].astype("float64")):
                        return f"inference {turn}: layer {i} of {n} got {got.tolist()}, expected {exp[i].tolist()}"
            if not same(np.asarray(y, "float64"), exp[-1].astype("float64")):
                return f"inference {turn}: result {np.asarray(y).tolist()} is not the last layer's output {exp[-1].tolist()} ({[o['op_type'] for o in g]})"
            rec = getattr(net, "_intermediate_results", None)
            if rec is not None:
                if len(rec) != n:
                    return f"inference {turn}: {len(rec)} recorded outputs for {n} layers"
                for i, r in enumerate(rec):
                    if not same(np.asarray(r, "float64"), exp[i + 1].astype("float64")):
                        return f"inference {turn}: recorded output {i} is {np.asarray(r).tolist()}, expected {exp[i + 1].tolist()}"
    finally:
        for mod, k, v in undo:
            setattr(mod, k, v)
