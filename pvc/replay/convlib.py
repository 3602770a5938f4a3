"""fake source models for the converters: ONNX and TFLite objects with the accessors the converters use"""
import stubs  # noqa
import json, math, os, sys, types, tempfile, contextlib, io
import numpy as np
from types import SimpleNamespace as NS
import yaml


def load_yaml(f, Loader=None):
    """key: value lines nested by indentation"""
    root = {}
    stack = [(-1, root)]
    for line in f.read().splitlines():
        if not line.strip() or line.strip().startswith(("#", "---")):
            continue
        ind = len(line) - len(line.lstrip())
        k, _, v = line.strip().partition(":")
        while stack[-1][0] >= ind:
            stack.pop()
        v = v.strip()
        if not v:
            d = {}
            stack[-1][1][k] = d
            stack.append((ind, d))
        else:
            stack[-1][1][k] = int(v) if v.lstrip("-").isdigit() else v
    return root


yaml.load, yaml.FullLoader, yaml.safe_load = load_yaml, None, lambda f: load_yaml(f)
REPO = os.environ.get("PVC_REPO") or (os.getcwd() if os.path.isdir("model_converters") else "/repo")
ACT = {"tanh": np.tanh, "sigmoid": lambda x: 1 / (1 + np.exp(-x))}


def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


def table_bad(L, fn, si, zi, so, zo, lo, hi):
    """the table against the quantised activation of every code"""
    if not isinstance(L, list) or len(L) != hi - lo + 1:
        return f"the table has {len(L) if hasattr(L, '__len__') else L} entries"
    for k, v in enumerate(L):
        t = ACT[fn]((lo + k - zi) * si) / so + zo + .5
        w = {int(min(max(math.floor(t + e), lo), hi)) for e in (-1e-7, 1e-7)}
        if v not in w:
            return f"code {lo + k} of the {fn} table is {v}, expected {sorted(w)}"


def reduced_bad(node, depth, minr):
    from itcl_quantization.quantization.lut import ReducedLUT
    L = node["LUT"]
    plain = lambda x: json.loads(json.dumps(x))
    if plain(L["reduced_LUT"]) != plain(ReducedLUT(L["LUT"], depth, minr).serialize()):
        return "the reduced table is not the one of the settings"


# ---------------------------------------------------------------- ONNX
def onnx():
    cwd = os.getcwd()
    os.chdir(os.path.join(REPO, "model_converters/onnx2json"))
    try:
        import helpers.graph as g
        import importlib.util as iu
        spec = iu.spec_from_file_location("onnx2json_main", "2json.py")
        m = iu.module_from_spec(spec)
        spec.loader.exec_module(m)
    finally:
        os.chdir(cwd)
    return m, g


QUANT = {"QuantizeLinear": 1, "DequantizeLinear": 1, "QLinearAdd": 3, "QLinearMatMul": 3, "QLinearSigmoid": 2}


class Onnx:
    """a random graph: nodes of the given types, with their own initialisers in a shuffled order"""

    def __init__(self, rng, kinds, scalar=False):
        self.rng, self.inits, self.expect = rng, [], []
        self.values, nodes = [], []
        self.vi = []
        for k, t in enumerate(kinds):
            nodes.append(self.node(k, t, scalar))
        rng.shuffle(self.inits)
        rng.shuffle(self.vi)
        val = lambda n: NS(name=n, type=NS(tensor_type=NS(shape=NS(dim=[NS(dim_value=1), NS(dim_value=rng.randint(1, 99))]))))
        self.val = {n: val(n) for n in self.vi + ["graph_in", "graph_out", "graph_in2", "graph_out2"]}
        self.model = NS(ir_version=7, graph=NS(node=nodes, initializer=self.inits, value_info=[self.val[n] for n in self.vi],
                                               input=[self.val["graph_in"]] + ([self.val["graph_in2"]] if rng.random() < .4 else []),
                                               output=[self.val["graph_out"]] + ([self.val["graph_out2"]] if rng.random() < .4 else [])))

    def param(self, base):
        s, z = float(np.float32(math.exp(self.rng.uniform(-7, 1)))), self.rng.choice([0, 255, 128, self.rng.randint(0, 255)])
        self.inits.append(NS(name=base + "_s", float_data=[s], int32_data=[], raw_data=b"", dims=[]))
        self.inits.append(NS(name=base + "_z", float_data=[], int32_data=[z], raw_data=b"", dims=[]))
        return s, z

    def node(self, k, t, scalar):
        r, p = self.rng, f"n{k}"
        e = {"type": t, "params": []}
        ins = [p + "_x"]
        if t in QUANT:
            for j in range(QUANT[t]):
                b = f"{p}_{j}"
                e["params"].append(self.param(b))
                if t in ("QLinearAdd", "QLinearMatMul") and j == 1:
                    dims = [r.randint(1, 4) for _ in range(2 if t == "QLinearMatMul" else r.choice([0, 1, 2, 3] if scalar else [1, 1, 2, 3]))]
                    a = np.array([r.randint(0, 255) for _ in range(int(np.prod(dims)))], dtype="uint8").reshape(dims)
                    self.inits.append(NS(name=b + "_t", float_data=[], int32_data=[], raw_data=a.tobytes(), dims=dims))
                    e["tensor"] = a
                    ins += [b + "_t"]
                ins += [b + "_s", b + "_z"]
        elif t in ("Tanh", "Softmax"):
            e["in"] = r.choice([p + "_in", p + "_in", "graph_in"])
            e["out"] = r.choice([p + "_out", p + "_out", "graph_out"])
            ins = [e["in"]]
            self.vi += [n for n in (e["in"], e["out"]) if n.startswith("n")]
        self.expect.append(e)
        return NS(op_type=t, input=ins, output=[e.get("out", p + "_y")], name=p)


RUN = ["DequantizeLinear", "Tanh", "QuantizeLinear"]


def onnx_expected(kinds):
    """[(operator type, node positions)]"""
    out, i = [], 0
    while i < len(kinds):
        if kinds[i:i + 3] == RUN:
            out.append(("TanhLUT", [i, i + 1, i + 2]))
            i += 3
        else:
            out.append(("SigmoidLUT" if kinds[i] == "QLinearSigmoid" else kinds[i], [i]))
            i += 1
    return out


def node_bad(n, s, z, tensor=None, tr=False):
    if n["scale"] != s or type(n["scale"]) is not float:
        return f"the scale is {n['scale']!r}, the source's {s!r}"
    if n["zero_point"] != z or type(n["zero_point"]) is not int:
        return f"the zero point is {n['zero_point']!r}, the source's {z!r}"
    if tensor is None:
        return "a tensor appears" if n["tensor"] is not None else None
    t = n["tensor"]
    w = tensor.T if tr else tensor
    if t is None or list(t["shape"]) != list(w.shape) or t["dtype"] != "uint8" or t["tensor"] != w.tolist():
        return f"the tensor is {t}, the source's {w.tolist()}"
    json.dumps(t)


def base_bad(n, v):
    t = n["tensor"]
    if t["name"] != v.name or t["shape"] != v.type.tensor_type.shape.dim[1].dim_value or n["scale"] is not None or n["zero_point"] is not None or t["tensor"] is not None:
        return f"the node is {n}, the source's value {v.name} of size {v.type.tensor_type.shape.dim[1].dim_value}"


def onnx_content(op, where, M):
    """operator against its source nodes"""
    e = [M.expect[i] for i in where]
    t, ins, outs = op["op_type"], op["inputs"], op["outputs"]
    if t in ("Tanh", "Softmax"):
        if len(ins) != 1 or len(outs) != 1:
            return "number of nodes"
        return base_bad(ins[0], M.val[e[0]["in"]]) or base_bad(outs[0], M.val[e[0]["out"]])
    if outs:
        return "outputs appear"
    if t == "TanhLUT":
        L = ins[0]["LUT"]
        if len(ins) != 1 or L["offset"] != 0:
            return "offset of the table"
        return table_bad(L["LUT"], "tanh", *e[0]["params"][0], *e[2]["params"][0], 0, 255) or reduced_bad(ins[0], 3, 10)
    if t == "SigmoidLUT":
        L = ins[0]["LUT"]
        if len(ins) != 1 or L["offset"] != 0:
            return "offset of the table"
        a, b = e[0]["params"]
        if (ins[0]["scale"], ins[0]["zero_point"]) != a:
            return f"the table's node carries {ins[0]['scale'], ins[0]['zero_point']}, the source {a}"
        return table_bad(L["LUT"], "sigmoid", *a, *b, 0, 255) or reduced_bad(ins[0], 3, 0)
    if len(ins) != QUANT[t]:
        return "number of nodes"
    for k, n in enumerate(ins):
        b = node_bad(n, *e[0]["params"][k], e[0].get("tensor") if k == 1 else None, t == "QLinearMatMul")
        if b:
            return f"operand {k}: {b}"


# ---------------------------------------------------------------- TFLite
class TensorType:
    FLOAT32, FLOAT16, INT32, UINT8, INT64, STRING, BOOL, INT16, COMPLEX64, INT8 = range(10)


class BuiltinOperator:
    ADD, FULLY_CONNECTED, LOGISTIC, RELU, SOFTMAX, TANH, QUANTIZE, DEQUANTIZE = 0, 9, 14, 19, 25, 28, 114, 6


def tfl():
    import tflite
    tflite.TensorType, tflite.BuiltinOperator = TensorType, BuiltinOperator
    import tensorflow.lite  # noqa
    import itcl_tflite2json as m
    return m


DT = {0: "float32", 2: "int32", 3: "uint8", 9: "int8", 7: "int16", 4: "int64"}


class Tfl:
    def __init__(self, rng, ops, nt):
        self.rng = rng
        self.tensors, self.arrays, names = [], [], []
        for i in range(nt):
            code = rng.choice([9, 9, 9, 2, 0, 3, 7])
            shape = [rng.randint(1, 3) for _ in range(rng.choice([0, 1, 2, 2, 4]))]
            has = rng.random() < .5
            a = np.array([rng.randint(-3, 90) + (0 if code else rng.random()) for _ in range(int(np.prod(shape)))]).astype(DT[code]).reshape(shape)
            q = rng.choice(["params", "params", "params", "empty", "none"])
            s, z = np.float32(math.exp(rng.uniform(-6, 1))), rng.choice([0, -128, 127, rng.randint(-128, 127)])
            self.tensors.append({"name": f"t{i}", "code": code, "shape": shape, "data": a if has else None, "q": q, "s": float(s), "z": int(z)})
        self.nt = nt
        self.ops = [{"code": c, "in": [rng.randrange(nt) for _ in range(rng.choice([1, 1, 2, 3]))], "out": [rng.randrange(nt) for _ in range(rng.choice([1, 1, 2]))]} for c in ops]
        pool = [t["code"] for t in []]
        self.codes = sorted(set(ops)) or [0]
        rng.shuffle(self.codes)
        self.inputs = [rng.randrange(nt) for _ in range(rng.choice([1, 1, 2, 3]))]
        self.outputs = [rng.randrange(nt) for _ in range(rng.choice([1, 1, 2, 3]))]
        # quantised, different parameters at the ends of the table operators
        for o in self.ops:
            if o["code"] in (BuiltinOperator.TANH, BuiltinOperator.LOGISTIC):
                o["in"], o["out"] = o["in"][:1], o["out"][:1]

    def tensor(self, i):
        t = self.tensors[i]
        q = None
        if t["q"] == "params":
            q = NS(ScaleAsNumpy=lambda: np.array([t["s"]], dtype="float32"), ZeroPointAsNumpy=lambda: np.array([t["z"]], dtype="int64"))
        elif t["q"] == "empty":
            q = NS(ScaleAsNumpy=lambda: 0, ZeroPointAsNumpy=lambda: 0)
        return NS(Name=lambda: t["name"].encode(), Buffer=lambda: i + 1, Quantization=lambda: q, ShapeAsNumpy=lambda: np.array(t["shape"], dtype="int32"),
                  Type=lambda: t["code"])

    def model(self):
        def Tensors(i):
            if not 0 <= i < self.nt:
                raise IndexError("no such tensor")
            return self.tensor(int(i))
        ops = [NS(OpcodeIndex=lambda o=o: self.codes.index(o["code"]), InputsAsNumpy=lambda o=o: np.array(o["in"], dtype="int32"), OutputsAsNumpy=lambda o=o: np.array(o["out"], dtype="int32")) for o in self.ops]
        sub = NS(Tensors=Tensors, Operators=lambda i: ops[i], OperatorsLength=lambda: len(ops), Inputs=lambda i: self.inputs[i], Outputs=lambda i: self.outputs[i],
                 InputsLength=lambda: len(self.inputs), OutputsLength=lambda: len(self.outputs))
        data = lambda i: NS(DataAsNumpy=lambda: np.frombuffer(self.tensors[i - 1]["data"].tobytes(), dtype="uint8") if self.tensors[i - 1]["data"] is not None else 0)
        return NS(Subgraphs=lambda i: sub if i == 0 else None, OperatorCodes=lambda i: NS(BuiltinCode=lambda: self.codes[i]), Buffers=data, Version=lambda: 3)

    def interpreter(self):
        def get(i):
            if not isinstance(i, (int, np.integer)):
                raise ValueError("tensor index")
            d = self.tensors[i]["data"]
            return d
        return NS(allocate_tensors=lambda: None, get_tensor=get, get_tensor_details=lambda: [{"name": t["name"], "index": i} for i, t in enumerate(self.tensors)])

    def convert_main(self):
        """the script's main(): every ../models/*.tflite next to its folder (a scratch folder here)"""
        import importlib
        tfl()
        m = importlib.import_module("itcl_tflite2json._tflite2json")
        d = tempfile.mkdtemp()
        old = os.getcwd()
        try:
            os.makedirs(d + "/run")
            os.makedirs(d + "/models")
            for n in ("one", "two"):
                open(f"{d}/models/{n}.tflite", "wb").write(b"model")
            os.chdir(d + "/run")
            mod, interp = self.model(), self.interpreter()
            m.tflite.Model = NS(GetRootAsModel=lambda b, o: mod)
            m.tfl.Interpreter = lambda model_path: interp
            quiet(m.main)
            r = [json.load(open(f"{d}/models/{n}.json")) for n in ("one", "two")]
            return r[0] if r[0] == r[1] else {"graph": [], "operators": -1, "input": [], "output": []}
        finally:
            os.chdir(old)
            for n in ("run",):
                os.rmdir(f"{d}/{n}")
            for f in os.listdir(d + "/models"):
                os.remove(f"{d}/models/{f}")
            os.rmdir(d + "/models")
            os.rmdir(d)

    def convert(self):
        m = tfl()
        d = tempfile.mkdtemp()
        src, dst = os.path.join(d, "in.tflite"), os.path.join(d, "out.json")
        open(src, "wb").write(b"model")
        mod, interp = self.model(), self.interpreter()
        m.tflite.Model = NS(GetRootAsModel=lambda b, o: mod)
        m.tfl.Interpreter = lambda model_path: interp
        try:
            quiet(m.convert, src, dst)
            return json.load(open(dst))
        finally:
            for f in (src, dst):
                if os.path.exists(f):
                    os.remove(f)
            os.rmdir(d)

    def node_bad(self, n, i):
        """exported node against tensor i"""
        t, x = self.tensors[i], n["tensor"]
        if x["name"] != t["name"]:
            return f"the tensor is {x['name']}, the source's index is {i}"
        tn = {v: k for k, v in vars(TensorType).items() if not k.startswith("_")}[t["code"]]
        if x["dtype"] != tn:
            return f"the type is {x['dtype']}, the source's {tn}"
        if x["shape"] != t["shape"]:
            return f"the shape is {x['shape']}, the source's {t['shape']}"
        w = t["data"].tolist() if t["data"] is not None else None
        if x["tensor"] != w:
            return f"the values are {x['tensor']}, the source's {w}"
        p = (t["s"], t["z"]) if t["q"] == "params" else (None, None)
        if (n["scale"], n["zero_point"]) != p:
            return f"scale and zero point are {n['scale'], n['zero_point']}, the source's {p}"
