"""the oracles of the single layers, with every layer obtained from the builders"""
import stubs
from rc import *
import importlib
import C06, C09, C11, C12, C13, C14, C15, C16, lstmlib
BL = importlib.import_module("itcl_inference_engine.layers.tflite.build_layer")
BO = importlib.import_module("itcl_inference_engine.layers.onnx.build_operator")
RULE = "descriptions of every operator type (random letter case for the tflite engine), random parameters, tables, weights and options, the built layer checked with the oracle of its own property; random texts that are no supported type; non-trivial: a supported type"
NAME = [None]


class View:
    def __init__(self, cls):
        self.cls = cls

    def from_model(self, op):
        b, n = NAME[0]
        d = {"inputs": [], "outputs": [], "attributes": None, "name": "n", **op, "op_type": n}
        return (BL.build_layer if b == "BL" else BO.build_operator)(d)

    def __call__(self, *a, **k):
        return self.cls(*a, **k)

    def __getattr__(self, k):
        return getattr(self.cls, k)


class Names:
    def __init__(self, mod):
        self.mod = mod

    def __getattr__(self, k):
        v = getattr(self.mod, k)
        return View(v) if isinstance(v, type) and hasattr(v, "from_model") else v


C06.LUTActivation = View(C06.LUTActivation)
C09.FullyConnected = View(C09.FullyConnected)
C11.QLinearMatMul = View(C11.QLinearMatMul)
C12.QLinearAdd = View(C12.QLinearAdd)
C14.Softmax = View(C14.Softmax)
C15.RELU = View(C15.RELU)
lstmlib.LSTM = View(lstmlib.LSTM)
for k in ("TT", "TL", "TQ", "TD", "OS", "OQ", "OD"):
    setattr(C13, k, Names(getattr(C13, k)))
C13.OT = type("OT", (), {"Tanh": staticmethod(lambda: View(None).from_model({}))})
OF13 = {"Tanh": ("BL", "TANH"), "Sigmoid": ("BL", "LOGISTIC"), "Quantize": ("BL", "QUANTIZE"), "Dequantize": ("BL", "DEQUANTIZE"),
        "QLinearSigmoid": ("BO", "QLinearSigmoid"), "QuantizeLinear": ("BO", "QuantizeLinear"), "DequantizeLinear": ("BO", "DequantizeLinear"), "OTanh": ("BO", "Tanh")}
OTHER = {"C09": ("BL", "FULLY_CONNECTED"), "C11": ("BO", "QLinearMatMul"), "C12": ("BO", "QLinearAdd"), "C14": ("BO", "Softmax"), "C15": ("BL", "RELU"), "C16": ("BL", "LSTM")}
LUTS = [("BL", "TANHLUT"), ("BL", "SIGMOIDLUT"), ("BO", "TanhLUT"), ("BO", "SigmoidLUT")]
MODS = {m.__name__: m for m in (C06, C09, C11, C12, C13, C14, C15, C16)}
WORDS = ["CONV_2D", "ADD", "", "LUT", "RELU6", "PRELU", "MEAN", "TANHX", "LSTM2", "QUANT", "RESHAPE", "QLinearConv", "Relu", "Gemm", "MatMul", "Sigmoid", "Conv", "GRU", "ELU"]


def cases(rng, tier):
    k = 1 if tier == "quick" else 10
    for m, n in (("C06", 150), ("C09", 250), ("C11", 150), ("C12", 200), ("C13", 800), ("C14", 150), ("C15", 250), ("C16", 100)):
        it = MODS[m].cases(rng, tier)
        for i, c in zip(range(n * k), it):
            c["how"] = "model"
            b, name = OF13[c["w"]] if m == "C13" else LUTS[i % 4] if m == "C06" else OTHER[m]
            if b == "BL":
                name = rng.choice([name, name, name.lower(), name.title(), name.swapcase()])
                if m == "C06" and name == "SIGMOIDLUT":
                    name = "SigmoidLUT"
            yield {"m": m, "b": b, "name": name, "c": c}
    for _ in range(100 * k):
        b, name = rng.choice(["BL", "BO"]), rng.choice(WORDS + ["".join(rng.choice("abcABCxyzXYZ_0189") for _ in range(rng.randint(1, 9)))])
        if not any(k in name.upper() for k in ("RELU", "TANH", "LSTM", "QUANT", "SIGM", "SOFT", "LOGI", "FULLY", "QLIN")) or name in ("RELU6", "PRELU", "TANHX", "LSTM2", "QUANT", "QLinearConv"):
            yield {"m": None, "b": b, "name": name, "c": None}
    for n in ("SOFTMAX", "softmax"):
        yield {"m": "soft", "b": "BL", "name": n, "c": None}


def trivial(c):
    return c["m"] is None


def run(c):
    NAME[0] = (c["b"], c["name"])
    if c["m"] in (None, "soft"):
        nd = {"scale": .5, "zero_point": 1, "LUT": {"LUT": [0] * 256, "offset": 0}, "tensor": {"tensor": [[1]], "dtype": "int8", "shape": [1, 1], "name": "t"}}
        try:
            L = View(None).from_model({"inputs": [nd] * 40, "outputs": [nd], "attributes": {}})
        except ValueError as e:
            return None if c["m"] is None else f"{c['name']!r} is not built: {e}"
        return f"unsupported type {c['name']!r} accepted: {type(L).__name__}" if c["m"] is None else None
    r = MODS[c["m"]].run(c["c"])
    if r:
        return f"{c['name']}: {r if isinstance(r, str) else r[1]}"
