"""C19: every operator is built from its own description.

The functional contracts of C06, C09 and C11-C16 are proved again with every
layer obtained from the real builder (build_layer / build_operator) instead of
its class: the builder must pick the class of the type, and the class must load
its own scales, zero points, tables, weights and options from the description
(they are distinct symbols there)."""
from .common import *
from pvc import loader as L_
from . import C06, C09, C11, C12, C13, C14, C15, C16

BL = ("itcl_inference_engine.layers.tflite.build_layer", "build_layer")
BO = ("itcl_inference_engine.layers.onnx.build_operator", "build_operator")


class ClassView:
    """the class, except that a description is handed to the builder"""

    def __init__(self, cls, build):
        self._cls, self._build = cls, build

    def from_model(self, op):
        return self._build(op)

    def __getattr__(self, k):
        return getattr(self._cls, k)

    def __call__(self, *a, **k):
        raise Unsupported("layer not built by the builder")


class ModView:
    def __init__(self, mod, build):
        self.__dict__.update(_mod=mod, _build=build)

    def __getattr__(self, k):
        v = getattr(self._mod, k)
        return ClassView(v, self._build) if hasattr(v, "from_model") and isinstance(v, type) else v

    def __setattr__(self, k, v):
        setattr(self._mod, k, v)


class Via:
    def __init__(self, ld, build):
        self._ld, self._build = ld, build

    def load(self, name):
        return ModView(self._ld.load(name), self._build)

    def __getattr__(self, k):
        return getattr(self._ld, k)


def built(builder, name, harness):
    """the harness with its layer built from a description of type `name`"""
    def h(en, ld):
        mod = ld.load(builder[0])

        def build(op):
            d = dict(op)
            d["op_type"] = name or op["op_type"]
            d.setdefault("inputs", [])
            d.setdefault("outputs", [])
            return getattr(mod, builder[1])(d)
        harness(en, Via(ld, build))
    return h


HARNESSES = []


def add(builder, name, harness, note=""):
    HARNESSES.append((f"{builder[1]}[{name}{note}]", built(builder, name, harness)))


for n in ("TANHLUT", "TanhLUT", "SigmoidLUT"):
    add(BL, n, C06.lookup("model", "int8", "any"))
    add(BL, n, C06.lookup("reduced", "int8", "any"), ", reduced table")
for n in ("TanhLUT", "SigmoidLUT"):
    add(BO, n, C06.lookup("model", "uint8", "any"))
    add(BO, n, C06.lookup("reduced", "uint8", "any"), ", reduced table")
add(BL, "FULLY_CONNECTED", C09.dense("model", "int8", 2, "int8"))
add(BL, "fully_connected", C09.dense("model", "int16", 1, "int64"), ", 16-bit output")
for n in ("TANH", "tanh"):
    add(BL, n, C13.act("Tanh", "model", "int8", "any"))
for n in ("LOGISTIC", "Logistic"):
    add(BL, n, C13.act("Sigmoid", "model", "int8", "any"))
for n in ("QUANTIZE", "Quantize"):
    add(BL, n, C13.quant("Quantize", "model", "int8", "float64"))
add(BL, "QUANTIZE", C13.quant("Quantize", "model", "int16", "float64"), ", 16-bit output")
for n in ("DEQUANTIZE", "Dequantize"):
    add(BL, n, C13.quant("Dequantize", "model", "int8", "int8"))
for n in ("RELU", "Relu"):
    add(BL, n, C15.relu("model", "int8", "any"))
add(BL, "LSTM", C16.step("model", "int8", "int8", False))
add(BO, "QLinearMatMul", C11.mmul("model", 2, "uint8"))
add(BO, "QLinearAdd", C12.add("model", "row", "uint8"))
add(BO, "QuantizeLinear", C13.quant("QuantizeLinear", "model", "uint8", "float64"))
add(BO, "DequantizeLinear", C13.quant("DequantizeLinear", "model", "uint8", "uint8"))
add(BO, "QLinearSigmoid", C13.act("QLinearSigmoid", "model", "uint8", "any"))

for k in (1, 2):
    add(BO, "Softmax", C14.softmax(k, "model"), f", rank {k}")


def otanh(en, ld):
    c = ld.load(C13.OX + "tanh").Tanh
    X = new_array("x", OShape("S"), "float64")
    i = (fresh_index(0, X.shape_.size),)
    y = c.from_model({"op_type": "Tanh"}).infer(X)
    same_shape(en, "shape kept", y, X)
    en.prove("tanh of every element", y.el(*i).e == C13.tanh(X.at(*i)))


add(BO, "Tanh", otanh)


def tsoftmax(en, ld):
    """supported: a layer is built (its inference is the identity on this tree, no statement is made about it)"""
    m = ld.load(BL[0])
    for n in ("SOFTMAX", "Softmax"):
        L = m.build_layer(C13.op(n, [C13.node(1.0, 0, "int8")], [C13.node(1.0, 0, "int8")]))
        en.prove("a layer is built", L is not None and callable(getattr(L, "infer", None)))


HARNESSES.append(("build_layer[SOFTMAX]", tsoftmax))

EXACT = ("TANH", "TANHLUT", "QUANTIZE", "RELU", "LSTM")
INSIDE = ("FULLY_CONN", "LOGISTIC", "SOFTMAX", "DEQUANTIZE", "SIGMOIDLUT")
NAMES = ("QLinearAdd", "QLinearMatMul", "QuantizeLinear", "QLinearSigmoid", "SigmoidLUT", "DequantizeLinear", "Softmax", "Tanh", "TanhLUT")


class Chosen(Exception):
    pass


def unsupported(builder, near):
    """a type of arbitrary text that is none of the supported ones (in any letter case)"""
    def h(en, ld):
        m = ld.load(builder[0])
        up = builder is BL
        full = ("FULLY_CONNECTED", "LOGISTIC", "SOFTMAX", "DEQUANTIZE", "SIGMOIDLUT")
        known = EXACT + INSIDE + full if up else NAMES
        en.scratch["universe"] = tuple(known) + (() if up else tuple(n.upper() for n in NAMES) + tuple(n.lower() for n in NAMES))
        t = z3.Const("op_type", L_.TXT)
        s = L_.SStr([L_.Opq(t)])
        for f in (lambda x: x, L_.UPPER, L_.LOWER):
            for k in known:
                for c in {k, k.upper(), k.lower()}:
                    en.assume(f(t) != L_.lit(c))
                    if up:
                        en.assume(z3.Not(L_.CONTAINS(L_.lit(c), f(t))))
        for p in near:
            en.prove(f"{p!r} is none of the supported types", not (p.upper() in EXACT or any(k in p.upper() for k in INSIDE)) if up else p.upper() not in [n.upper() for n in NAMES])
        en.cover("precondition")
        nd = C13.node(new_real("s", pos=True), new_int("z", -128, 127), "int8")
        for v in [s] + list(near):
            try:
                r = getattr(m, builder[1])({"op_type": v, "name": "n", "attributes": {}, "inputs": [nd] * 40, "outputs": [nd]})
                ok = False
            except ValueError:
                ok = True
            except (KeyError, TypeError, AttributeError, IndexError):
                ok = False          # the layer of another operator tried to load it
            en.prove("an unsupported type is rejected with an error" + ("" if v is s else f": {v!r}"), ok)
    return h


HARNESSES.append(("build_layer rejects every other type", unsupported(BL, ["CONV_2D", "ADD", "", "LUT", "RELU6", "PRELU", "LEAKY_RELU", "MEAN", "TANH_", "TANHX", "LSTM2", "QUANT", "QUANTIZE_LINEAR", "UNIDIRECTIONAL_SEQUENCE_LSTM", "SIGMOID", "RESHAPE"])))
HARNESSES.append(("build_operator rejects every other type", unsupported(BO, ["QLinearConv", "Add", "", "LUT", "Relu", "Gemm", "MatMul", "QLinearMul", "Sigmoid", "QLinearSoftmax", "TanhLUT2", "LogSoftmax", "HardSigmoid", "QuantizeLinear2"])))
