"""C13: activation and (de)quantise layers compute f between their own parameters."""
from .common import *

TF = "itcl_inference_engine.layers.tflite."
OX = "itcl_inference_engine.layers.onnx."


def node(s, z, dt=None):
    return {"scale": s, "zero_point": z, "tensor": {"tensor": None, "dtype": dt, "shape": None} if dt else None, "LUT": None, "idx": 0}


def op(name, i, o):
    return {"op_type": name, "name": "n", "attributes": None, "inputs": i, "outputs": o}


def sig(x):
    return 1 / (1 + T.f_exp(Sym(-x, "pyfloat"), "pyfloat").e)


def tf_sigmoid(x):
    """contract of tensorflow's sigmoid: 1 / (1 + exp(-x)) element by element"""
    E.ENG.trust("tensorflow.keras.activations.sigmoid is 1/(1+exp(-x)) element by element")
    return A.umap(as_array(x), lambda s: Sym(sig(toreal(s.e)), "float64"), "float64") if isinstance(x, (SArr, SList, list)) else Sym(sig(toreal(T.sym(x).e)), "float64")


def tanh(x):
    return T.f_tanh(Sym(x, "pyfloat"), "pyfloat").e


def near(en, name, out, t, lo, hi):
    want = clipz(nearest_up(t), lo, hi)
    en.prove(name, z3.And(out - want <= 1, want - out <= 1))
    en.prove("saturated to the output type", in_range(out, lo, hi))


def act(which, how, dt, shp):
    def h(en, ld):
        ty = "uint8" if which == "QLinearSigmoid" else "int8"
        lo, hi = limits(ty)
        s, z = new_real("input_scale", pos=True), new_int("input_zp", lo, hi)
        so, zo = new_real("output_scale", pos=True), new_int("output_zp", lo, hi)
        if shp == "any":
            X = new_array("x", OShape("S"), dt, lo, hi)
            i = (fresh_index(0, X.shape_.size),)
        else:
            d = tuple(new_int(f"d{k}", 1) for k in range(3))
            X = new_array("x", d, dt, lo, hi)
            i = tuple(fresh_index(0, k) for k in d)
        if which == "Tanh":
            mod = ld.load(TF + "tanh")
            L = {"ctor": lambda: mod.Tanh(s, z), "model": lambda: mod.Tanh.from_model(op("TANH", [node(s, z, "int8")], [node(so, zo, "int8")])),
                 "node": lambda: mod.Tanh.from_node(node(s, z))}[how]()
        elif which == "Sigmoid":
            mod = ld.load(TF + "logistic")
            mod.sigmoid = tf_sigmoid
            L = mod.Sigmoid(s, z) if how == "ctor" else mod.Sigmoid.from_model(op("LOGISTIC", [node(s, z, "int8")], [node(so, zo, "int8")]))
        else:
            mod = ld.load(OX + "q_linear_sigmoid")
            L = mod.QLinearSigmoid(s, z, so, zo) if how == "ctor" else mod.QLinearSigmoid.from_model(op("QLinearSigmoid", [node(s, z), node(so, zo)], []))
        x0 = X.snapshot()
        en.cover("precondition")
        y = L.infer(X)
        same_shape(en, "shape kept", y, X)
        out = y.el(*i).e
        x = toreal(X.at(*i) - z.e) * s.e
        if which == "Tanh":
            near(en, "quantised tanh of the dequantised code", out, tanh(x) * 128, lo, hi)
        elif which == "Sigmoid":
            near(en, "quantised sigmoid of the dequantised code", out, sig(x) * 256 - 128, lo, hi)
        else:
            near(en, "quantised sigmoid of the dequantised code", out, sig(x) / so.e + toreal(zo.e), lo, hi)
        unchanged(en, "input not modified", X, x0)
    return h


def quant(which, how, ty, dt):
    def h(en, ld):
        lo, hi = limits(ty)
        s, z = new_real("scale", pos=True), new_int("zero_point", lo, hi)
        s2, z2 = new_real("other_scale", pos=True), new_int("other_zp", lo, hi)
        deq = "equant" in which[1:]
        X = new_array("x", OShape("S"), dt, *((lo, hi) if deq else ()))
        i = (fresh_index(0, X.shape_.size),)
        if which == "Quantize":
            c = ld.load(TF + "quantize").Quantize
            L = c(s, z, ty) if how == "ctor" else c.from_model(op("QUANTIZE", [node(s2, z2, "float32")], [node(s, z, ty)]))
        elif which == "Dequantize":
            c = ld.load(TF + "dequantize").Dequantize
            L = c(s, z, ty) if how == "ctor" else c.from_model(op("DEQUANTIZE", [node(s, z, ty)], [node(s2, z2, "float32")]))
        elif which == "QuantizeLinear":
            c = ld.load(OX + "quantize_linear").QuantizeLinear
            L = c(s, z) if how == "ctor" else c.from_model(op(which, [node(s, z), node(s2, z2)], [node(s2, z2)]))
        else:
            c = ld.load(OX + "dequantize_linear").DequantizeLinear
            L = c(s, z) if how == "ctor" else c.from_model(op(which, [node(s, z), node(s2, z2)], [node(s2, z2)]))
        x0 = X.snapshot()
        en.cover("precondition")
        y = L.infer(X)
        same_shape(en, "shape kept", y, X)
        out = y.el(*i).e
        if deq:
            en.prove("the affine map of its own parameters", toreal(out) == toreal(X.at(*i) - z.e) * s.e)
        else:
            en.prove("the affine map of its own parameters", out == quantize_spec(X.at(*i), s.e, z.e, lo, hi))
        unchanged(en, "input not modified", X, x0)
    return h


def otanh(en, ld):
    c = ld.load(OX + "tanh").Tanh
    X = new_array("x", OShape("S"), "float64")
    i = (fresh_index(0, X.shape_.size),)
    y = c().infer(X)
    same_shape(en, "shape kept", y, X)
    en.prove("tanh of every element", y.el(*i).e == tanh(X.at(*i)))


HARNESSES = [(f"{w}[{h},{d},{s}]", act(w, h, d, s)) for w, hs in (("Tanh", ("ctor", "model", "node")), ("Sigmoid", ("ctor", "model")), ("QLinearSigmoid", ("ctor", "model")))
             for h in hs for d in (("int8", "int64") if w != "QLinearSigmoid" else ("uint8", "int64")) for s in ("any", "3d")]
HARNESSES += [(f"{w}[{h},{t},{d}]", quant(w, h, t, d)) for w, ts, ds in (
    ("Quantize", ("int8", "uint8", "int16", "int32"), ("float64", "float32")), ("Dequantize", ("int8", "uint8", "int16", "int32"), ("own", "int64")),
    ("QuantizeLinear", ("uint8",), ("float64", "float32")), ("DequantizeLinear", ("uint8",), ("own", "int64")))
    for t in ts for d0 in ds for d in [t if d0 == "own" else d0] for h in ("ctor", "model")]
HARNESSES += [("tanh", otanh)]
HARNESSES += histories(HARNESSES, "Tanh[ctor,int8,any]", "Sigmoid[model,int8,3d]", "QLinearSigmoid[ctor,uint8,3d]", "Quantize[model,int8,float64]", "Dequantize[model,uint8,uint8]")
