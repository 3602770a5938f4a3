"""C28: converted tensors carry the source values, scales, zero points and indices.

The ONNX initialisers are a list of arbitrary length with distinct names; tensors have
arbitrary dimensions (ranks 0-4) and contents.  The TFLite model is reached through
its accessors, the tensor values through the interpreter's."""
import types
from .common import *
from pvc import loader as L_
from pvc.loader import SStr, Opq, TXT, lit
from . import C06
from .C27 import settings, tflite, text, TF, MODULE
from pvc.symnp import RawBytes

I = z3.IntSort()
NB = "helpers.nodeBuilders."
NAME, INDEX = z3.Function("initializer_name", I, TXT), z3.Function("index_of_name", TXT, I)
S_OF, Z_OF, BYTE = z3.Function("float_data", I, z3.RealSort()), z3.Function("int32_data", I, I), z3.Function("raw_data", I, I, I)


def eng():
    return E.ENG


def named(i):
    """the i-th of distinct names"""
    eng().assume(INDEX(NAME(i)) == i)
    return SStr([Opq(NAME(i))])


class Init:
    """an initialiser: a tensor of bytes, or a float or integer parameter"""

    def __init__(self, i, dims):
        self.i = i = z3.simplify(ix(i))
        self.name = named(i)
        self.float_data = [Sym(S_OF(i), "pyfloat")]
        self.int32_data = [Sym(Z_OF(i), "pyint")]
        self.dims = list(dims)
        n = 1
        for d in dims:
            n = d * n
        self.raw_data = RawBytes(n, lambda j: BYTE(i, j))


def world(en, rank):
    """a model of arbitrarily many initialisers; the one asked for has the given rank"""
    n = new_int("initializers", 1)
    dims = [new_int("dim", 0) for _ in range(rank)]
    en.scratch["key_index"] = lambda t: INDEX(t)
    inits = SList(n, lambda i: Init(i, dims))
    return n, dims, types.SimpleNamespace(graph=types.SimpleNamespace(initializer=inits))


def element(x, idx):
    """x[i][j].. of nested lists"""
    for i in idx:
        x = L_.Helpers.getitem(x, Sym(i, "pyint"))
    return x


def lists(en, name, x, dims):
    """x is the nested list of these dimensions; returns an arbitrary index (None: empty)"""
    idx = []
    for d in dims:
        if not en.prove(f"{name}: nested lists of the tensor's dimensions", isinstance(x, (list, SList)) or (isinstance(x, SArr) and x.listy)):
            return None
        en.prove(f"{name}: nested lists of the tensor's dimensions", ix(L_.p_len(x)) == ix(d))
        if not en.branch(ix(d) > 0):
            return None
        k = fresh_index(0, d)
        idx.append(k)
        x = L_.Helpers.getitem(x, Sym(k, "pyint"))
    return tuple(idx)


def quantised(rank, transpose):
    def h(en, ld):
        m = ld.load(NB + "buildBaseNode")
        n, dims, model = world(en, rank or 0)
        s, z, t = (fresh_index(0, n, k) for k in ("scale_at", "zero_point_at", "tensor_at"))
        en.cover("precondition")
        node = m.build_quantized_node(model, None if rank is None else named(t), named(s), named(z), "uint8", *([True] if transpose else []))
        en.cover("built")
        en.prove("the scale is the named initialiser's", z3.And(toreal(T.sym(node["scale"]).e) == S_OF(s)))
        en.prove("the scale is a float", T.sym(node["scale"]).t == "pyfloat")
        en.prove("the zero point is the named initialiser's", ix(T.sym(node["zero_point"])) == Z_OF(z))
        en.prove("the zero point is an integer", T.sym(node["zero_point"]).t == "pyint")
        if rank is None:
            en.prove("no tensor is invented", node["tensor"] is None)
            return
        T_ = node["tensor"]
        want = list(reversed(dims)) if transpose else dims
        en.prove("the tensor keeps its type", T_["dtype"] == "uint8")
        en.prove("the shape is the source's", len(T_["shape"]) == rank and z3.And(True, *[ix(a) == ix(b) for a, b in zip(T_["shape"], want)]))
        idx = lists(en, "values", T_["tensor"], want)
        if idx is None:
            return
        v = T.sym(element(T_["tensor"], idx))
        src = tuple(reversed(idx)) if transpose else idx
        en.prove("values are the source's bytes, in order", z3.And(v.e == BYTE(t, A.flat(src, dims) if src else z3.IntVal(0))))
        en.prove("values are integers", v.t == "pyint")
    return h


VI = z3.Function("value_info_name", I, TXT)
DIM = z3.Function("value_info_dim", I, I)


class Info:
    """a value: name and type; places: value_info i >= 0, input -1-i, output -1000-i"""

    def __init__(self, i, nm):
        self.i, self.name = i, nm
        d = lambda j: types.SimpleNamespace(dim_value=Sym(DIM(i), "pyint") if j == 1 else object())
        self.type = types.SimpleNamespace(tensor_type=types.SimpleNamespace(shape=types.SimpleNamespace(dim=[d(0), d(1)])))


def base_world(en):
    n = new_int("values", 0)
    en.scratch["key_index"] = lambda t: INDEX(t)

    def vi(i):
        en.assume(INDEX(VI(i)) == i)
        return Info(i, SStr([Opq(VI(i))]))
    gi, go = text("input_name"), text("output_name")
    # the graph's input and output are not among its inner values
    for g in (gi, go):
        en.assume(z3.Or(INDEX(g.term()) < 0, INDEX(g.term()) >= n.e, VI(INDEX(g.term())) != g.term()))
    en.assume(gi.term() != go.term())
    g = types.SimpleNamespace(value_info=SList(n, vi), input=[Info(z3.IntVal(-1), gi)], output=[Info(z3.IntVal(-2), go)])
    return n, gi, go, types.SimpleNamespace(graph=g)


def base_node(where):
    def h(en, ld):
        m = ld.load(NB + "buildBaseNode")
        n, gi, go, model = base_world(en)
        if where == "inner":
            k = fresh_index(0, n)
            en.assume(INDEX(VI(k)) == k)
            want, key = k, SStr([Opq(VI(k))])
        elif where == "first":
            en.assume(z3.And(n.e > 0, INDEX(VI(0)) == 0))
            want, key = z3.IntVal(0), SStr([Opq(VI(0))])
        elif where in ("input", "output"):
            want, key = (z3.IntVal(-1), gi) if where == "input" else (z3.IntVal(-2), go)
        else:
            key = text("unknown")
            t = key.term()
            en.assume(z3.And(t != gi.term(), t != go.term(), z3.Or(INDEX(t) < 0, INDEX(t) >= n.e, VI(INDEX(t)) != t)))
        en.cover("precondition")
        try:
            node = m.build_base_node(model, key)
        except ValueError:
            en.cover("rejected")
            en.prove("only a name the graph does not have is rejected", where == "unknown")
            return
        en.cover("built")
        if not en.prove("a name the graph does not have is rejected", where != "unknown"):
            return
        t = node["tensor"]
        en.prove("the tensor carries the name asked for", isinstance(t["name"], SStr) and t["name"].term() == key.term())
        en.prove("the tensor carries the size of the value of that name", ix(T.sym(t["shape"])) == DIM(want))
        en.prove("a value has no contents and no parameters", t["tensor"] is None and node["scale"] is None and node["zero_point"] is None)
    return h


class Rec:
    """stand-in of a function proved above: records its calls"""

    def __init__(self, sig):
        self.sig, self.calls = sig, []

    def __call__(self, *a, **k):
        args = dict(zip(self.sig, a))
        args.update(k)
        node = {"scale": new_real("scale", pos=True), "zero_point": new_int("zero_point", 0, 255), "tensor": None}
        self.calls.append((args, node))
        return node


def rec_nodes(ld):
    m = ld.load(NB + "buildBaseNode")
    m.build_quantized_node = Rec(["model", "tensor_id", "scale_id", "zerop_id", "dtype", "transpose"])
    m.build_base_node = Rec(["model", "tensor_id"])
    return m.build_quantized_node, m.build_base_node


def onnx_node(n_in):
    return types.SimpleNamespace(input=[text(f"in{i}") for i in range(n_in)], output=[text("out")])


# operator: (number of inputs, [(tensor, scale, zero point, transposed)] by input position)
QNODES = {"QuantizeLinear": (3, [(None, 1, 2, False)]), "DequantizeLinear": (3, [(None, 1, 2, False)]),
          "QLinearAdd": (8, [(None, 1, 2, False), (3, 4, 5, False), (None, 6, 7, False)]),
          "QLinearMatMul": (8, [(None, 1, 2, False), (3, 4, 5, True), (None, 6, 7, False)]),
          "QLinearSigmoid": (5, [(None, 1, 2, False), (None, 3, 4, False)])}


def builder(name):
    def h(en, ld):
        settings(ld)
        q, b = rec_nodes(ld)
        n, spec = QNODES[name]
        m = ld.load(NB + name)
        node, model = onnx_node(n), object()
        en.cover("precondition")
        ins, outs, _ = getattr(m, name)().build(node, model)
        en.cover("built")
        same = lambda a, b: (a is None and b is None) or (a is not None and b is not None and a.term().eq(b.term()))
        pick = lambda i: None if i is None else node.input[i]
        if not en.prove("one node per quantised operand", len(ins) == len(spec) and outs == []):
            return
        for k, (t, s, z, tr) in enumerate(spec):
            c = [a for a, r in q.calls if r is ins[k]]
            if not en.prove("nodes are the built ones", len(c) == 1):
                continue
            c = c[0]
            en.prove(f"operand {k}: built from the model", c["model"] is model)
            en.prove(f"operand {k}: its own tensor", same(c.get("tensor_id"), pick(t)))
            en.prove(f"operand {k}: its own scale", same(c["scale_id"], pick(s)))
            en.prove(f"operand {k}: its own zero point", same(c["zerop_id"], pick(z)))
            en.prove(f"operand {k}: unsigned 8-bit", c["dtype"] == "uint8")
            en.prove(f"operand {k}: weights as outputs by inputs", bool(c.get("transpose", False)) == tr)
    return h


def float_builder(name):
    def h(en, ld):
        settings(ld)
        q, b = rec_nodes(ld)
        m = ld.load(NB + name)
        node, model = onnx_node(1), object()
        en.cover("precondition")
        ins, outs, _ = getattr(m, name)().build(node, model)
        en.cover("built")
        for what, xs, key in (("input", ins, node.input[0]), ("output", outs, node.output[0])):
            c = [a for a, r in b.calls if len(xs) == 1 and r is xs[0]]
            en.prove(f"the {what} is the node of the operator's own {what}", len(c) == 1 and c[0]["model"] is model and c[0]["tensor_id"].term().eq(key.term()))
    return h


def act(name, x):
    return T.sym(T.f_tanh(x, "pyfloat")).e if name == "tanh" else z3.RealVal(1) / (1 + T.sym(T.f_exp(Sym(-x.e, "pyfloat"), "pyfloat")).e)


def stub_reduced(ld):
    red = []

    class Red:
        def __init__(self, lut, depth, min_reduce, asymmetric=False):
            self.r = object()
            red.append((lut, depth, min_reduce, asymmetric, self.r))

        def serialize(self): return self.r
    ld.load("itcl_quantization.quantization.lut").ReducedLUT = Red
    return red


def table(en, name, L, s, z, so, zo, lo, hi):
    """L holds the quantised activation of every code"""
    n = hi - lo + 1
    if not en.prove("the table is a list of one entry per code", isinstance(L, (list, SList)) and z3.simplify(ix(L_.p_len(L))).eq(z3.IntVal(n))):
        return
    k = fresh_index(0, n)
    v = T.sym(L_.Helpers.getitem(L, Sym(k, "pyint")))
    x = Sym(toreal(lo + k - z) * s, "pyfloat")
    y = act(name, x)
    en.prove("entries are the quantised activation of their code, under the exported parameters", v.e == clipz(z3.ToInt(y / so + toreal(zo) + z3.Q(1, 2)), lo, hi))
    en.prove("entries are integers", v.t == "pyint")


def reduced_ok(en, red, L, node_lut, depth, minr):
    en.prove("the reduced table is of the same table", len(red) == 1 and red[0][0] is L and node_lut["reduced_LUT"] is red[0][4])
    if len(red) == 1:
        en.prove("the table is reduced with the settings", z3.And(ix(red[0][1]) == ix(depth), ix(red[0][2]) == ix(minr)))


def onnx_tanh(en, ld):
    settings(ld)
    q, b = rec_nodes(ld)
    red = stub_reduced(ld)
    m = ld.load(NB + "Tanh")
    run = [onnx_node(3), onnx_node(1), onnx_node(3)]
    d, r = new_int("depth", 1), new_int("min_reduce", 0)
    en.cover("precondition")
    ins, outs, _ = m.TanhLUT(d, r).build(run, object())
    en.cover("built")
    par = lambda n: [res for a, res in q.calls if a["scale_id"].term().eq(n.input[1].term()) and a["zerop_id"].term().eq(n.input[2].term())]
    a, c = par(run[0]), par(run[2])
    if not en.prove("the parameters are those of the two ends", len(a) == 1 and len(c) == 1 and len(ins) == 1 and outs == []):
        return
    L = ins[0]["LUT"]
    table(en, "tanh", L["LUT"], a[0]["scale"].e, a[0]["zero_point"].e, c[0]["scale"].e, c[0]["zero_point"].e, 0, 255)
    en.prove("code zero is the first entry", L["offset"] == 0)
    reduced_ok(en, red, L["LUT"], L, d, r)


def onnx_sigmoid(en, ld):
    settings(ld)
    q, b = rec_nodes(ld)
    red = stub_reduced(ld)
    m = ld.load(NB + "QLinearSigmoid")
    node = onnx_node(5)
    d, r = new_int("depth", 1), new_int("min_reduce", 0)
    en.cover("precondition")
    ins, outs, _ = m.SigmoidLUT(d, r).build(node, object())
    en.cover("built")
    par = lambda s, z: [res for a, res in q.calls if a["scale_id"].term().eq(node.input[s].term()) and a["zerop_id"].term().eq(node.input[z].term())]
    a, c = par(1, 2), par(3, 4)
    if not en.prove("the parameters are those of input and output", len(a) >= 1 and len(c) >= 1 and len(ins) == 1 and outs == []):
        return
    L = ins[0]["LUT"]
    table(en, "sigmoid", L["LUT"], a[0]["scale"].e, a[0]["zero_point"].e, c[0]["scale"].e, c[0]["zero_point"].e, 0, 255)
    en.prove("code zero is the first entry", L["offset"] == 0)
    en.prove("the node carries the input's parameters", z3.And(toreal(T.sym(ins[0]["scale"]).e) == a[0]["scale"].e, ix(T.sym(ins[0]["zero_point"])) == a[0]["zero_point"].e))
    reduced_ok(en, red, L["LUT"], L, d, r)


# ------------------------------------------------------------------ tflite
class Details:
    """interpreter tensors, by index"""


def tensor_node(rank, dtype, quant, data=True):
    def h(en, ld):
        _, t = tflite(ld)
        m = ld.load(TF + ".operators.BaseOperator")
        name = text("tensor_name")
        en.assume(name.term() != lit(""))
        shape = [new_int("dim", 0) for _ in range(rank)]
        vals = new_array("values", tuple(shape), dtype) if rank else new_array("values", (), dtype)
        index = new_int("tensor_index", 0)
        asked = []
        interp = types.SimpleNamespace(get_tensor=lambda i: asked.append(i) or vals)
        names = {}

        class Map(dict):
            def get(self, k, d=None):
                return index if isinstance(k, SStr) and k.term().eq(name.term()) else d

            def __getitem__(self, k):
                return self.get(k)
        buf = object() if data else 0
        model = types.SimpleNamespace(Buffers=lambda i: types.SimpleNamespace(DataAsNumpy=(lambda: buf) if i == 5 else None))
        s, z = new_real("scale", t="float32", pos=True), new_int("zero_point", -128, 127, t="int64")
        one = lambda v, ty: SArr((1,), ty, lambda i: v.e)
        if quant == "none":
            q = None
        elif quant == "empty":
            q = types.SimpleNamespace(ScaleAsNumpy=lambda: 0, ZeroPointAsNumpy=lambda: 0)
        else:
            q = types.SimpleNamespace(ScaleAsNumpy=lambda: one(s, "float32"), ZeroPointAsNumpy=lambda: one(z, "int64"))

        class Raw:
            def decode(self, enc="utf8"): return name
        dims = SArr((rank,), "int32", lambda i: pick(i[0], shape))
        code = {"float32": 0, "int32": 2, "uint8": 3, "int8": 9}[dtype]
        node = types.SimpleNamespace(Name=lambda: Raw(), Buffer=lambda: 5, Quantization=lambda: q, ShapeAsNumpy=lambda: dims, Type=lambda: code)
        en.cover("precondition")
        r = m.BaseOperator.build_from_node(interp, node, model, Map())
        en.cover("built")
        if quant == "params":
            en.prove("the scale is the tensor's", z3.And(toreal(T.sym(r["scale"]).e) == toreal(s.e)) if r["scale"] is not None else False)
            en.prove("the zero point is the tensor's", ix(T.sym(r["zero_point"])) == z.e if r["zero_point"] is not None else False)
            en.prove("they are python numbers", T.sym(r["scale"]).t == "pyfloat" and T.sym(r["zero_point"]).t == "pyint" if r["scale"] is not None and r["zero_point"] is not None else False)
        else:
            en.prove("no parameters are invented", r["scale"] is None and r["zero_point"] is None)
        x = r["tensor"]
        en.prove("the tensor keeps its name", isinstance(x["name"], SStr) and x["name"].term().eq(name.term()))
        en.prove("the tensor keeps its type", x["dtype"] == {"float32": "FLOAT32", "int32": "INT32", "uint8": "UINT8", "int8": "INT8"}[dtype])
        en.prove("the tensor keeps its shape", isinstance(x["shape"], list) and len(x["shape"]) == rank and z3.And(True, *[ix(T.sym(a)) == b.e for a, b in zip(x["shape"], shape)]))
        if not data:
            en.prove("a tensor without contents is exported without", x["tensor"] is None)
            return
        en.prove("the values are read once, at the tensor's index", len(asked) == 1 and asked[0] is index)
        if not rank:
            v = T.sym(x["tensor"])
            en.prove("values are the source's, in order", v.e == vals.at())
            return
        idx = lists(en, "values", x["tensor"], shape)
        if idx is None:
            return
        v = T.sym(element(x["tensor"], idx))
        en.prove("values are the source's, in order", v.e == vals.at(*idx))
    return h


def pick(i, xs):
    i = z3.simplify(i)
    r = z3.IntVal(0)
    for k, x in enumerate(xs):
        r = z3.If(i == k, x.e, r)
    return z3.simplify(r)


def tflite_table(kind_, params=True):
    def h(en, ld):
        lut, _ = tflite(ld)
        red = stub_reduced(ld)
        leaf, cls, fn, name = ("TanhLUT", "TanhLUT", "tanh", "TANHLUT") if kind_ == "tanh" else ("SigmoidLUT", "SigmoidLUT", "sigmoid", "SIGMOIDLUT")
        m = ld.load(f"{TF}.operators.{leaf}")
        base = ld.load(TF + ".operators.BaseOperator").BaseOperator
        mk = lambda k: {"scale": new_real(k + "_scale", pos=True) if params else None, "zero_point": new_int(k + "_zp", -128, 127) if params else None, "tensor": object()}
        i, o = mk("in"), mk("out")
        i0, o0 = dict(i), dict(o)
        op = {"op_type": "X", "name": "X", "description": "D", "inputs": [i], "outputs": [o]}
        src = object()
        given = []
        base.build = lambda self, operator: given.append(operator) or op
        en.cover("precondition")
        r = getattr(m, cls)(object(), object(), object()).build(src)
        en.cover("built")
        en.prove("the operator is built from the source operator", given == [src])
        en.prove("it is a table operator", r["op_type"] == name and r["name"] == name)
        en.prove("inputs and outputs are kept", len(r["inputs"]) == 1 and len(r["outputs"]) == 1)
        for a, b in ((r["inputs"][0], i0), (r["outputs"][0], o0)):
            en.prove("their parameters and tensors are kept", all(a[k] is b[k] for k in b))
        L = r["inputs"][0]["LUT"]
        p = (i0["scale"].e, i0["zero_point"].e, o0["scale"].e, o0["zero_point"].e) if params else (z3.RealVal(1), z3.IntVal(0), z3.RealVal(1), z3.IntVal(0))
        table(en, fn, L["LUT"], *p, -128, 127)
        en.prove("code zero is entry 128", L["offset"] == 128)
        reduced_ok(en, red, L["LUT"], L, lut["lut_depth"], lut["min_removal"])
    return h


HARNESSES = [("onnx/build_quantized_node, parameters only", quantised(None, False))]
HARNESSES += [(f"onnx/build_quantized_node, rank {r}{' transposed' if t else ''}", quantised(r, t)) for r in range(5) for t in (False, True) if r or not t]
HARNESSES += [(f"onnx/build_base_node, {w} value", base_node(w)) for w in ("inner", "first", "input", "output", "unknown")]
HARNESSES += [(f"onnx/{n}", builder(n)) for n in QNODES]
HARNESSES += [(f"onnx/{n}", float_builder(n)) for n in ("Tanh", "Softmax")]
HARNESSES += [("onnx/TanhLUT", onnx_tanh), ("onnx/SigmoidLUT", onnx_sigmoid)]
HARNESSES += [(f"tflite/tensor rank {r} {d}", tensor_node(r, d, "params")) for r, d in ((0, "int8"), (1, "int32"), (2, "int8"), (2, "uint8"), (3, "float32"), (4, "int8"))]
HARNESSES += [(f"tflite/tensor without contents, {q}", tensor_node(2, "int8", q, False)) for q in ("params", "empty", "none")]
HARNESSES += [(f"tflite/tensor, {q}", tensor_node(2, "float32", q)) for q in ("empty", "none")]
HARNESSES += [(f"tflite/{k} table{'' if p else ' without parameters'}", tflite_table(k, p)) for k in ("tanh", "sigmoid") for p in (True, False)]
