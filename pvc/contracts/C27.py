"""C27: graph conversion emits every node once, in order, and fuses exactly the
dequantise, tanh, quantise runs.

The source graphs are symbolic: any number of nodes whose types are arbitrary texts.
The emitted operators are described by ghosts: FROM(k) the first node of operator k,
FUSED(k) whether it is a fused one."""
import types
from .common import *
from pvc import loader as L_
from pvc.loader import LoopSpec, LOOP_SPECS, SStr, Opq, TXT, lit

I, B = z3.IntSort(), z3.BoolSort()
TYPE = z3.Function("operator_type", I, TXT)
FROM, FUSED = z3.Function("first_node", I, I), z3.Function("is_fused", I, B)
RUN = ["DequantizeLinear", "Tanh", "QuantizeLinear"]


def eng():
    return E.ENG


def text(name):
    return SStr([Opq(z3.Const(eng().fresh_name(name), TXT))])


def settings(ld):
    """the settings file: a depth and a minimum removal"""
    m = types.ModuleType("util.settings")
    m.settings = {"settings": {"lut": {"lut_depth": new_int("lut_depth", 1), "min_removal": new_int("min_removal", 0), "asymmetric": "False, "}}}
    ld.modules["util.settings"] = m
    return m.settings["settings"]["lut"]


class ONode:
    def __init__(self, i):
        self.i = z3.simplify(ix(i))
        self.op_type = SStr([Opq(TYPE(self.i))])


class Emitted:
    """the operator buildOperator returns for a candidate"""

    def __init__(self, fused, i):
        self.fused, self.i = fused, i


def pattern(i, n):
    return z3.And(i + 3 <= n, *[TYPE(i + c) == lit(t) for c, t in enumerate(RUN)])


def width(f):
    return z3.If(f, z3.IntVal(3), z3.IntVal(1))


def built(cand, model):
    """contract of buildOperator: one operator of the candidate; what the candidate is, is checked here"""
    en = eng()
    en.prove("operators are built from the model being converted", model is en.scratch["model"])
    ops = cand.operators
    if isinstance(ops, ONode):
        en.prove("a single node is converted as its own type", isinstance(cand.op_type, SStr) and z3.simplify(cand.op_type.term()).eq(z3.simplify(ops.op_type.term())))
        return Emitted(False, ops.i)
    n = L_.p_len(ops)
    ok = en.prove("a fused operator has three nodes", ix(n) == 3)
    en.prove("the fused operator is the table of tanh", cand.op_type == "TanhLUT" if not isinstance(cand.op_type, SStr) else False)
    first = L_.Helpers.getitem(ops, 0).i
    for c in range(3):
        en.prove("the fused nodes are consecutive, in order", L_.Helpers.getitem(ops, c).i == first + c)
    return Emitted(True, first)


class Walk(LoopSpec):
    """operators 0..K-1 cover the nodes before the cursor, without a gap"""

    def __init__(self, n):
        self.nodes = n

    def cursor(self, frame, v=None):
        kind_, o, k = self.where
        if v is None:
            return (getattr(o, k) if kind_ == "attr" else frame[k])
        setattr(o, k, v)

    def entry(self, frame):
        found = [("attr", o, k) for o in frame.values() if hasattr(o, "__dict__") and not callable(o) and not isinstance(o, types.ModuleType)
                 for k, v in vars(o).items() if type(v) is int and v == 0]
        found += [("var", None, k) for k in self.loop.assigned if type(frame.get(k)) is int and frame[k] == 0]
        lists = [k for k in self.loop.mutated if isinstance(frame.get(k), list) and not frame[k]]
        if len(found) != 1 or len(lists) != 1:
            raise Unsupported("traversal without one cursor and one list of operators")
        self.where, self.out = found[0], lists[0]
        eng().prove("the traversal starts with the first node", ix(self.cursor(frame)) == 0)

    def havoc(self, i, frame):
        en = eng()
        self.K = new_int("operators", 0)
        self.at = new_int("cursor", 0)
        K, at, n = self.K.e, self.at.e, self.nodes.e
        en.assume(z3.And(at <= n, FROM(0) == 0, FROM(K) == at))
        self.get0 = lambda k: Emitted(FUSED(k), FROM(k))
        m = {self.out: SList(self.K, self.get0)}
        if self.where[0] == "var":
            m[self.where[2]] = self.at
        else:
            self.cursor(frame, self.at)
        return m

    def check(self, i, frame):
        en = eng()
        out = frame[self.out]
        if self.loop.phase == "entry":
            en.prove("no operator is emitted before the first node", len(out) == 0)
            return
        K, at, n = self.K.e, self.at.e, self.nodes.e
        at2 = ix(self.cursor(frame))
        en.prove("each step emits one operator", ix(L_.p_len(out)) == K + 1)
        k = fresh_index(0, self.K)
        old = out.get(k)
        en.prove("operators emitted before stay as they are", isinstance(old, Emitted) and old.i is not None and
                 z3.And(old.i == FROM(k), z3.BoolVal(old.fused) == FUSED(k) if isinstance(old.fused, bool) else old.fused == FUSED(k)))
        new = out.get(K)
        if not isinstance(new, Emitted):
            en.prove("the operator appended is a built one", False)
            return
        f = z3.BoolVal(new.fused)
        en.prove("the next operator begins where the previous ended: no node skipped or repeated", new.i == at)
        en.prove("exactly the dequantise, tanh, quantise runs are fused", f == pattern(at, n))
        en.prove("the cursor moves past the nodes emitted", at2 == at + width(f))
        en.prove("the cursor stays within the graph", at2 <= n)


def with_spec(spec, f):
    def res(site, seq, frame):
        return spec
    res.whiles = True
    LOOP_SPECS.append(res)
    try:
        return f()
    finally:
        LOOP_SPECS.remove(res)


def onnx_graph(en, ld):
    settings(ld)
    n = new_int("nodes", 0)
    nodes = SList(n, lambda i: ONode(i))
    model = types.SimpleNamespace(graph=types.SimpleNamespace(node=nodes))
    en.scratch["model"] = model
    ld.load("helpers.buildOperator").buildOperator = built
    m = ld.load("helpers.graph")
    en.cover("precondition")
    for r in RUN:
        lit(r)
    spec = Walk(n)
    g = m.OnnxGraph(model)
    out = with_spec(spec, g.build_graph)
    en.cover("converted")
    K = spec.K.e
    en.prove("the operators returned are the ones emitted", isinstance(out, SList) and ix(out.n) == K)
    en.prove("the first operator begins with the first node", FROM(0) == 0)
    en.prove("every node up to the last is covered", FROM(K) == n.e)
    k = fresh_index(0, spec.K)
    en.prove("the operators are returned in execution order", isinstance(out.get(k), Emitted) and out.get(k).i == FROM(k))


SIMPLE = ["Tanh", "TanhLUT", "Softmax", "QuantizeLinear", "DequantizeLinear", "QLinearAdd", "QLinearMatMul", "QLinearSigmoid"]


MODULE = {"TanhLUT": "Tanh", "SigmoidLUT": "QLinearSigmoid"}


def stub_class(cls, name, made):
    """the class keeps its identity; construction and build are by contract"""
    def init(self, *a, **k):
        self.made, self.kw = a, k

    def build(self, *a):
        r = ([object()], [object()], "text")
        made.append((name, self.made, self.kw, a, r))
        return r
    cls.__init__, cls.build = init, build


def builders(ld):
    made = []
    for n in SIMPLE + ["SigmoidLUT"]:
        m = ld.load("helpers.nodeBuilders." + MODULE.get(n, n))
        if hasattr(m, n):
            stub_class(getattr(m, n), n, made)
    return made


def dispatch(name):
    def h(en, ld):
        lut = settings(ld)
        made = builders(ld)
        m = ld.load("helpers.buildOperator")
        ops, model = object(), object()
        en.cover("precondition")
        r = m.buildOperator(m.BuildOperatorCandidate(name, ops), model)
        en.cover("built")
        if not en.prove("one builder converts the candidate", len(made) == 1):
            return
        n, a, k, given, res = made[0]
        want = "SigmoidLUT" if name == "QLinearSigmoid" else name
        en.prove("the builder of the type is used", n == want)
        if want == "SigmoidLUT":
            both = list(a) + [k[x] for x in ("depth", "min_reduce") if x in k]
            en.prove("the table is reduced with the settings", len(both) == 2 and z3.And(ix(both[0]) == lut["lut_depth"].e, ix(both[1]) == lut["min_removal"].e))
        en.prove("the builder is given the nodes of the candidate and the model", given[0] is ops and given[1] is model)
        en.prove("the operator carries its type", r["op_type"] == want and r["name"] == want)
        en.prove("inputs and outputs are the builder's, not swapped", r["inputs"] is res[0] and r["outputs"] is res[1] and r["description"] is res[2])
    return h


def rejects(en, ld):
    settings(ld)
    made = builders(ld)
    m = ld.load("helpers.buildOperator")
    t = text("other_type")
    en.assume(z3.And(*[t.term() != lit(s) for s in SIMPLE]))
    en.cover("precondition")
    try:
        m.buildOperator(m.BuildOperatorCandidate(t, object()), object())
        en.prove("an operator of any other type is rejected", False)
    except ValueError:
        en.cover("rejected")
        en.prove("nothing is built for it", not made)


class Nodes:
    """stand-in of buildBaseNode.build_quantized_node: by contract (C28) the parameters of the named initialisers"""

    def __init__(self):
        self.ref = {}

    def __call__(self, model, tensor_id, scale_id, zerop_id, dtype, transpose=False):
        k = (scale_id.term().get_id(), zerop_id.term().get_id())
        if k not in self.ref:
            self.ref[k] = (new_real("scale", pos=True), new_int("zero_point", 0, 255), scale_id, zerop_id)
        s, z = self.ref[k][:2]
        return {"scale": s, "zero_point": z, "tensor": None, "model": model}


def fused_ends(en, ld):
    """the fused operator: the table from the first node's parameters to the last one's"""
    settings(ld)
    nm = "helpers.nodeBuilders."
    nodes = Nodes()
    calls = []
    ld.load(nm + "buildBaseNode").build_quantized_node = nodes
    table = SList(256, lambda i: Sym(z3.Function("table", I, I)(i), "pyint"))
    reduced = object()
    ld.load("util.quantization").create_lut = lambda *a, **k: calls.append((a, k)) or table

    class Red:
        def __init__(self, *a, **k): calls.append(("red", a, k))

        def serialize(self): return reduced
    ld.load("itcl_quantization.quantization.lut").ReducedLUT = Red
    m = ld.load(nm + "Tanh")
    mk = lambda c: types.SimpleNamespace(input=[text("in"), text("scale_id"), text("zp_id")], output=[text("out")], op_type=RUN[c])
    run = [mk(0), mk(1), mk(2)]
    model = object()
    en.cover("precondition")
    ins, outs, desc = m.TanhLUT().build(run, model)
    en.cover("built")
    par = lambda c: nodes.ref.get((run[c].input[1].term().get_id(), run[c].input[2].term().get_id()))
    a, b = par(0), par(2)
    if not en.prove("the parameters are those of the two ends", a is not None and b is not None and len(nodes.ref) == 2):
        return
    lut = [c for c in calls if c[0] != "red"]
    if not en.prove("one table is created", len(lut) == 1 and len(lut[0][0]) == 5):
        return
    f, si, zi, so, zo = lut[0][0]
    x = new_real("x")
    en.prove("it is the table of tanh", T.sym(f(x)).e == T.sym(T.f_tanh(x, "pyfloat")).e)
    en.prove("from the dequantiser's parameters", z3.And(toreal(T.sym(si).e) == a[0].e, ix(T.sym(zi)) == a[1].e))
    en.prove("to the quantiser's parameters", z3.And(toreal(T.sym(so).e) == b[0].e, ix(T.sym(zo)) == b[1].e))
    red = [c for c in calls if c[0] == "red"]
    en.prove("the node carries the table and its reduction", len(ins) == 1 and ins[0]["LUT"]["LUT"] is table and ins[0]["LUT"]["reduced_LUT"] is reduced and len(red) == 1 and red[0][1][0] is table)
    en.prove("the table's first entry is code zero", ins[0]["LUT"]["offset"] == 0)
    en.prove("nothing else is emitted", outs == [])


def model2json(en, ld):
    settings(ld)
    for n in ("onnx",):
        ld.modules[n] = types.ModuleType(n)
    m = ld.load_file("model_converters/onnx2json/2json.py", "onnx2json_main")
    ni, no = new_int("inputs", 0), new_int("outputs", 0)

    class Info:
        def __init__(self, w, i): self.w, self.i = w, z3.simplify(ix(i))
    model = types.SimpleNamespace(ir_version=object(), graph=types.SimpleNamespace(input=SList(ni, lambda i: Info("in", i)), output=SList(no, lambda i: Info("out", i))))
    graph = object()
    m.OnnxGraph = lambda mod: types.SimpleNamespace(build_graph=lambda: graph if mod is model else None)
    m.layer_info_to_tensor = lambda x: ("tensor", x.w, x.i)
    en.cover("precondition")
    r = m.model2json(model)
    en.cover("converted")
    en.prove("the operators are the converted graph", r["graph"] is graph)
    en.prove("version and engine are kept", r["ir_version"] is model.ir_version and r["engine"] == "ONNX")
    for key, w, n in (("input", "in", ni), ("output", "out", no)):
        xs = r[key]
        en.prove(f"every {key} of the model is exported once", ix(L_.p_len(xs)) == n.e)
        if not en.branch(n.e > 0):
            continue
        k = fresh_index(0, n)
        t = xs.get(k)["tensor"]
        en.prove(f"the {key}s are the model's {key}s, in order", t[1] == w and t[2] == k)


# ------------------------------------------------------------------ tflite
TF = "itcl_tflite2json"


class Names:
    """the constants of the schema: a few of them, of distinct codes"""


def tflite(ld):
    t = types.ModuleType("tflite")

    class TensorType:
        FLOAT32, INT32, UINT8, INT8 = 0, 2, 3, 9

    class BuiltinOperator:
        ADD, FULLY_CONNECTED, LOGISTIC, SOFTMAX, TANH, QUANTIZE = 0, 9, 14, 25, 28, 114
    t.TensorType, t.BuiltinOperator = TensorType, BuiltinOperator

    class Any_:
        pass
    t.Operator = t.Tensor = Any_
    t.Model = Any_
    ld.modules["tflite"] = t
    y = types.ModuleType("yaml")
    ld.modules["yaml"] = y
    s = types.ModuleType(TF + ".util.settings")
    s.settings = {"settings": {"lut": {"lut_depth": new_int("lut_depth", 1), "min_removal": new_int("min_removal", 0)}}}
    tfm, lite = types.ModuleType("tensorflow"), types.ModuleType("tensorflow.lite")
    tfm.lite = lite
    lite.Interpreter = Any_
    ld.modules["tensorflow"], ld.modules["tensorflow.lite"] = tfm, lite
    ld.modules[TF + ".util.settings"] = s
    return s.settings["settings"]["lut"], t


class STensor:
    def __init__(self, i): self.i = z3.simplify(ix(i))


class Sub:
    """a subgraph: tensors and operators by index"""

    def __init__(self, nt, nops=None, ni=None, no=None):
        self.nt, self.nops, self.ni, self.no = nt, nops, ni, no
        self.f = {k: z3.Function(k, I, I) for k in ("graph_input", "graph_output")}

    def Tensors(self, i):
        k = ix(i)
        eng().prove("tensor indices are the graph's own", z3.And(k >= 0, k < self.nt.e))
        return STensor(k)

    def _io(self, which, n, i):
        k = ix(i)
        eng().prove("graph inputs and outputs are asked for by their positions", z3.And(k >= 0, k < n.e))
        v = self.f[which](k)
        eng().assume(z3.And(v >= 0, v < self.nt.e))
        return Sym(v, "pyint")

    def Inputs(self, i): return self._io("graph_input", self.ni, i)
    def Outputs(self, i): return self._io("graph_output", self.no, i)
    def InputsLength(self): return self.ni
    def OutputsLength(self): return self.no
    def OperatorsLength(self): return self.nops

    def Operators(self, i):
        k = ix(i)
        eng().prove("operators are asked for by their positions", z3.And(k >= 0, k < self.nops.e))
        return ("operator", z3.simplify(k))


class Codes:
    def __init__(self, sub, code):
        self.sub, self.code = sub, code

    def Subgraphs(self, i):
        eng().prove("the first subgraph is converted", ix(i) == 0)
        return self.sub

    def OperatorCodes(self, i):
        return types.SimpleNamespace(BuiltinCode=lambda: self.code if i == 7 else None)


def operator_tensors(en, ld):
    """BaseOperator.build: inputs and outputs are the tensors of the source indices, in order"""
    tflite(ld)
    m = ld.load(TF + ".operators.BaseOperator")
    nt = new_int("tensors", 1)
    sub = Sub(nt)
    ni, no = new_int("inputs", 0), new_int("outputs", 0)
    ins, outs = new_array("input_index", (ni,), "int32", 0, nt.e - 1), new_array("output_index", (no,), "int32", 0, nt.e - 1)
    interp, names = object(), object()
    name = text("type_name")
    code = object()
    m.layers2str = lambda c: name if c is code else None
    model = Codes(sub, code)
    op = types.SimpleNamespace(OpcodeIndex=lambda: 7, InputsAsNumpy=lambda: ins, OutputsAsNumpy=lambda: outs)
    bad = []
    m.BaseOperator.build_from_node = staticmethod(lambda i, t, mo, nm: ("node", t.i) if i is interp and mo is model and nm is names else bad.append(1))
    en.cover("precondition")
    r = m.BaseOperator(interp, names, model).build(op)
    en.cover("built")
    en.prove("tensors are built from the same model, interpreter and names", not bad)
    en.prove("the operator carries the type of its code", all(isinstance(r[k], SStr) and r[k].term().eq(name.term()) or (isinstance(r[k], str) and not isinstance(r[k], SStr) and r[k] == "" and en.must(name.term() == lit(""))) for k in ("op_type", "name", "description")))
    for key, n, a in (("inputs", ni, ins), ("outputs", no, outs)):
        xs = r[key]
        en.prove(f"as many {key} as the source operator", ix(L_.p_len(xs)) == n.e)
        if not en.branch(n.e > 0):
            continue
        k = fresh_index(0, n)
        en.prove(f"{key} keep the tensor indices of the source", xs.get(k)[1] == a.at(k))


def operator_choice(name, mod=TF, fn="_build_from_operator"):
    """_build_from_operator: table operators for tanh and logistic, the plain one for the rest"""
    def h(en, ld):
        tflite(ld)
        m = ld.load(mod)
        used = []
        for n in ("BaseOperator", "TanhLUT", "SigmoidLUT"):
            stub_class(getattr(ld.load(f"{TF}.operators.{n}"), n), n, used)
        code, op = object(), types.SimpleNamespace(OpcodeIndex=lambda: 7)
        if name is None:
            t = text("other")
            en.assume(z3.And(t.term() != lit("TANH"), t.term() != lit("LOGISTIC")))
        else:
            t = name
        m.layers2str = lambda c: t if c is code else None
        interp, names, model = object(), object(), Codes(None, code)
        en.cover("precondition")
        r = getattr(m, fn)(interp, op, names, model)
        want = {"TANH": "TanhLUT", "LOGISTIC": "SigmoidLUT"}.get(name, "BaseOperator")
        en.prove("the operator is converted once, by the builder of its type", len(used) == 1 and used[0][0] == want and r is used[0][4])
        en.prove("it is built from the given operator and model", used[0][3][0] is op and used[0][1] == (interp, names, model))
    return h


def names_table(en, ld):
    _, t = tflite(ld)
    m = ld.load(TF + ".util.enum2str")
    en.cover("loaded")
    for cls, f in ((t.TensorType, m.dtype2str), (t.BuiltinOperator, m.layers2str)):
        for k, v in vars(cls).items():
            if not k.startswith("__"):
                en.prove("a code of the schema is exported by its own name", f(v) == k)
        en.prove("a code outside the schema has no name", f(-5) == "?")


class OneFile:
    """a TFLite file: its own interpreter, data and model of any number of tensors, operators, inputs and outputs"""
    def __init__(self, k):
        self.nt, self.nops, self.ni, self.no = (new_int(f"{n}{k}", 0) for n in ("tensors", "operators", "inputs", "outputs"))
        self.sub = sub = Sub(self.nt, self.nops, self.ni, self.no)
        self.data = object()
        self.model = types.SimpleNamespace(Subgraphs=Codes(sub, None).Subgraphs, Version=lambda: 3)
        self.fname, self.findex = z3.Function(f"tname{k}", I, TXT), z3.Function(f"tindex{k}", I, I)
        self.details = SList(new_int(f"details{k}", 0), lambda i: {"name": SStr([Opq(self.fname(i))]), "index": Sym(self.findex(i), "pyint")})
        self.interp = types.SimpleNamespace(allocate_tensors=lambda: None, get_tensor_details=lambda: self.details)
        self.tables = []


def convert(entry):
    """convert(in, out) of the package; main() of the script, over two files"""
    def h(en, ld):
        _, t = tflite(ld)
        files = {"in": OneFile("")} if entry == "convert" else {f"../models/{x}.tflite": OneFile(x) for x in "ab"}
        outs = ["out"] if entry == "convert" else [f"../models/{x}.json" for x in "ab"]
        opened = {}
        t.Model = types.SimpleNamespace(GetRootAsModel=lambda d, o: next((f.model for f in files.values() if d is f.data and o == 0), None))
        m = ld.load(TF if entry == "convert" else TF + "._tflite2json")
        m.tflite = t
        m.tfl = types.SimpleNamespace(Interpreter=lambda model_path: files[model_path].interp if model_path in files else None)
        written = []

        class F:
            def __init__(self, p, mode): self.p, self.mode = p, mode
            def __enter__(self): return self
            def __exit__(self, *a): return False
            def read(self): return files[self.p].data

        class P:
            def __init__(self, p): self.p = p
            def glob(self, pat): return [P(f) for f in files] if (self.p, pat) == ("../models", "*.tflite") else []
            def __str__(self): return self.p
        m.__dict__["open"] = lambda p, mode="r": F(str(p) if isinstance(p, P) else p, mode)
        m.__dict__["bytearray"] = lambda d: d
        m.__dict__["Path"] = P
        m.__dict__["str"] = lambda x: x.p if isinstance(x, P) else str(x)
        m.json = types.SimpleNamespace(dump=lambda d, f: written.append((d, f)))

        def own(i, mo, nm):
            for f in files.values():
                if i is f.interp and mo is f.model:
                    f.tables.append(nm)
                    return f
        m.BaseOperator.build_from_node = staticmethod(lambda i, x, mo, nm: ("node", x.i, f) if (f := own(i, mo, nm)) else ("bad", None, None))
        build = lambda i, o, nm, mo: ("op", o[1], f) if (f := own(i, mo, nm)) else ("bad", None, None)
        m.__dict__["_build_from_operator" if entry == "convert" else "build_from_operator"] = build
        en.cover("precondition")
        m.convert("in", "out") if entry == "convert" else m.main()
        en.cover("converted")
        if not en.prove("one network is written for each file, to its own output", [(w[1].p, w[1].mode) for w in written] == [(o, "w") for o in outs]):
            return
        for (net, _), f in zip(written, files.values()):
            g = net["graph"]
            en.prove("every operator is emitted once", ix(L_.p_len(g)) == f.nops.e)
            en.prove("the number of operators is recorded", ix(net["operators"]) == f.nops.e)
            if en.branch(f.nops.e > 0):
                k = fresh_index(0, f.nops)
                o = g.get(k)
                en.prove("operators are emitted in execution order", o[0] == "op" and o[2] is f and o[1] == k)
            for key, n, fn in (("input", f.ni, "graph_input"), ("output", f.no, "graph_output")):
                xs = net[key]
                en.prove(f"every {key} is exported once", ix(L_.p_len(xs)) == n.e)
                if en.branch(n.e > 0):
                    k = fresh_index(0, n)
                    x = xs.get(k)
                    en.prove(f"the {key} keeps its tensor index", x[0] == "node" and x[2] is f and x[1] == f.sub.f[fn](k))
            # the names handed on: every name maps to its own index
            if f.tables and en.branch(ix(f.details.n) > 0):
                j = fresh_index(0, f.details.n)
                en.scratch["key_index"] = lambda tx: j
                nm = f.tables[0]
                en.prove("names map to their tensor's index", ix(nm[f.details.get(j)["name"]]) == f.findex(j))
    return h


HARNESSES = [("onnx/OnnxGraph.build_graph, any nodes", onnx_graph)]
HARNESSES += [(f"onnx/buildOperator {n}", dispatch(n)) for n in SIMPLE]
HARNESSES += [("onnx/buildOperator, any other type", rejects), ("onnx/fused run: parameters of the ends", fused_ends), ("onnx/model2json", model2json),
              ("tflite/BaseOperator.build: tensor indices", operator_tensors), ("tflite/convert", convert("convert")), ("tflite/main", convert("main")), ("tflite/schema names", names_table)]
HARNESSES += [(f"tflite/_build_from_operator {n or 'any other type'}", operator_choice(n)) for n in ("TANH", "LOGISTIC", "FULLY_CONNECTED", None)]
HARNESSES += [(f"tflite/build_from_operator (main) {n or 'any other type'}", operator_choice(n, TF + "._tflite2json", "build_from_operator")) for n in ("TANH", "LOGISTIC", "FULLY_CONNECTED", None)]
