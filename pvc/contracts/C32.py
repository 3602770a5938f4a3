"""C32: a float network is quantised as the chain of its layers.

The chain is proved for any number of layers by a loop contract over the layers'
contracts (ghosts KEPT: layers kept before layer i, LAST: the last of them), the flat
list of operators for any number of results of any number of operators each."""
import inspect
import types
from .common import *
from pvc import loader as L_
from pvc.loader import LoopSpec, LOOP_SPECS
from .C20 import QM, TM
from .C21 import DM
from .C23 import AL
from . import C31

I, B = z3.IntSort(), z3.BoolSort()
KB = "itcl_quantizer.tensor_extractor.keras.keras_builder"
NW = "itcl_quantizer.util.network"
OP = "itcl_quantizer.tensor_extractor.operator"
KI = "itcl_quantizer.tensor_extractor.keras.layers.keras_input"
DQ = "itcl_quantizer.tensor_extractor.keras.layers.dequantize"
SKIP = z3.Function("layer_is_skipped", I, B)
KEPT, LAST = z3.Function("layers_kept_before", I, I), z3.Function("last_layer_kept_before", I, I)
NONE, CNT, OFF = z3.Function("no_operators", I, B), z3.Function("operators_of", I, I), z3.Function("operators_before", I, I)


def eng():
    return E.ENG


def load(ld):
    C31.load(ld)
    return ld.load(KB)


# ---------------------------------------------------------------- the chain
class Res:
    """quantisation result of layer i (-1: the input)"""

    def __init__(self, i, kind_="layer"):
        self.i, self.kind = z3.simplify(ix(i)), kind_

    def __getattr__(self, n):
        raise Unsupported(f"field {n} of a result read by the chain")


class Lay:
    def __init__(self, i):
        self.i = z3.simplify(ix(i))


class Quantizer:
    def __init__(self, i):
        self.i = i

    def quantize(self, prev):
        en = eng()
        ok = isinstance(prev, Res)
        en.prove("a layer is quantised after the last layer kept before it", ok and prev.kind in ("layer", "input") and prev.i == LAST(self.i))
        return Res(self.i)


class Chain(LoopSpec):
    def __init__(self, first):
        self.first = first

    def entry(self, frame):
        names = sorted(set(self.loop.assigned) | set(self.loop.mutated))
        self.lists = [k for k in names if isinstance(frame.get(k), list) and len(frame[k]) == 1 and frame[k][0] is self.first]
        self.prev = [k for k in names if frame.get(k) is self.first]
        if len(self.lists) != 1:
            raise Unsupported("results not kept in one list that begins with the input's")
        self.out = self.lists[0]

    def havoc(self, i, frame):
        en = eng()
        en.assume(z3.And(KEPT(0) == 0, LAST(0) == -1, KEPT(i) >= 0, LAST(i) >= -1, LAST(i) < z3.If(i > 0, i, 0)))
        pos = self.pos = z3.Function(en.fresh_name("layer_of_result"), I, I)
        en.assume(z3.And(pos(0) == -1, pos(KEPT(i)) == LAST(i)))

        def get(t):
            t = z3.simplify(t)
            if en.must(t == 0):
                return self.first
            if en.must(t == KEPT(i)):
                return Res(LAST(i))
            return Res(pos(t))
        m = {self.out: SList(Sym(z3.simplify(KEPT(i) + 1), "pyint"), get)}
        for k in self.prev:
            m[k] = Res(LAST(i))
        return m

    def check(self, i, frame):
        en = eng()
        out = frame[self.out]
        if self.loop.phase == "entry":
            en.prove("the chain begins with the input", len(out) == 1)
            return
        j = self.loop.i
        skip = SKIP(j)
        en.assume(z3.And(KEPT(j + 1) == KEPT(j) + z3.If(skip, 0, 1), LAST(j + 1) == z3.If(skip, LAST(j), j)))     # ghosts
        en.prove("one result per layer kept", ix(L_.p_len(out)) == KEPT(j + 1) + 1)
        t = fresh_index(0, Sym(z3.simplify(KEPT(j) + 1), "pyint"))
        old = out.get(t) if isinstance(out, SList) else L_.Helpers.getitem(out, Sym(t, "pyint"))
        en.prove("results kept before stay as they are", isinstance(old, Res) and old.i == self.pos(t))
        if not en.branch(skip):
            new = out.get(z3.simplify(KEPT(j) + 1)) if isinstance(out, SList) else out[-1]
            en.prove("the result of the layer follows", isinstance(new, Res) and new.kind == "layer" and new.i == j)
        for k in self.prev:
            v = frame[k]
            en.prove("the result passed on is that of the last layer kept", isinstance(v, Res) and v.i == LAST(j + 1))


def chain(en, ld):
    m = load(ld)
    cfg = types.SimpleNamespace(quantize=types.SimpleNamespace(dtype="int9"))
    data = new_array("data", (new_int("samples", 1), new_int("features", 1)), "float64")
    n = new_int("layers", 0)
    layers = SList(n, lambda i: Lay(i))
    first = Res(-1, "input")
    state = types.SimpleNamespace(dq=[])

    class In:
        def __init__(self, q):
            en.prove("the input is quantised to the type configured", str(q.dtype_str()) == "int9")

        def quantize(self, r):
            en.prove("the input is quantised over the representative data", r.input_data is data)
            return first

    class Out:
        def quantize(self, prev):
            state.dq.append(prev)
            return Res(n.e, "output")

    def get(layer, c):
        en.prove("every layer by its own configuration", isinstance(layer, Lay) and c is cfg)
        return None if en.branch(SKIP(layer.i)) else Quantizer(layer.i)
    m.KerasInput, m.Dequantize, m.get_layer_quantizer = In, Out, get
    spec = Chain(first)
    res = lambda site, seq, frame: spec if seq is not None else None
    LOOP_SPECS.append(res)
    en.cover("precondition")
    r = m._quantize(layers, data, cfg)
    en.cover("quantised")
    en.assume(z3.And(KEPT(n.e) >= 0))
    if en.prove("input, layers kept and output", isinstance(r, SList) and ix(r.n) == KEPT(n.e) + 2):
        a, b = r.get(z3.IntVal(0)), r.get(z3.simplify(KEPT(n.e) + 1))
        en.prove("the input comes first", isinstance(a, Res) and a.i == -1)
        en.prove("the output comes last", isinstance(b, Res) and b.kind == "output")
        t = fresh_index(0, Sym(z3.simplify(KEPT(n.e) + 1), "pyint"))
        x = r.get(t)
        en.prove("the layers kept in between", isinstance(x, Res) and x.i == spec.pos(t))
    en.prove("one output, of the last layer kept", len(state.dq) == 1 and isinstance(state.dq[0], Res) and state.dq[0].i == LAST(n.e))


# -------------------------------------------------------------- the ends
def data_in(t):
    def h(en, ld):
        C31.load(ld)
        m, qm, al = ld.load(KI), ld.load(QM), ld.load(AL)
        C31.Dist.made = []
        m.Distribution = ld.load(DM).Distribution = C31.Dist
        X = new_array("x", (new_int("samples", 1), new_int("features", 1)), "float64")
        x0 = X.snapshot()
        k = m.KerasInput(qm.Quantization(t))
        en.cover("precondition")
        r = k.quantize(al.QuantizationResult(X, None, None, k))
        i = tuple(fresh_index(0, d) for d in X.shape_)
        nd = r.out_node
        d = C31.source(en, nd, "input")
        C31.own(en, d.data, X.shape_, i, toreal(x0(i)), "input parameters")
        C31.own(en, nd.fp_tensor, X.shape_, i, toreal(x0(i)), "input data")
        lo, hi = tlimits(t)
        en.prove("input codes", ix(nd.quantized.at(*i)) == quantize_spec(toreal(x0(i)), define(en, "scale", C31.rl(nd.scale)), ix(T.sym(nd.zero_point).e), lo, hi))
        en.prove("the next layer reads the data", r.input_data is X)
        en.prove("one operator with the node as its output", len(r.operators) == 1 and len(r.operators[0].inputs) == 0 and len(r.operators[0].outputs) == 1 and r.operators[0].outputs[0] is nd)
        en.prove("later steps find the layer", r.layer is k)
        j = r.operators[0].as_json()
        en.prove("exported as the quantisation", j["op_type"] == "QUANTIZE" and "QUANT" in j["name"].upper() and j["inputs"] == [])
        o = j["outputs"][0]
        en.prove("exported parameters", z3.And(C31.rl(o["scale"]) == C31.rl(nd.scale), T.sym(o["zero_point"]).e == T.sym(nd.zero_point).e))
        en.prove("exported type, no data", o["tensor"]["dtype"] == t and o["tensor"]["tensor"] is None)
    return h


def data_out(en, ld):
    C31.load(ld)
    m, al, om = ld.load(DQ), ld.load(AL), ld.load(OP)
    n, k = new_int("operators", 0), new_int("outputs", 1)
    outs = SList(k, lambda j: Tok("out", j))
    ops = SList(n, lambda i: types.SimpleNamespace(i=ix(i), outputs=outs if en.must(ix(i) == n.e - 1) else Poison()))
    X = object()
    q = m.Dequantize()
    en.cover("precondition")
    try:
        r = q.quantize(al.QuantizationResult(X, ops, None, None))
    except ValueError:
        en.prove("only a result without operators is rejected", n.e == 0)
        return
    en.prove("a result without operators is rejected", n.e > 0)
    en.prove("one operator", len(r.operators) == 1)
    op = r.operators[0]
    a = op.inputs[0] if len(op.inputs) == 1 else None
    en.prove("it reads the last output of the last operator", isinstance(a, Tok) and a.i == k.e - 1)
    en.prove("it has no output node", list(op.outputs) == [] and r.out_node is None)
    en.prove("the data are passed on", r.input_data is X)
    en.prove("later steps find the layer", r.layer is q)
    en.prove("its type", op._op_type == "DEQUANTIZE")


class Poison:
    def __getattr__(self, n):
        raise Unsupported("another operator than the last one")

    __getitem__ = __len__ = __iter__ = lambda self, *a: (_ for _ in ()).throw(Unsupported("another operator than the last one"))


class Tok:
    """a node or an operator; its description is that of the moment"""

    def __init__(self, kind_, i, j=None, now=None):
        self.kind, self.i, self.j, self.now = kind_, z3.simplify(ix(i)), None if j is None else z3.simplify(ix(j)), now

    def as_json(self):
        return ("json", self.kind, self.i, self.j, self.now[0] if self.now else None)


def described(en, ld):
    C31.load(ld)
    om = ld.load(OP)
    n, k = new_int("inputs", 0), new_int("outputs", 0)
    atts = {"a": {"value": [1], "dtype": "int"}}
    d = en.choose(2)
    op = om.Operator("KIND", "name", SList(n, lambda i: Tok("in", i)), SList(k, lambda i: Tok("out", i)), None, atts)
    if d:
        op.set_description("text")
    en.cover("precondition")
    j = op.as_json()
    en.prove("type, name, attributes", j["op_type"] == "KIND" and j["name"] == "name" and j["attributes"] == atts)
    en.prove("description", j["description"] == ("text" if d else "name"))
    for key, c, kind_ in (("inputs", n, "in"), ("outputs", k, "out")):
        v = j[key]
        en.prove(f"{key}: one each", ix(L_.p_len(v)) == c.e)
        if en.branch(c.e > 0):
            t = fresh_index(0, c)
            x = L_.Helpers.getitem(v, Sym(t, "pyint"))
            en.prove(f"{key}: each in its place", isinstance(x, tuple) and x[1] == kind_ and x[2] == t)


# ------------------------------------------------------- a layer of the chain
class Part(C31.Dist):
    """a distribution, or the part of one between two values"""

    def __init__(self, data, part=None):
        super().__init__(data)
        self.part = part

    def __getitem__(self, key):
        if not isinstance(key, slice) or self.part is not None or key.step is not None:
            raise Unsupported("a part of a part, or one bin")
        return Part(self.data, (key.start, key.stop))

    def get_min(self):
        return new_real("dist_min")

    get_max = get_min


PASSED = {"linear": lambda y: y, "softmax": lambda y: y, "relu": lambda y: z3.If(y > 0, y, z3.RealVal(0)), "relu6": lambda y: z3.If(y > 6, z3.RealVal(6), z3.If(y > 0, y, z3.RealVal(0)))}


def dense(act, ft, types_=None):
    """a dense layer's nodes are those of its own float outputs, its float output is passed on"""
    def h(en, ld):
        C31.load(ld)
        tm, qm, km, al, am = (ld.load(x) for x in (TM, QM, "itcl_quantizer.tensor_extractor.keras.layers.keras_dense", AL, "itcl_quantizer.tensor_extractor.keras.layers.activations"))
        C31.Dist.made = []
        am.Distribution = km.Distribution = ld.load(DM).Distribution = Part
        inp, units, b = new_int("inputs", 1), new_int("units", 1), new_int("batch", 1)
        W, Bi, X, Y = new_array("w", (inp, units), ft), new_array("b", (units,), ft), new_array("x", (b, inp), "float64"), new_array("y", (b, units), "float64")
        y0, x0 = Y.snapshot(), X.snapshot()
        FN = PASSED.get(act) or C31.TANH

        class Fn:
            __name__ = act
            __call__ = staticmethod(C31.elementwise(FN))

            def __deepcopy__(self, memo):
                return self

        class Layer(km.keras.layers.Dense):
            def __init__(self, fn):
                self.name, self.activation = "dense", fn

            def get_weights(self):
                return [W, Bi]

            def __deepcopy__(self, memo):
                return Layer(self.activation)

            def __call__(self, x):
                if x is not X:
                    raise Unsupported("the layer on other data")
                return Y if self.activation is None else self.activation(Y)
        lay = Layer(Fn())
        kw = types_ or {}
        kd = km.KerasDense(lay, **kw)
        inn = tm.NodeTensorBase(new_real("in_scale", pos=True), new_int("in_zero_point", -128, 127), "input", qm.Quantization("int8")).with_tensor(X)
        en.cover("precondition")
        r = kd.quantize(al.QuantizationResult(X, None, inn, None))
        i, u = fresh_index(0, b), fresh_index(0, units)
        y = toreal(y0((i, u)))
        fused = act not in ("tanh", "sigmoid")
        if not en.prove("the sums, and an activation of its own unless fused", len(r.operators) == (1 if fused else 2)):
            return
        fc = r.operators[0]
        en.prove("the layer reads the node before", len(fc.inputs) == 3 and fc.inputs[0] is inn and len(fc.outputs) == 1)
        nd = fc.outputs[0]
        d = C31.source(en, nd, "sums")
        C31.own(en, d.data, (b, units), (i, u), y, "parameters of the sums")
        en.prove("the sums that the activation can tell apart", d.part == {"relu": (0, None), "relu6": (0, 6)}.get(act))
        en.prove("type of the sums", str(nd.quant.dtype_str()) == kw.get("bias_add_dtype", "int8"))
        C31.own(en, nd.fp_tensor, (b, units), (i, u), y, "sums")
        j = fc.as_json()["outputs"][0]
        en.prove("exported shape of the sums: that of one sample", len(j["tensor"]["shape"]) == 1)
        en.prove("one sum per unit in the export", ix(j["tensor"]["shape"][0]) == units.e)
        en.prove("no data exported", j["tensor"]["tensor"] is None)
        out = nd
        if not fused:
            op = r.operators[1]
            out = op.outputs[0]
            en.prove("the activation reads the sums", len(op.inputs) == 1 and op.inputs[0] is nd and len(op.outputs) == 1)
            d = C31.source(en, out, "activation")
            C31.own(en, d.data, (b, units), (i, u), FN(y), "parameters of the activation")
            en.prove("all of the activation", d.part is None)
            en.prove("type of the activation", str(out.quant.dtype_str()) == kw.get("activation_dtype", "int8"))
            C31.own(en, out.fp_tensor, (b, units), (i, u), FN(y), "activation")
            en.prove("its table", nd.LUT is not None)
            j = op.as_json()["outputs"][0]
            en.prove("one value per unit in the export", z3.And(len(j["tensor"]["shape"]) == 1, ix(j["tensor"]["shape"][0]) == units.e))
        en.prove("the last node is passed on", r.out_node is out)
        C31.own(en, as_array(r.input_data), (b, units), (i, u), FN(y), "the float output is passed on")
        en.prove("later steps find the layer", r.layer is kd)
        unchanged(en, "the data given are left alone", X, x0)
        unchanged(en, "the float sums are left alone", Y, y0)
    return h


# ------------------------------------------------------------- dispatch
NEAR = ("other", "thi", "", "THIS", "this_1", "his", "t", "model/this", "this/x", " this", "Dense", "dense")


def dispatch(kind_, own):
    def h(en, ld):
        m = load(ld)
        tf = ld.modules["tensorflow"]
        seen = []

        def recorder(real, name):
            sig = inspect.signature(real.__init__)

            class Made:
                def __init__(self, *a, **k):
                    b = sig.bind(self, *a, **k)
                    b.apply_defaults()
                    self.args, self.kind = dict(b.arguments), name
                    seen.append(self)
            return Made
        m.KerasDense, m.KerasLSTM = recorder(ld.load(C31.KL.replace("_lstm", "_dense")).KerasDense, "dense"), recorder(ld.load(C31.KL).KerasLSTM, "lstm")

        def dense_cfg(tag):
            rounds = types.SimpleNamespace(build=lambda: "rounds " + tag)
            return types.SimpleNamespace(activation_dtype=tag + "a", bias_add_dtype=tag + "b", bias_dtype=tag + "c", kernel_dtype=tag + "d", kernel_symmetric=tag == "own",
                                         adaround_optimizer=rounds if en.choose(2) else None, lut_cfg=None)
        base, mine, near = dense_cfg("base"), dense_cfg("own"), dense_cfg("other")
        cfg = types.SimpleNamespace(dense=base, specific_layers={**{k: near for k in NEAR[:4]}, **({"this": mine} if own else {}), **{k: near for k in NEAR[4:]}}, quantize=types.SimpleNamespace(dtype="int8"))
        lay = getattr(tf.keras.layers, kind_)()
        lay.name = "this"
        en.cover("precondition")
        try:
            r = m.get_layer_quantizer(lay, cfg)
        except (ValueError, TypeError):
            en.prove("only an unknown layer is rejected", kind_ == "Layer")
            return
        en.prove("an unknown layer is rejected", kind_ != "Layer")
        if kind_ in ("Dropout", "InputLayer"):
            en.prove("dropout and input layers are passed over", r is None)
            return
        en.prove("one quantiser, of the layer's kind", len(seen) == 1 and r is seen[0] and r.kind == kind_.lower() and r.args["layer"] is lay)
        if kind_ == "Dense":
            c = mine if own else base
            for a in ("activation_dtype", "bias_add_dtype", "bias_dtype", "kernel_dtype", "kernel_symmetric"):
                en.prove(f"{a} as configured for the layer", r.args[a] == getattr(c, a))
            want = c.adaround_optimizer.build() if c.adaround_optimizer else None
            en.prove("rounding as configured for the layer", r.args["adaround_optimizer"] == want)
    return h


class BaseModel:
    """fields from keywords, else the class's defaults (pydantic)"""

    def __init__(self, **k):
        for c in reversed(type(self).__mro__):
            for n in getattr(c, "__annotations__", {}):
                if hasattr(c, n):
                    self.__dict__[n] = getattr(c, n)
        self.__dict__.update(k)


PYDANTIC = types.ModuleType("pydantic")
PYDANTIC.BaseModel, PYDANTIC.Field = BaseModel, lambda default=None, default_factory=None: default if default_factory is None else default_factory()


def configured(kind_):
    """a rounding configuration builds the search it describes"""
    def h(en, ld):
        ld.modules["pydantic"] = PYDANTIC
        C31.load(ld)
        m = ld.load("itcl_quantizer.config.models.keras")
        an = ld.load("itcl_quantizer.equalizers.adaround.annealer")
        sig = inspect.signature(an.RoundingAnnealer.__init__)
        made = []

        def search(*a, **k):
            b = sig.bind(None, *a, **k)
            b.apply_defaults()
            made.append(dict(b.arguments))
            return made[-1]
        m.RoundingAnnealer, m.QUBOAnnealer = search, lambda *a, **k: made.append((a, k)) or made[-1]
        lo, hi, st, up, re = new_real("t_min"), new_real("t_max"), new_int("steps", 0), new_int("updates", 0), new_int("retries", 0)
        en.cover("precondition")
        if kind_ == "qubo":
            r = m.RoundingQUBOCfg().build()
            en.prove("a QUBO search", len(made) == 1 and r is made[0] and isinstance(r, tuple))
            return
        c = m.RoundingAnnealerCfg(t_min=lo, t_max=hi, steps=st, updates=up, max_retries=re) if kind_ == "annealer" else m.RoundingMinimaCfg(max_retries=re)
        r = c.build()
        en.prove("one search", len(made) == 1 and r is made[0])
        en.prove("retries as configured", ix(T.sym(r["max_retries"]).e) == re.e)
        if kind_ == "annealer":
            for k, v in (("t_min", lo), ("t_max", hi), ("steps", st), ("updates", up)):
                en.prove(f"{k} as configured", toreal(T.sym(r[k]).e) == toreal(v.e))
        else:
            en.prove("descent: no annealing steps", r["steps"] == 0)
    return h


# --------------------------------------------------------------- network
class QRes:
    def __init__(self, i, now=None):
        self.i, self.now = z3.simplify(ix(i)), now

    @property
    def operators(self):
        if eng().branch(NONE(self.i)):
            eng().assume(CNT(self.i) == 0)
            return None
        eng().assume(CNT(self.i) >= 0)
        return SList(Sym(CNT(self.i), "pyint"), lambda j: Tok("op", self.i, j, self.now))


class Results(LoopSpec):
    """after i results: OFF(i) operators, ending with those of result i-1"""
    owns = ("self",)

    def __init__(self, cls, world):
        self.cls, self.w = cls, world

    def entry(self, frame):
        en = eng()
        self.objs = [(("attr", v, k)) for v in frame.values() if isinstance(v, self.cls) for k, x in vars(v).items() if isinstance(x, list) and not x]
        self.objs += [("var", None, k) for k in sorted(set(self.loop.assigned) | set(self.loop.mutated)) if isinstance(frame.get(k), list) and not frame[k]
                      and not any(frame[k] is getattr(o, a) for _, o, a in self.objs)]
        if len(self.objs) != 1:
            raise Unsupported("operators not collected in one list")
        self.w.where = self.objs[0]

    def havoc(self, i, frame):
        en = eng()
        en.assume(z3.And(OFF(0) == 0, OFF(i) >= 0))
        tag = self.w.tag = tuple(z3.Function(en.fresh_name(x), I, I) for x in ("result_of", "place_of"))
        self.w.i = i
        return put(self.w, SList(Sym(OFF(i), "pyint"), lambda t: Tok("op", tag[0](t), tag[1](t), self.w.now)))

    def check(self, i, frame):
        en = eng()
        if self.loop.phase == "entry":
            return
        j = self.loop.i
        out = take(self.w, frame)
        en.assume(z3.And(CNT(j) >= 0, z3.Implies(NONE(j), CNT(j) == 0), OFF(j + 1) == OFF(j) + CNT(j)))
        en.prove("each result's operators once", ix(L_.p_len(out)) == OFF(j + 1))
        old(en, self.w, out, OFF(j), self.w.tag)
        if en.branch(CNT(j) > 0):
            p = fresh_index(0, Sym(CNT(j), "pyint"))
            x = out.get(z3.simplify(OFF(j) + p))
            en.prove("the result's operators follow, in order", isinstance(x, Tok) and z3.And(x.i == j, x.j == p))


class Inner(LoopSpec):
    """after k operators of result i"""
    owns = ("self",)

    def __init__(self, world):
        self.w = world

    def havoc(self, k, frame):
        w, i = self.w, self.w.i
        en = eng()

        def get(t):
            if en.branch(t < OFF(i)):
                return Tok("op", w.tag[0](t), w.tag[1](t), w.now)
            return Tok("op", i, z3.simplify(t - OFF(i)), w.now)
        return put(w, SList(Sym(z3.simplify(OFF(i) + k), "pyint"), get))

    def check(self, k, frame):
        en, w = eng(), self.w
        out = take(w, frame)
        if self.loop.phase == "entry":
            en.prove("operators collected before a result", ix(L_.p_len(out)) == OFF(w.i))
            return
        k = self.loop.i
        en.prove("an operator is added once", ix(L_.p_len(out)) == OFF(w.i) + k + 1)
        old(en, w, out, OFF(w.i), w.tag)
        p = fresh_index(0, Sym(z3.simplify(k + 1), "pyint"))
        x = out.get(z3.simplify(OFF(w.i) + p))
        en.prove("at its place", isinstance(x, Tok) and z3.And(x.i == w.i, x.j == p))


def put(w, v):
    kind_, o, k = w.where
    if kind_ == "attr":
        setattr(o, k, v)
        return {}
    return {k: v}


def take(w, frame):
    kind_, o, k = w.where
    return getattr(o, k) if kind_ == "attr" else frame[k]


def old(en, w, out, n, tag):
    if en.branch(n > 0):
        t = fresh_index(0, Sym(n, "pyint"))
        x = out.get(t)
        en.prove("operators collected before stay as they are", isinstance(x, Tok) and z3.And(x.i == tag[0](t), x.j == tag[1](t)))


def network(en, ld):
    C31.load(ld)
    m = ld.load(NW)
    n = new_int("results", 0)
    now = [0]
    res = SList(n, lambda i: QRes(i, now))
    w = types.SimpleNamespace(now=now, where=None, tag=None, i=None)
    outer, inner = Results(m.Network, w), Inner(w)

    def specs(site, seq, frame):
        if seq is None:
            return None
        x = L_.seq_len(seq)
        return outer if not isinstance(x, int) and en.must(ix(x) == n.e) and w.where is None or seq is res else inner
    LOOP_SPECS.append(specs)
    en.cover("precondition")
    net = m.Network(res)
    LOOP_SPECS.remove(specs)
    en.cover("built")
    en.prove("the results are those given", net.as_quant_results() is res)
    ops = net.as_operators()
    k = OFF(n.e)
    en.assume(k >= 0)
    ok = en.prove("as many operators as the results have", ix(L_.p_len(ops)) == k)
    seen = []
    m.SequentialNetwork = lambda j: seen.append(j) or "network"
    j = net.as_json()
    en.prove("recorded number", ix(T.sym(j["operators"]).e) == k)
    en.prove("engine", j["engine"] == "tflite")
    en.prove("one graph entry each", ix(L_.p_len(j["graph"])) == k)
    now[0] = 1
    y = net.as_sequential_network()
    en.prove("the sequential network is that of the description", y == "network" and len(seen) == 1 and ix(L_.p_len(seen[0]["graph"])) == k)
    if ok and en.branch(k > 0):
        t = fresh_index(0, Sym(k, "pyint"))
        x = L_.Helpers.getitem(ops, Sym(t, "pyint"))
        en.prove("operators in order", isinstance(x, Tok) and z3.And(x.i == w.tag[0](t), x.j == w.tag[1](t)))
        g = L_.Helpers.getitem(seen[0]["graph"], Sym(t, "pyint"))
        en.prove("graph in order, of the current operators", isinstance(g, tuple) and g[4] == 1 and z3.And(g[2] == w.tag[0](t), g[3] == w.tag[1](t)))


def current(en, ld):
    """a description is that of the operators at its time"""
    C31.load(ld)
    m = ld.load(NW)
    now = [0]
    counts = [en.choose(3) for _ in range(2)]
    rs = [types.SimpleNamespace(operators=None if c == 2 else [Tok("op", i, j, now) for j in range(c)]) for i, c in enumerate(counts)] + [types.SimpleNamespace(operators=[Tok("op", 2, 0, now)])]
    en.cover("precondition")
    net = m.Network(rs)
    want = [(i, j) for i, r in enumerate(rs) for j in range(len(r.operators or []))]
    for v in range(3):
        now[0] = v
        g = net.as_json()["graph"]
        got = [(z3.simplify(x[2]).as_long(), z3.simplify(x[3]).as_long(), x[4]) for x in [L_.Helpers.getitem(g, k) for k in range(len(want))]]
        en.prove("every description is that of its moment", got == [(i, j, v) for i, j in want])


# ------------------------------------------------------------------ build
def build(en, ld):
    m = load(ld)
    log, now = [], [0]
    net_layers, data = SList(new_int("layers", 1), lambda i: Lay(i)), object()
    m.keras.models.load_model = lambda p: log.append(("load", p)) or types.SimpleNamespace(layers=net_layers)
    results = object()

    def q(layers, d, c):
        log.append(("quantize", layers is net_layers, d is data, c is cfg))
        return results
    m._quantize = q

    class Net:
        def __init__(self, r):
            self.r = r
            log.append(("network", r is results))

        def as_json(self):
            return ("description", self, now[0])

        def as_quant_results(self):
            return self.r
    m.Network = Net

    def search(name, end):
        class S:
            def __init__(self, net, loss_, opt):
                self.a = net, loss_ is loss, opt

            def run(self):
                now[0] += 1
                log.append((name, self.a[0], self.a[1], self.a[2]()))
        setattr(S, end, S.run)
        return S
    m.ParamEqualizerFullNet, m.AdaroundNet = search("equalise", "equalize"), search("round", "round")
    m.ParamEqualizerNet = search("equalise", "equalize")
    m.BFSEqualizer = lambda *a, **k: ("bfs", *a, *k.values())

    class File:
        def __init__(self, path, mode="r", *a, **k):
            self.path, self.mode, self.text, self.open = path, mode, [], True
            files.append(self)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.open = False

        def write(self, x):
            self.text.append(x)

        def close(self):
            self.open = False
    files = []
    m.open = File
    m.json = types.SimpleNamespace(dump=lambda o, f, *a, **k: f.write(("json", o)), dumps=lambda o, *a, **k: ("json", o))
    loss = (lambda net: 0.0) if en.choose(2) else None
    retries = new_int("retries", 0)
    eq = types.SimpleNamespace(max_retries=retries) if en.choose(2) else None
    rd = types.SimpleNamespace(build=lambda: "rounds") if en.choose(2) else None
    cfg = types.SimpleNamespace(param_equalizer=eq, ada_round_net=rd)
    en.cover("precondition")
    net = m.build("model", "out", data, loss, cfg)
    en.prove("the model named is loaded and quantised over the data", log[:3] == [("load", "model"), ("quantize", True, True, True), ("network", True)])
    want = []
    if loss is not None and eq is not None:
        want.append(("equalise", ("bfs", retries)))
    if loss is not None and rd is not None:
        want.append(("round", "rounds"))
    got = [(x[0], x[3]) for x in log[3:]]
    same = len(got) == len(want) and all(a[0] == b[0] and (a[1] == b[1] if isinstance(b[1], str) else isinstance(a[1], tuple) and len(a[1]) == 2 and a[1][1] is b[1][1]) for a, b in zip(got, want))
    en.prove("equalised, then rounded, as configured and only with a loss", same)
    en.prove("both on the network built, by the loss given", all(x[1] is net and x[2] for x in log[3:]))
    f = [x for x in files if x.mode == "w"]
    en.prove("one file is written, and closed", len(f) == 1 and len(files) == 1 and f[0].path == "out" and not f[0].open)
    t = f[0].text
    en.prove("it describes the network as returned, after equalisation and rounding", len(t) == 1 and t[0][0] == "json" and t[0][1][1] is net and t[0][1][2] == now[0])


HARNESSES = [("chain", chain), ("output", data_out), ("description", described), ("network", network), ("network at different times", current, {"standin": "three results of 0 to 1 operators"}), ("build", build)]
HARNESSES += [(f"input[{t}]", data_in(t)) for t in ("int8", "uint8", "int16", "int4")]
WIDE = {"bias_add_dtype": "int16", "activation_dtype": "uint8", "kernel_dtype": "int4", "bias_dtype": "int24"}
HARNESSES += [(f"dense[{a},{f}{',other types' if t else ''}]", dense(a, f, t)) for a in ("linear", "softmax", "relu", "relu6", "tanh", "sigmoid") for f, t in (("float64", None), ("float32", None), ("float64", WIDE))]
HARNESSES += [(f"dispatch[{k},{'own' if o else 'default'}]", dispatch(k, o)) for k in ("Dense", "LSTM", "Dropout", "InputLayer", "Layer") for o in (True, False)]
TRUSTED = ["keras.models.load_model returns the model named", "json.dump writes the description (json library)", "Distribution by its contract (C22)", "dense and LSTM layers by C23 and C31; equalisation and rounding by C25 and C26"]
HARNESSES += [(f"configured[{k}]", configured(k)) for k in ("annealer", "base", "qubo")]
