"""C31: a quantised recurrent layer is assembled gate by gate from the trained weights.

The float recurrence (class LSTM) is proved by a loop contract over arbitrarily many
steps; KerasLSTM.quantize over that contract, on an arbitrary layer (weights, units,
data uninterpreted; Distribution by its C22 contract), against the gate every node
belongs to."""
import types
from .common import *
from pvc import loader as L_
from pvc.loader import LoopSpec, LOOP_SPECS
from .C20 import QM, TM
from .C21 import DM, AM
from .C23 import AL

KL = "itcl_quantizer.tensor_extractor.keras.layers.keras_lstm"
GATES = ("input", "forget", "cell", "output")
R = z3.RealSort()
SIG, TANH = z3.Function("sigmoid", R, R), z3.Function("tanh", R, R)
I3 = (z3.IntSort(),) * 3 + (R,)


def eng():
    return E.ENG


def elementwise(F):
    def f(x):
        if isinstance(x, SArr):
            g = x.snapshot()
            return SArr(x.shape_, "float64", lambda i: F(toreal(g(i))))
        return Sym(F(toreal(T.sym(x).e)), "pyfloat")
    return f


KERAS = {n: type(n, (), {}) for n in ("LSTM", "Dense", "Dropout", "InputLayer", "Layer")}


def load(ld):
    tf = types.ModuleType("tensorflow")
    tf.math = types.SimpleNamespace(sigmoid=elementwise(SIG), tanh=elementwise(TANH))
    tf.nn = tf.math
    tf.keras = types.SimpleNamespace(layers=types.SimpleNamespace(**KERAS, Input=lambda *a, **k: None), activations=tf.math, Sequential=type("Sequential", (), {}), models=types.SimpleNamespace())
    ld.modules["tensorflow"] = tf
    m = ld.load(KL)
    m.np = Np(m.np)
    return m


class Np:
    """numpy with tanh by the same symbol everywhere"""

    def __init__(self, np):
        self.__dict__["_np"] = np

    def __getattr__(self, n):
        return elementwise(TANH) if n == "tanh" else getattr(self._np, n)


class FloatLayer:
    def __init__(self, ft="float64", ret=True, bias=True):
        self.F, self.n = new_int("features", 1), new_int("units", 1)
        n4 = Sym(4 * self.n.e, "pyint")
        self.K, self.U, self.B = new_array("kernel", (self.F, n4), ft), new_array("recurrent", (self.n, n4), ft), new_array("bias", (n4,), ft)
        self.w0 = [a.snapshot() for a in (self.K, self.U, self.B)]
        self.name, self.units, self.return_sequences = "lstm", self.n, ret

    def get_weights(self):
        return [self.K, self.U, self.B]

    def kept(self, en):
        for n, a, f in zip(("kernel", "recurrent kernel", "bias"), (self.K, self.U, self.B), self.w0):
            unchanged(en, f"the trained {n} is left alone", a, f)


# ---------------------------------------------------------------- recurrence
class Recurrence:
    """states after t steps, defined step by step from zero"""

    def __init__(self, lay, X, B, T_):
        self.l, self.X, self.b, self.T = lay, X, B, T_
        en = eng()
        self.H, self.C = z3.Function(en.fresh_name("H"), *I3), z3.Function(en.fresh_name("C"), *I3)
        n, np = lay.n, symnp
        self.wide = (B, Sym(4 * n.e, "pyint"))
        self.thin = (B, n)

    def state(self, fn, t):
        if z3.is_int_value(t) and t.as_long() == 0:
            return SArr((self.b, self.l.n), "float64", lambda i: z3.RealVal(0))
        return SArr(self.thin, "float64", lambda i: fn(t, ix(i[0]), ix(i[1])))

    def bias_add(self, t, b, k):
        l = self.l
        return A.sum_term(lambda f: toreal(self.X.at(b, t, f)) * toreal(l.K.at(f, k)), l.F, True) + toreal(l.B.at(k))

    def recurrent_add(self, t, b, k, h):
        l = self.l
        return A.sum_term(lambda u: h(b, u) * toreal(l.U.at(u, k)), l.n, True) + self.bias_add(t, b, k)

    def quantities(self, t, h):
        """value at (sample, unit or column) of everything step t computes; h: the hidden state before it"""
        n = self.l.n.e
        gate = lambda g: (lambda b, u: (SIG, SIG, TANH, SIG)[g](self.recurrent_add(t, b, z3.simplify(g * n + u), h)))
        q = {"bias_add": (4, lambda b, k: self.bias_add(t, b, k)), "recurrent_add": (4, lambda b, k: self.recurrent_add(t, b, k, h))}
        for g, name in enumerate(GATES):
            q[name + "_gate"] = (1, gate(g))
        q["cell_state"] = (1, lambda b, u: self.C(t + 1, b, u))
        q["cell_state_activation"] = (1, lambda b, u: TANH(self.C(t + 1, b, u)))
        q["hidden_state"] = (1, lambda b, u: self.H(t + 1, b, u))
        return q


class Steps(LoopSpec):
    def __init__(self, rec, what):
        self.r, self.what, self.zero = rec, what, False

    def entry(self, frame):
        self.role = {}
        for k in sorted(set(self.loop.assigned) | set(self.loop.mutated)):
            v = frame.get(k)
            if isinstance(v, SArr) and len(v.shape_) == 2:
                self.role[k] = "state"
            elif isinstance(v, list) and not v:
                self.role[k] = "log"
            elif isinstance(v, list) and len(v) == 1 and isinstance(v[0], SArr):
                self.role[k] = "history"
        kinds = sorted(self.role.values())
        if kinds.count("state") > 1 or kinds.count("history") > 1:
            raise Unsupported("the recurrence keeps other states than the hidden and the cell state")

    def which(self, k):
        """the hidden state is kept as a history or as an array"""
        ks = [x for x in self.role if self.role[x] != "log"]
        return "H" if self.role[k] == "history" else "C"

    def log(self, k, i):
        r = self.r
        if self.loop.phase == "done":
            if not self.what.get(k):
                raise Unsupported(f"{k} is not recognised")
            q = self.what[k][0]

            def get(j):
                h = lambda b, u: r.H(j, b, u)
                w, f = r.quantities(z3.simplify(j), h)[q]
                return SArr(r.wide if w == 4 else r.thin, "float64", lambda a: f(ix(a[0]), ix(a[1])))
            return SList(i, get)
        return SList(i, lambda j: Earlier(k, j))

    def havoc(self, i, frame):
        en, r = eng(), self.r
        i = z3.simplify(i)
        self.zero = en.must(i == 0)
        if not self.zero and not en.must(i >= 1):
            self.zero = en.choose(2) == 1        # the general step first: it tells the records apart
            en.assume(i == 0 if self.zero else i >= 1)
        self.i = i
        out = {}
        for k, role in self.role.items():
            fn = r.H if self.which(k) == "H" else r.C
            if role == "state":
                out[k] = frame[k] if self.zero else r.state(fn, i)
            elif role == "history":
                def get(j, first=frame[k][0], fn=fn):
                    j = z3.simplify(j)
                    if en.must(j == 0):
                        return first
                    if en.must(j >= 1):
                        return r.state(fn, j)
                    raise Unsupported("a state before the first or after the current one")
                out[k] = SList(z3.simplify(i + 1), get)
            else:
                out[k] = self.log(k, i)
        return out

    def check(self, i, frame):
        en, r = eng(), self.r
        n = r.l.n
        b, u, c = fresh_index(0, r.b, "sample"), fresh_index(0, n, "unit"), fresh_index(0, r.wide[1], "column")
        if self.loop.phase == "entry":
            for k, role in self.role.items():
                if role != "log":
                    a = frame[k][0] if role == "history" else frame[k]
                    row = z3.IntVal(0) if not isinstance(a.shape_[0], Sym) and ix(a.shape_[0]).eq(z3.IntVal(1)) else b
                    en.prove("the states start as zero", toreal(a.at(row, u)) == 0)
                    en.prove("one state per unit", ix(a.shape_[1]) == n.e)
            return
        t = self.i
        zero = self.zero
        h = (lambda b, u: z3.RealVal(0)) if zero else (lambda b, u: r.H(t, b, u))
        q = r.quantities(t, h)
        last, arrs = {}, {}
        for k, role in self.role.items():
            v = frame.get(k)
            if role == "state":
                last[k] = v
                continue
            if isinstance(v, (list, SList)):
                m = z3.simplify(ix(len(v) if isinstance(v, list) else v.n))
                want = z3.simplify(t + (2 if role == "history" else 1))
                if not en.prove(f"{k}: one entry per step", m == want):
                    continue
                last[k] = L_.Helpers.getitem(v, Sym(z3.simplify(m - 1), "pyint"))
            else:
                raise Unsupported(f"{k} is not a list any more")
        # the states
        for k, role in self.role.items():
            v = last.get(k)
            if not isinstance(v, SArr) or len(v.shape_) != 2:
                raise Unsupported(f"{k}: a value of an unexpected form")
            if role == "log":
                continue
            en.prove("one state per sample and unit", z3.And(ix(v.shape_[0]) == r.b.e, ix(v.shape_[1]) == n.e))
        for k, role in self.role.items():
            if role == "log":
                continue
            v = toreal(last[k].at(b, u))
            if self.which(k) == "C":
                prev = z3.RealVal(0) if zero else r.C(t, b, u)
                en.prove("cell state: forget gate times the state plus input gate times the candidate",
                         v == q["forget_gate"][1](b, u) * prev + q["input_gate"][1](b, u) * q["cell_gate"][1](b, u))
                en.assume(r.C(t + 1, b, u) == v)
        for k, role in self.role.items():
            if role == "history":
                v = toreal(last[k].at(b, u))
                en.prove("hidden state: output gate times the activated cell state", v == q["output_gate"][1](b, u) * TANH(r.C(t + 1, b, u)))
                en.assume(r.H(t + 1, b, u) == v)
        for k, role in self.role.items():
            if role != "log":
                continue
            v = last[k]
            wide = en.must(ix(v.shape_[1]) == r.wide[1].e)
            j = c if wide else u
            val = z3.simplify(toreal(v.at(b, j)))
            cand = [x for x, (w, f) in q.items() if (w == 4) == wide]
            hit = [x for x in cand if z3.simplify(q[x][1](b, j)).eq(val)] or [x for x in cand if en.must(toreal(v.at(b, j)) == q[x][1](b, j))]
            en.prove("a record holds one quantity of the recurrence, every step", bool(hit) and self.what.setdefault(k, hit)[0] in hit)


class Earlier:
    def __init__(self, k, j):
        self.k, self.j = k, j


def recurrence(ret, via):
    what = {}

    def h(en, ld):
        m = load(ld)
        m.MinMaxList = lambda min_max=False: [] if min_max is False else Poisoned()
        lay = FloatLayer(ret=ret)
        B, T_ = new_int("batch", 1), new_int("steps", 1)
        X = new_array("x", (B, T_, lay.F), "float64")
        x0 = X.snapshot()
        rec = Recurrence(lay, X, B, T_)
        spec = Steps(rec, what)
        LOOP_SPECS.append(lambda site, seq, frame: spec if seq is not None and L_.seq_len(seq) is not None and not isinstance(L_.seq_len(seq), int) and en.must(ix(L_.seq_len(seq)) == T_.e) else None)
        en.cover("precondition")
        f = m.LSTM(lay)
        res = f.call(X) if via == "call" else f(X)
        en.cover("computed")
        t, b, u, c = fresh_index(0, T_, "step"), fresh_index(0, B, "sample"), fresh_index(0, lay.n, "unit"), fresh_index(0, rec.wide[1], "column")
        q = rec.quantities(t, lambda b, u: rec.H(t, b, u))
        for name, (w, f) in q.items():
            a = getattr(res, name)
            a = as_array(a) if not isinstance(a, SArr) else a
            if en.prove(f"{name}: one value per step, sample and unit", isinstance(a, SArr) and len(a.shape_) == 3 and z3.And(ix(a.shape_[0]) == T_.e, ix(a.shape_[1]) == B.e, ix(a.shape_[2]) == ix(rec.wide[1] if w == 4 else lay.n))):
                j = c if w == 4 else u
                en.prove(f"{name}: that of the recurrence", toreal(a.at(t, b, j)) == f(b, j))
        y = res.result if isinstance(res.result, SArr) else as_array(res.result)
        if ret:
            if en.prove("result: one hidden state per sample and step", len(y.shape_) == 3 and z3.And(ix(y.shape_[0]) == B.e, ix(y.shape_[1]) == T_.e, ix(y.shape_[2]) == lay.n.e)):
                en.prove("result: the hidden state after each step", toreal(y.at(b, t, u)) == rec.H(t + 1, b, u))
        else:
            if en.prove("result: one hidden state per sample", len(y.shape_) == 2 and z3.And(ix(y.shape_[0]) == B.e, ix(y.shape_[1]) == lay.n.e)):
                en.prove("result: the hidden state after the last step", toreal(y.at(b, u)) == rec.H(T_.e, b, u))
        unchanged(en, "the data are left alone", X, x0)
        lay.kept(en)
    return h


class Poisoned:
    def __getattr__(self, n):
        raise Unsupported("recording of ranges instead of values")


def minmaxlist(en, ld):
    """values are recorded as they are"""
    m = load(ld)
    l = m.MinMaxList(False)
    a, b = new_array("a", (new_int("n", 1),), "float64"), new_array("b", (new_int("m", 1),), "float64")
    en.cover("precondition")
    en.prove("empty at first", len(l) == 0)
    l.append(a)
    l.append(b)
    en.prove("values in order", len(l) == 2 and l[0] is a and l[1] is b)


# ---------------------------------------------------------------- quantisation
class Dist:
    """C22: positive scale, the forced zero point or one of the type, covering the data"""
    made = []

    def __init__(self, data):
        if not isinstance(data, SArr):
            data = as_array(data)
        self.data = data
        Dist.made.append(self)

    def quantize(self, q, force_zp=None, force_s=None, symmetric=False):
        if force_s is not None:
            raise Unsupported("a forced scale")
        lo, hi = tlimits(str(q.dtype_str()))
        self.s = new_real("dist_scale", pos=True)
        self.z = force_zp if force_zp is not None else new_int("dist_zero_point", lo, hi)
        self.symmetric, self.q, self.forced = symmetric, q, force_zp
        return self.s, self.z


KINDS = {"kernel": "int8", "recurrent_kernel": "int8", "bias": "int32", "bias_add": "int32", "recurrent_add": "int8", "activation": "int8", "output": "int8", "cell_state": "int8", "hidden_state": "int8"}
OTHER = {"kernel": "int4", "recurrent_kernel": "int16", "bias": "int24", "bias_add": "int16", "recurrent_add": "int6", "activation": "uint8", "output": "int8", "cell_state": "int12", "hidden_state": "uint6"}


def build(en, ld, types_=None, ret=True, ft="float64", values=True):
    m, tm, qm, al, am = load(ld), ld.load(TM), ld.load(QM), ld.load(AL), ld.load(AM)
    Dist.made = []
    m.Distribution = am.Distribution = ld.load(DM).Distribution = Dist
    m.is_debug_mode = lambda: False
    st = types.SimpleNamespace(m=m, tm=tm, qm=qm, kt={**KINDS, **(types_ or {})}, ret=ret, ft=ft)
    lay = st.lay = FloatLayer(ft, ret)
    B, T_ = st.B, st.T = new_int("batch", 1), new_int("steps", 1)
    st.X = new_array("x", (B, T_, lay.F), "float64")
    n4 = Sym(4 * lay.n.e, "pyint")
    wide, thin = (T_, B, n4), (T_, B, lay.n)
    st.S = {k: new_array(k, wide if k.endswith("_add") else thin, "float64")
            for k in ("hidden_state", "cell_state", "bias_add", "recurrent_add", "input_gate", "forget_gate", "cell_gate", "output_gate", "cell_state_activation")}
    st.S["result"] = new_array("result", (B, T_, lay.n) if ret else (B, lay.n), "float64")
    st.S0 = {k: v.snapshot() for k, v in st.S.items()}

    class Float:
        """the recurrence by its contract (proved above)"""

        def __init__(self, layer, min_max_mode=False):
            if layer is not lay or min_max_mode:
                raise Unsupported("another recurrence")

        def call(self, x):
            if x is not st.X:
                raise Unsupported("the recurrence of other data")
            return m.LSTMResult(**st.S)

        __call__ = call
    m.LSTM = Float
    st.si, st.zi = new_real("in_scale", pos=True), new_int("in_zero_point", -128, 127)
    st.inn = tm.NodeTensorBase(st.si, st.zi, "input", qm.Quantization("int8"))
    if values:
        st.inn = st.inn.with_tensor(st.X)
    st.seen = [0]
    st.inn.on_quant_param_update.append(lambda n: st.seen.__setitem__(0, st.seen[0] + 1))
    kw = {} if types_ is None else {k + "_dtype": v for k, v in st.kt.items()}
    st.q = m.KerasLSTM(lay, **kw)
    st.res = st.q.quantize(al.QuantizationResult(st.X, None, st.inn, None))
    st.op = st.res.operators[0]
    st.nodes = st.op.inputs
    if not en.prove("32 inputs and one output", len(st.nodes) == 32 and len(st.op.outputs) == 1 and len(st.res.operators) == 1):
        raise PathEnd()
    st.hid = st.op.outputs[0]
    g = lambda k: st.nodes[k:k + 4]
    st.kern, st.rec, st.bias, st.badd, st.radd, st.cell = g(1), g(5), g(9), g(13), g(17), st.nodes[21]
    st.glut, st.gout, st.clut, st.cout = st.nodes[22:30:2], st.nodes[23:30:2], st.nodes[30], st.nodes[31]
    st.sk, st.su, st.sh = [x.scale for x in st.kern], [x.scale for x in st.rec], st.hid.scale
    return st


def rl(x):
    return toreal(T.sym(x).e)


def source(en, node, what):
    """the distribution that gave the node its parameters"""
    hit = [d for d in Dist.made if hasattr(d, "s") and T.sym(d.s).e.eq(T.sym(node.scale).e)]
    en.prove(f"{what}: parameters of a distribution", len(hit) == 1)
    if len(hit) != 1:
        raise PathEnd()
    d = hit[0]
    en.prove(f"{what}: zero point of the same", T.sym(node.zero_point).e == T.sym(d.z).e)
    en.prove(f"{what}: parameters of its own type", str(d.q.dtype_str()) == str(node.quant.dtype_str()))
    return d


def own(en, arr, shape, idx, value, what):
    """arr holds exactly the values"""
    if en.prove(f"{what}: one per place", isinstance(arr, SArr) and not isinstance(arr.shape_, OShape) and len(arr.shape_) == len(shape)):
        if en.prove(f"{what}: sizes", z3.And(*[ix(a) == ix(b) for a, b in zip(arr.shape_, shape)])):
            return en.prove(f"{what}: its own values", toreal(arr.at(*idx)) == value)
    return False


def trained(st):
    """(nodes, kind, shape, index, value per gate)"""
    lay, n = st.lay, st.lay.n.e
    i, j, u = fresh_index(0, lay.F, "feature"), fresh_index(0, lay.n, "before"), fresh_index(0, lay.n, "unit")
    return [("kernel", st.kern, (lay.F, lay.n), (i, u), lambda g: toreal(lay.w0[0]((i, z3.simplify(g * n + u)))), st.sk),
            ("recurrent_kernel", st.rec, (lay.n, lay.n), (j, u), lambda g: toreal(lay.w0[1]((j, z3.simplify(g * n + u)))), st.su),
            ("bias", st.bias, (lay.n,), (u,), lambda g: toreal(lay.w0[2]((z3.simplify(g * n + u),))), None)]


def observe(en, st, what, codes=True):
    built = what == "built"
    en.prove(f"{what}: input scale", rl(st.inn.scale) == rl(st.si))
    for g, name in enumerate(GATES):
        w = f"{what}, {name} gate"
        en.prove(f"{w}: kernel scale", rl(st.kern[g].scale) == rl(st.sk[g]))
        en.prove(f"{w}: bias scale is input scale times kernel scale", rl(st.bias[g].scale) == rl(st.si) * rl(st.sk[g]))
        en.prove(f"{w}: bias zero point is 0", T.sym(st.bias[g].zero_point).e == 0)
        en.prove(f"{w}: bias addition scale is hidden scale times recurrent scale", rl(st.badd[g].scale) == rl(st.sh) * rl(st.su[g]))
        en.prove(f"{w}: bias addition zero point is 0", T.sym(st.badd[g].zero_point).e == 0)
    if not codes:
        return
    for kind_, nodes, shape, idx, value, _ in trained(st):
        lo, hi = tlimits(st.kt[kind_])
        for g, name in enumerate(GATES):
            w, nd = f"{what}, {name} gate: {kind_}", nodes[g]
            own(en, nd.fp_tensor, shape, idx, value(g), w)
            en.prove(f"{w}: type", str(nd.quant.dtype_str()) == st.kt[kind_])
            q = nd.quantized
            if not en.prove(f"{w}: a code for every value", isinstance(q, SArr) and len(q.shape_) == len(shape) and z3.And(*[ix(a) == ix(b) for a, b in zip(q.shape_, shape)])):
                continue
            s = define(en, "scale", rl(nd.scale))
            z = ix(T.sym(nd.zero_point).e)
            want = quantize_spec(value(g), s, z, lo, hi) if built else clipz(z3.ToInt(value(g) / s + toreal(nd.rounding_policy.at(*idx)) + toreal(z)), lo, hi)
            if st.ft == "float64":
                en.prove(f"{w}: codes of the trained values", ix(q.at(*idx)) == want)
            j = nd.as_json()
            t = j["tensor"]["tensor"]
            for k in idx:
                t = L_.Helpers.getitem(t, Sym(k, "pyint"))
            en.prove(f"{w}: exported codes", T.sym(t).e == ix(q.at(*idx)))
            en.prove(f"{w}: exported parameters", z3.And(rl(j["scale"]) == rl(nd.scale), T.sym(j["zero_point"]).e == z))
            en.prove(f"{w}: exported type", j["tensor"]["dtype"] == st.kt[kind_])


def table(en, st, node, out, F, tin, tout, what):
    lo, hi = tlimits(tin)
    ol, oh = tlimits(tout)
    n = hi - lo + 1
    k = fresh_index(0, n)
    lut = node.LUT
    if not en.prove(f"{what}: has a table", lut is not None):
        return
    s, z = rl(node.scale), T.sym(node.zero_point).e
    v = F(toreal(lo + k - z) * s) / rl(out.scale) + toreal(T.sym(out.zero_point).e)
    want = clipz(nearest_up(v), ol, oh)
    en.prove(f"{what}: one entry per code", ix(L_.p_len(lut)) == n)
    en.prove(f"{what}: every entry is the activation of its code", T.sym(lut[Sym(k, "pyint")]).e == want)
    en.prove(f"{what}: offset", ix(lut.offset) == -lo)
    j = node.as_json()["LUT"]
    en.prove(f"{what}: exported entry", T.sym(L_.Helpers.getitem(j["LUT"], Sym(k, "pyint"))).e == want)
    en.prove(f"{what}: exported offset", ix(j["offset"]) == -lo)


def assembled(types_=None, ret=True, ft="float64", values=True):
    def h(en, ld):
        st = build(en, ld, types_, ret, ft, values)
        en.cover("precondition")
        lay, n = st.lay, st.lay.n.e
        en.prove("the first input is the previous output", st.nodes[0] is st.inn)
        observe(en, st, "built")
        for kind_, nodes, shape, idx, value, sc in trained(st):
            if sc is not None:
                for g, name in enumerate(GATES):
                    w = f"{name} gate: {kind_} parameters"
                    own(en, source(en, nodes[g], w).data, shape, idx, value(g), w)
        t, b, u = fresh_index(0, st.T, "step"), fresh_index(0, st.B, "sample"), fresh_index(0, lay.n, "unit")
        thin = (st.T, st.B, lay.n)
        col = lambda g: z3.simplify(g * n + u)
        for g, name in enumerate(GATES):
            ra = toreal(st.S0["recurrent_add"]((t, b, col(g))))
            w = f"{name} gate: recurrent sum"
            nd = st.radd[g]
            own(en, source(en, nd, w).data, thin, (t, b, u), ra, w + " parameters")
            own(en, nd.fp_tensor, thin, (t, b, u), ra, w)
            en.prove(f"{w}: type", str(nd.quant.dtype_str()) == st.kt["recurrent_add"])
            w = f"{name} gate: bias addition"
            own(en, st.badd[g].fp_tensor, thin, (t, b, u), toreal(st.S0["bias_add"]((t, b, col(g)))), w)
            en.prove(f"{w}: type", str(st.badd[g].quant.dtype_str()) == st.kt["bias_add"])
            F = (SIG, SIG, TANH, SIG)[g]
            w = f"{name} gate: activation"
            own(en, source(en, st.gout[g], w).data, thin, (t, b, u), F(ra), w + " parameters")
            en.prove(f"{w}: its table reads the recurrent sum", z3.And(rl(st.glut[g].scale) == rl(nd.scale), T.sym(st.glut[g].zero_point).e == T.sym(nd.zero_point).e))
            en.prove(f"{w}: type", str(st.gout[g].quant.dtype_str()) == st.kt["activation"])
            table(en, st, st.glut[g], st.gout[g], F, st.kt["recurrent_add"], st.kt["activation"], w)
        for nd, key in ((st.cell, "cell_state"), (st.hid, "hidden_state")):
            v = toreal(st.S0[key]((t, b, u)))
            own(en, source(en, nd, key).data, thin, (t, b, u), v, key + " parameters")
            own(en, nd.fp_tensor, thin, (t, b, u), v, key)
            en.prove(f"{key}: type", str(nd.quant.dtype_str()) == st.kt[key])
        en.prove("cell state: zero point 0", T.sym(st.cell.zero_point).e == 0)
        w = "cell state: activation"
        own(en, source(en, st.cout, w).data, thin, (t, b, u), TANH(toreal(st.S0["cell_state"]((t, b, u)))), w + " parameters")
        en.prove(f"{w}: its table reads the cell state", z3.And(rl(st.clut.scale) == rl(st.cell.scale), T.sym(st.clut.zero_point).e == T.sym(st.cell.zero_point).e))
        table(en, st, st.clut, st.cout, TANH, st.kt["cell_state"], st.kt["cell_state"], w)
        # the operator
        j = st.op.as_json()
        en.prove("exported: operator type", j["op_type"] == "LSTM")
        en.prove("exported: every node in its place", len(j["inputs"]) == 32 and len(j["outputs"]) == 1 and z3.And(*[z3.And(rl(a["scale"]) == rl(c.scale), T.sym(a["zero_point"]).e == T.sym(c.zero_point).e) for a, c in zip(j["inputs"] + j["outputs"], st.nodes + [st.hid])]))
        en.prove("exported: number of cells", len(j["attributes"]["n_cells"]["value"]) == 1 and ix(T.sym(j["attributes"]["n_cells"]["value"][0]).e) == n)
        en.prove("exported: whether sequences are returned", j["attributes"]["return_sequences"]["value"] == [ret])
        en.prove("exported: no data of the samples", all(a["tensor"] is None or a["tensor"]["tensor"] is None for a in j["inputs"][13:] + j["outputs"]))
        # the result
        en.prove("the next layer reads the hidden state", st.res.out_node is st.hid)
        y = st.res.input_data
        k = [fresh_index(0, d) for d in st.S["result"].shape_]
        en.prove("the next layer's data are the results", isinstance(y, SArr) and len(y.shape_) == len(k) and toreal(y.at(*k)) == toreal(st.S0["result"](tuple(k))))
        en.prove("later steps find the quantised layer", st.res.layer is st.q)
        for a in st.S:
            unchanged(en, "the recorded states are left alone", st.S[a], st.S0[a])
        lay.kept(en)
    return h


def op_in(en, st):
    st.si, st.zi = new_real("new_in_scale", pos=True), new_int("new_in_zp", -128, 127)
    st.inn.update_quant_parameters(st.si, st.zi)


def op_kernel(en, st):
    g = en.choose(4)
    st.sk = list(st.sk)
    st.sk[g] = new_real("new_kernel_scale", pos=True)
    st.kern[g].update_quant_parameters(st.sk[g], st.kern[g].zero_point)


def op_recurrent(en, st):
    g = en.choose(4)
    st.su = list(st.su)
    st.su[g] = new_real("new_recurrent_scale", pos=True)
    st.rec[g].update_quant_parameters(st.su[g], st.rec[g].zero_point)


def op_hidden(en, st):
    st.sh = new_real("new_hidden_scale", pos=True)
    st.hid.update_quant_parameters(st.sh, new_int("new_hidden_zp", -128, 127))


def op_reset(en, st):
    st.inn.reset_scale()
    st.si = st.inn._og_scale


OPS = {f.__name__[3:]: f for f in (op_in, op_kernel, op_recurrent, op_hidden, op_reset)}


def history(*ops):
    def h(en, ld):
        st = build(en, ld)
        en.cover("precondition")
        n = 0
        for k, o in enumerate(ops):
            OPS[o](en, st)
            n += o in ("in", "reset")
            observe(en, st, " then ".join(ops[:k + 1]), codes=k == len(ops) - 1)
        en.prove("other observers of the input are still told", st.seen[0] == n)
    return h


def rounding(en, ld):
    """the twelve trained tensors take part in the choice of rounding"""
    st = build(en, ld)
    seen = []

    class Rounds:
        def __init__(self, opt, cost, layer, results, float_input=None):
            self.a = opt, cost, layer, results

        def round(self, tensors):
            seen.append((self.a, list(tensors)))
            return tensors
    st.m.AdaRound = Rounds
    opt, cost = object(), lambda: 0.0
    en.cover("precondition")
    st.q.adaround(lambda: opt, st.res, cost)
    if en.prove("one optimisation", len(seen) == 1):
        (o, c, l, r), ts = seen[0]
        en.prove("of the given cost, for this layer", o is opt and c is cost and l is st.q and r is st.res)
        ids = [id(x) for x in ts]
        en.prove("of every trained tensor, each once", sorted(ids) == sorted(id(x) for x in st.kern + st.rec + st.bias))


HARNESSES = [(f"recurrence[{'sequence' if r else 'last'},{v}]", recurrence(r, v)) for r, v in ((True, "call"), (False, "()"))]
HARNESSES += [("record of values", minmaxlist)]
HARNESSES += [(f"assembled[{n}]", assembled(*a)) for n, a in (("sequence", ()), ("last, plain input", (None, False, "float64", False)), ("other types", (OTHER,)), ("single precision", (None, True, "float32")))]
HARNESSES += [(" then ".join(o), history(*o)) for o in [(a,) for a in OPS] + [(a, b) for a in ("in", "kernel", "recurrent", "hidden") for b in OPS]]
HARNESSES += [("rounding", rounding)]
TRUSTED = ["Distribution by its contract (C22)", "tf.math.sigmoid and np.tanh: the same function of every element (uninterpreted)",
           "the Keras layer: get_weights returns kernel, recurrent kernel and bias", "floats are mathematical reals"]
