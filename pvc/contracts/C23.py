"""C23: a dense layer's bias scale is always input scale times weight scale.

The real KerasDense is run on an arbitrary float layer (its weights, its output and
its activation uninterpreted; Distribution by its C22 contract).  The bias is proved
after construction and after every public change of the scales, from an arbitrary
state of the history, and the objects are proved to be those of that history again."""
from .common import *
from . import C20, C21
from .C20 import State, same_state, QM, TM
from .C21 import Act, AM, DM
from pvc import loader as L_

KM = "itcl_quantizer.tensor_extractor.keras.layers.keras_dense"
AL = "itcl_quantizer.tensor_extractor.abstract_layer"


class Dist:
    """C22: a positive scale, the forced zero point or one of the type, ends that cover the data"""
    made = []

    def __init__(self, data):
        self.data = data
        self.lo, self.hi = new_real("dist_min"), new_real("dist_max")
        eng().assume(self.lo.e <= self.hi.e)
        Dist.made.append(self)
        # ends of single precision data are single precision numbers
        f = z3.Function("round_float32", z3.RealSort(), z3.RealSort())
        eng().assume(z3.And(f(self.lo.e) == self.lo.e, f(self.hi.e) == self.hi.e))
        W = eng().scratch["W"]
        if isinstance(data, SArr) and not isinstance(data.shape_, OShape):
            i, u = eng().scratch["idx"]
            d0, d1 = W.shape_
            at = [(i, u), (u, i)] if len(data.shape_) == 2 else [(i * d1.e + u,), (u * d0.e + i,)] if len(data.shape_) == 1 else []
            for t in at:
                inr = z3.And(*[z3.And(k >= 0, k < ix(d)) for k, d in zip(t, data.shape_)])
                x = toreal(data.at(*t))
                eng().assume(z3.Implies(inr, z3.And(self.lo.e <= x, x <= self.hi.e)))

    def quantize(self, q, force_zp=None, force_s=None, symmetric=False):
        lo, hi = tlimits(str(q.dtype_str()))
        self.s = new_real("dist_scale", pos=True)
        self.z = force_zp if force_zp is not None else new_int("dist_zero_point", lo, hi)
        return self.s if force_s is None else force_s, self.z

    def __getitem__(self, key):
        """a part of the data: other ends"""
        if not isinstance(key, slice):
            raise Unsupported("one bin of a distribution")
        return Dist(self.data)

    def get_min(self):
        return self.lo

    def get_max(self):
        return self.hi


def eng():
    from pvc.engine import eng as g
    return g()


def activation(name):
    a = Act()
    a.__name__ = name
    return a


class DenseBase:
    pass


class Layer(DenseBase):
    """a float dense layer"""
    made = []

    def __init__(self, W, B, Y, act, name="dense"):
        self.name, self.W, self.B, self.Y, self.activation = name, W, B, Y, act
        Layer.made.append(self)

    def get_weights(self):
        return [self.W] if self.B is None else [self.W, self.B]

    def set_weights(self, w):
        raise Unsupported("set_weights has no contract here")

    def __deepcopy__(self, memo):
        return Layer(self.W, self.B, self.Y, self.activation, self.name)

    def __call__(self, x, *a, **k):
        if self.activation is None:
            return self.Y
        return self.activation(self.Y)


def build(en, ld, kt="int8", act="tanh", bias=True, sym=True, trim=False, values=True, update=False, bt="int32", ft="float64"):
    tm, qm, km, al = ld.load(TM), ld.load(QM), ld.load(KM), ld.load(AL)
    am = ld.load(AM)
    Dist.made, Layer.made = [], []
    am.Distribution = km.Distribution = ld.load(DM).Distribution = Dist
    km.keras = type("keras", (), {"layers": type("layers", (), {"Dense": DenseBase})})
    st = State()
    st.tm, st.qm, st.km, st.kt, st.bt = tm, qm, km, kt, bt
    inp, units, b = new_int("inputs", 1), new_int("units", 1), new_int("batch", 1)
    st.ft = ft
    st.W = new_array("w", (inp, units), ft)
    st.w0 = st.W.snapshot()
    st.B = new_array("b", (units,), ft) if bias else None
    st.X = new_array("x", (b, inp), "float64")
    st.Y = new_array("y", (b, units), "float64")
    st.units, st.inp = units, inp
    st.i, st.u = fresh_index(0, inp), fresh_index(0, units)
    en.scratch["W"], en.scratch["idx"] = st.W, (st.i, st.u)
    st.layer = Layer(st.W, st.B, st.Y, activation(act))
    kw = {}
    if trim:
        kw["kernel_optimizer"] = type("Opt", (), {"trim": lambda self, d: Dist(d.data)})()
    st.kd = km.KerasDense(st.layer, kernel_dtype=kt, bias_dtype=bt, kernel_symmetric=sym, **kw)
    st.si, st.zi = new_real("in_scale", pos=True), new_int("in_zero_point", -128, 127)
    st.si0, st.zi0 = st.si, st.zi
    st.inn = tm.NodeTensorBase(st.si, st.zi, "input", qm.Quantization("int8"))
    if values:
        st.inn = st.inn.with_tensor(st.X)
    st.seen = [0]
    st.inn.on_quant_param_update.append(lambda n: st.seen.__setitem__(0, st.seen[0] + 1))
    st.res = st.kd.quantize(al.QuantizationResult(st.X, None, st.inn, None))
    st.fc = st.res.operators[0]
    st.kn, st.bn = st.fc.inputs[1], st.fc.inputs[2]
    st.sk, st.zk = st.kn.scale, st.kn.zero_point
    st.sk0, st.zk0 = st.sk, st.zk
    if update:
        for f in (op_in, op_kernel):
            f(en, st)
    return st


def code(node, x, s, z, lo, hi, at, built):
    """codes follow the values, the current parameters and the rounding policy (C20)"""
    if built:
        return quantize_spec(x, s, z, lo, hi)
    return clipz(z3.ToInt(x / s + toreal(node.rounding_policy.at(*at)) + toreal(z)), lo, hi)


def observe(en, st, what, values=True):
    e = lambda v: toreal(T.sym(v).e)
    en.prove(f"{what}: input scale", e(st.inn.scale) == e(st.si))
    en.prove(f"{what}: weight scale", e(st.kn.scale) == e(st.sk))
    en.prove(f"{what}: bias scale is input scale times weight scale", e(st.bn.scale) == e(st.si) * e(st.sk))
    en.prove(f"{what}: bias zero point is 0", T.sym(st.bn.zero_point).e == 0)
    if not values:
        return
    blo, bhi = tlimits(st.bt)
    q = st.bn.quantized
    p = define(en, "bias_scale", e(st.bn.scale))
    B = z3.RealVal(0) if st.B is None else toreal(st.B.at(st.u))
    if en.prove(f"{what}: one bias code per unit", isinstance(q, SArr) and len(q.shape_) == 1 and q.shape_[0] is not None) and en.prove(f"{what}: number of bias codes", ix(q.shape_[0]) == st.units.e):
        if st.ft == "float64":
            en.prove(f"{what}: bias codes are those of the trained bias under the scale", ix(q.at(st.u)) == code(st.bn, B, p, z3.IntVal(0), blo, bhi, (st.u,), what == "built"))
        en.prove(f"{what}: bias values are the trained ones", toreal(st.bn.fp_tensor.at(st.u)) == B)
    w = toreal(st.w0((st.i, st.u)))
    en.prove(f"{what}: weight values are the trained ones", toreal(st.kn.fp_tensor.at(st.u, st.i)) == w)
    klo, khi = tlimits(st.kt)
    if st.ft == "float64":
        en.prove(f"{what}: weight codes are those of the trained weights", ix(st.kn.quantized.at(st.u, st.i)) == code(st.kn, w, T.sym(st.sk).e, T.sym(st.zk).e, klo, khi, (st.u, st.i), what == "built"))
    jk, jb = st.kn.as_json(), st.bn.as_json()
    t = L_.Helpers.getitem
    en.prove(f"{what}: exported bias", T.sym(t(jb["tensor"]["tensor"], Sym(st.u, "pyint"))).e == ix(q.at(st.u)))
    en.prove(f"{what}: exported bias parameters", z3.And(e(jb["scale"]) == p, T.sym(jb["zero_point"]).e == 0))
    en.prove(f"{what}: exported weights", T.sym(t(t(jk["tensor"]["tensor"], Sym(st.u, "pyint")), Sym(st.i, "pyint"))).e == ix(st.kn.quantized.at(st.u, st.i)))
    en.prove(f"{what}: exported weight parameters", z3.And(e(jk["scale"]) == e(st.sk), T.sym(jk["zero_point"]).e == T.sym(st.zk).e))


# ------------------------------------------------------------------ changes
def op_in(en, st):
    st.si, st.zi = new_real("new_in_scale", pos=True), new_int("new_in_zp", -128, 127)
    st.inn.update_quant_parameters(st.si, st.zi)


def op_kernel(en, st):
    st.sk = new_real("new_kernel_scale", pos=True)
    st.kn.update_quant_parameters(st.sk, st.zk)


def op_kernel_zp(en, st):
    st.sk, st.zk = new_real("new_kernel_scale", pos=True), new_int("new_kernel_zp", *tlimits(st.kt))
    st.kn.update_quant_parameters(st.sk, st.zk, True)


def op_in_deferred(en, st):
    st.si = new_real("new_in_scale", pos=True)
    st.inn.update_quant_parameters(st.si, st.zi, requantize=False)


def op_kernel_deferred(en, st):
    st.sk = new_real("new_kernel_scale", pos=True)
    st.kn.update_quant_parameters(st.sk, st.zk, requantize=False)
    en.prove("deferred: bias follows at once", toreal(T.sym(st.bn.scale).e) == toreal(T.sym(st.si).e) * toreal(T.sym(st.sk).e))
    st.kn.update_quant_parameters(st.sk, st.zk, requantize=True)


def op_reset(en, st):
    k = en.choose(4)
    if k == 0:
        st.inn.reset_scale()
        st.si = st.si0
    elif k == 1:
        st.inn.reset_zp()
        st.zi = st.zi0
    elif k == 2:
        st.kn.reset_scale()
        st.sk = st.sk0
    else:
        st.kn.reset_zp()
        st.zk = st.zk0


def op_other(en, st):
    """parameters of other tensors, rounding policies reset"""
    out = st.fc.outputs[0]
    out.update_quant_parameters(new_real("out_scale", pos=True), new_int("out_zp", -128, 127))
    st.kn.reset_rounding()
    if st.res.out_node is not out:
        st.res.out_node.update_quant_parameters(new_real("act_scale", pos=True), new_int("act_zp", -128, 127))


OPS = {f.__name__[3:]: f for f in (op_in, op_kernel, op_kernel_zp, op_in_deferred, op_kernel_deferred, op_reset, op_other)}


def built(**kw):
    def h(en, ld):
        st = build(en, ld, **kw)
        en.cover("precondition")
        observe(en, st, "built", values=not kw.get("trim"))
        en.prove("the operator reads input, weights and bias", len(st.fc.inputs) == 3 and st.fc.inputs[0] is st.inn)
        en.prove("the weights' zero point is 0", T.sym(st.kn.zero_point).e == 0)
        if not kw.get("trim"):
            k, b = st.kd.get_weights()
            en.prove("weights of the layer", z3.And(toreal(k.at(st.u, st.i)) == toreal(st.w0((st.i, st.u))), toreal(as_array(b).at(st.u)) == (z3.RealVal(0) if st.B is None else toreal(st.B.at(st.u)))))
        unchanged(en, "the trained weights are left alone", st.W, st.w0)
        en.prove("the float layer keeps its activation", st.layer.activation is not None)
    return h


def history(ops, **kw):
    def h(en, ld):
        st = build(en, ld, update=True, **kw)
        en.cover("precondition")
        for k, o in enumerate(ops):
            n = st.seen[0]
            OPS[o](en, st)
            observe(en, st, " then ".join(ops[:k + 1]), values=k == len(ops) - 1 and not kw.get("trim"))
        en.prove("other observers of the input are still told", st.seen[0] >= 1)
    return h


def closed(op):
    """bias, weight and input nodes are those of the canonical history again"""
    def h(en, ld):
        st = build(en, ld, update=True)
        en.cover("precondition")
        OPS[op](en, st)
        p = st.bn.rounding_policy
        c = st.tm.NodeTensorBase(Sym(st.si0.e * st.sk0.e, "pyfloat"), 0, st.bn.name, st.bn.quant).with_tensor(st.bn.fp_tensor)
        c.rounding_policy = p
        c.update_quant_parameters(Sym(st.si.e * st.sk.e, "pyfloat"), 0)
        A_, B_ = vars(st.bn), vars(c)
        if set(A_) != set(B_):
            raise Unsupported("the bias carries state of its own: " + ", ".join(set(A_) ^ set(B_)))
        for k in A_:
            if k in ("_og_rounding_policy", "_rounding_policy"):
                continue
            if not same_state(en, A_[k], B_[k]):
                raise Unsupported(f"attribute {k} of the bias is not determined by the scales")
        en.prove("every attribute of the bias is determined by the scales", True)
        en.prove("one observer on each end", len(st.kn.on_quant_param_update) == 1 and len(st.inn.on_quant_param_update) == 2)
    return h


def two(en, ld):
    """two layers on one input: both biases follow, each its own weights"""
    st = build(en, ld)
    st2 = State()
    st2.__dict__.update(st.__dict__)
    W2 = new_array("w2", st.W.shape_, "float32")
    L2 = Layer(W2, None, new_array("y2", st.Y.shape_, "float64"), activation("linear"), "second")
    kd = st.km.KerasDense(L2)
    r = kd.quantize(ld.load(AL).QuantizationResult(st.X, None, st.inn, None))
    st2.kn, st2.bn = r.operators[0].inputs[1:]
    st2.sk, st2.zk = st2.kn.scale, 0
    en.cover("precondition")
    op_in(en, st)
    st2.si, st2.zi = st.si, st.zi
    observe(en, st, "first of two layers")
    observe(en, st2, "second of two layers", values=False)
    op_kernel(en, st)
    observe(en, st, "weights of the first")
    observe(en, st2, "weights of the first, second layer", values=False)


def again(en, ld):
    """one layer quantised twice: the first result keeps following its own nodes"""
    st = build(en, ld)
    inn2 = st.tm.NodeTensorBase(new_real("in2_scale", pos=True), 3, "input2", st.qm.Quantization("int8"))
    en.cover("precondition")
    r2 = st.kd.quantize(ld.load(AL).QuantizationResult(st.X, None, inn2, None))
    k2, b2 = r2.operators[0].inputs[1:]
    op_in(en, st)
    op_kernel(en, st)
    observe(en, st, "first result")
    en.prove("second result", toreal(T.sym(b2.scale).e) == toreal(T.sym(inn2.scale).e) * toreal(T.sym(k2.scale).e))


HARNESSES = [(f"built[{k},{a},{'bias' if b else 'no bias'},{'symmetric' if s else 'full'},{'trimmed' if t else 'whole'},{'values' if v else 'plain'},{bt}]",
              built(kt=k, act=a, bias=b, sym=s, trim=t, values=v, bt=bt))
             for k, a, b, s, t, v, bt in (("int8", "tanh", True, True, False, True, "int32"), ("int8", "linear", True, True, False, False, "int32"), ("int8", "sigmoid", False, True, False, True, "int32"),
                                         ("int4", "linear", True, False, False, True, "int16"), ("int16", "relu", True, True, False, True, "int32"), ("int8", "relu6", True, False, False, False, "int32"), ("int8", "tanh", True, True, True, True, "int32"))]
HARNESSES += [(f"built[single precision,{a}]", built(act=a, ft="float32", bias=b)) for a, b in (("linear", True), ("tanh", False))]
HARNESSES += [(f"{o}", history([o])) for o in OPS] + [(f"{o}[no bias]", history([o], bias=False, act="linear")) for o in ("in", "kernel")]
HARNESSES += [(f"{o}[trimmed]", history([o], trim=True)) for o in ("in", "kernel", "reset")]
HARNESSES += [(f"{a} then {b}", history([a, b])) for a in OPS for b in OPS]
HARNESSES += [(f"closed[{o}]", closed(o), {"standin": "every sequence of two changes after an arbitrary state"}) for o in OPS]
HARNESSES += [("two layers on one input", two), ("quantised twice", again)]
TRUSTED = ["Distribution by its contract (C22): positive scale, forced zero point, ends covering the data",
           "the Keras layer: get_weights returns its weights, deepcopy is independent, calling it without activation gives the pre-activation output"]
