"""C21: activation tables are refreshed whenever their parameters change.

An activation is built by the real quantize_activation_node (Distribution by its
C22 contract: a positive scale and a zero point of the type).  Its table is
determined by the activation function, the parameters of its input node and of
its output node and the rounding policy.  From every state of the canonical history
(built, parameters of both ends updated) every public change must leave the table
of the new parameters, in an object of the canonical history again."""
from .common import *
from .C06 import UF
from . import C20
from .C20 import State, same_state, QM, TM
from pvc import loader as L_

AM = "itcl_quantizer.tensor_extractor.keras.layers.activations"
DM = "itcl_quantizer.quantizer.distributions.distribution"


class Act:
    """the activation function, on a value or element by element"""

    def __call__(self, x):
        if isinstance(x, SArr):
            f = x.snapshot()
            return SArr(x.shape_, "float64", lambda i: UF(toreal(f(i))))
        return Sym(UF(toreal(T.sym(x).e)), "pyfloat")


def act_const(x):
    return 0 if not isinstance(x, SArr) else x * 0


class Dist:
    """contract of Distribution (C22), parameters of one data set are always the same"""
    made = []

    def __init__(self, data):
        self.data = data
        Dist.made.append(self)

    def quantize(self, q, *a, **k):
        lo, hi = tlimits(str(q.dtype_str()))
        self.s, self.z = new_real("out_scale", pos=True), new_int("out_zero_point", lo, hi)
        return self.s, self.z


def build(en, ld, tin, tout, name="tanh", params="dist", with_values=True, update=False):
    tm, qm = ld.load(TM), ld.load(QM)
    am = ld.load(AM)
    Dist.made = []
    am.Distribution = Dist
    ld.load(DM).Distribution = Dist
    st = State()
    st.tin, st.tout, st.am, st.tm, st.qm = tin, tout, am, tm, qm
    st.si, st.zi = st.si0, st.zi0 = new_real("in_scale", pos=True), new_int("in_zero_point", *tlimits(tin))
    st.X = new_array("x", (new_int("batch", 1), new_int("units", 1)), "float64")
    st.node = tm.NodeTensorBase(st.si, st.zi, "input", qm.Quantization(tin))
    if with_values:
        st.node = st.node.with_tensor(st.X)
    st.fn = Act()
    qout = qm.Quantization(tout)
    kw = {}
    if params == "given":
        st.so, st.zo = new_real("given_scale", pos=True), new_int("given_zero_point", *tlimits(tout))
        kw["out_params"] = (st.so, st.zo)
    elif params == "trim":
        kw["trim_dist"] = lambda d: d
    st.op, st.y = am.quantize_activation_node(st.fn, name, st.X, qout, st.node, **kw)
    if params != "given":
        used = [d for d in Dist.made if hasattr(d, "s")]
        if len(used) != 1:
            raise Unsupported("output parameters not taken from one distribution")
        st.so, st.zo = used[0].s, used[0].z
        i = [fresh_index(0, d) for d in st.X.shape_]
        en.prove("output parameters are those of the activated data", isinstance(used[0].data, SArr) and toreal(used[0].data.at(*i)) == UF(toreal(st.X.at(*i))))
    st.so0, st.zo0 = st.so, st.zo
    st.out = st.op.outputs[0]
    st.P = None
    if update:
        op_in(en, st)
        op_out(en, st)
    return st


def entry(st, k):
    """what the table must hold at index k"""
    lo, _ = tlimits(st.tin)
    ol, oh = tlimits(st.tout)
    v = UF(toreal(lo + k - T.sym(st.zi).e) * T.sym(st.si).e) / T.sym(st.so).e
    if st.P is None:
        return clipz(nearest_up(v + toreal(T.sym(st.zo).e)), ol, oh)
    return clipz(z3.ToInt(v + toreal(T.sym(st.zo).e) + toreal(st.P((k,)))), ol, oh)


def observe(en, st, what, export=True):
    node, out = st.op.inputs[0], st.op.outputs[0]
    lo, hi = tlimits(st.tin)
    n = hi - lo + 1
    en.prove(f"{what}: input parameters", z3.And(T.sym(node.scale).e == T.sym(st.si).e, T.sym(node.zero_point).e == T.sym(st.zi).e))
    en.prove(f"{what}: output parameters", z3.And(T.sym(out.scale).e == T.sym(st.so).e, T.sym(out.zero_point).e == T.sym(st.zo).e))
    lut = node.LUT
    k = fresh_index(0, n)
    en.track("index", k)
    en.prove(f"{what}: one entry per input code", ix(L_.p_len(lut)) == n)
    want = entry(st, k)
    got = T.sym(lut[Sym(k, "pyint")]).e
    en.prove(f"{what}: every entry is the quantised activation of its code", got == want)
    en.prove(f"{what}: offset", ix(lut.offset) == -lo)
    en.prove(f"{what}: called with a code", T.sym(lut(Sym(k + lo, "pyint"))).e == want)
    if not export:
        return
    j = st.op.as_json()
    d = j["inputs"][0]["LUT"]
    t = d["LUT"]
    en.prove(f"{what}: exported table has one entry per code", isinstance(t, (list, SList)) and ix(A.dim(len(t) if isinstance(t, list) else t.n)) == n)
    en.prove(f"{what}: exported entry", T.sym(L_.Helpers.getitem(t, Sym(k, "pyint"))).e == want)
    en.prove(f"{what}: exported parameters", z3.And(T.sym(j["inputs"][0]["scale"]).e == T.sym(st.si).e, T.sym(j["inputs"][0]["zero_point"]).e == T.sym(st.zi).e,
                                                   T.sym(j["outputs"][0]["scale"]).e == T.sym(st.so).e, T.sym(j["outputs"][0]["zero_point"]).e == T.sym(st.zo).e))
    en.prove(f"{what}: exported types", j["outputs"][0]["tensor"]["dtype"] == st.tout)
    en.prove(f"{what}: operator type", j["op_type"] in ("TANHLUT", "SIGMOIDLUT"))
    # the engine looks up codes of the input type
    ld = en.scratch["loader"]
    C = ld.load("itcl_inference_engine.layers.tflite.build_layer").build_layer(j)
    X = new_array("codes", (new_int("b", 1), new_int("u", 1)), "int64", lo, hi)
    i = tuple(fresh_index(0, d) for d in X.shape_)
    y = C.infer(X)
    if same_shape(en, f"{what}: inference keeps the shape", y, X):
        en.prove(f"{what}: the engine answers the entry of the code", ix(y.at(*i)) == T.sym(L_.Helpers.getitem(t, Sym(z3.simplify(X.at(*i) - lo), "pyint"))).e)


# ------------------------------------------------------------------ operations
def op_in(en, st):
    st.si, st.zi, st.P = new_real("new_in_scale", pos=True), new_int("new_in_zp", *tlimits(st.tin)), None
    st.node.update_quant_parameters(st.si, st.zi)


def op_out(en, st):
    st.so, st.zo, st.P = new_real("new_out_scale", pos=True), new_int("new_out_zp", *tlimits(st.tout)), None
    st.out.update_quant_parameters(st.so, st.zo)


def op_in_zp(en, st):
    st.zi, st.P = new_int("new_in_zp", *tlimits(st.tin)), None
    st.node.update_quant_parameters(scale=st.si, zero_point=st.zi)


def op_out_zp(en, st):
    st.zo, st.P = new_int("new_out_zp", *tlimits(st.tout)), None
    st.out.update_quant_parameters(st.so, st.zo, True)


def op_in_scale(en, st):
    st.si, st.P = new_real("new_in_scale", pos=True), None
    st.node.update_quant_parameters(st.si, st.zi)


def op_out_scale(en, st):
    st.so, st.P = new_real("new_out_scale", pos=True), None
    st.out.update_quant_parameters(st.so, st.zo)


def op_reset(en, st):
    st.P = None
    k = en.choose(4)
    if k == 0:
        st.node.reset_scale()
        st.si = st.si0
    elif k == 1:
        st.node.reset_zp()
        st.zi = st.zi0
    elif k == 2:
        st.out.reset_scale()
        st.so = st.so0
    else:
        st.out.reset_zp()
        st.zo = st.zo0


def op_deferred(en, st):
    """an update that defers requantisation, then one that does not"""
    st.si, st.zi, st.P = new_real("new_in_scale", pos=True), new_int("new_in_zp", *tlimits(st.tin)), None
    st.node.update_quant_parameters(st.si, st.zi, requantize=False)
    st.node.update_quant_parameters(st.si, st.zi)


def op_out_deferred(en, st):
    st.so, st.zo, st.P = new_real("new_out_scale", pos=True), new_int("new_out_zp", *tlimits(st.tout)), None
    st.out.update_quant_parameters(st.so, st.zo, requantize=False)
    st.out.update_quant_parameters(st.so, st.zo, requantize=True)


def op_policy(en, st):
    lo, hi = tlimits(st.tin)
    P = new_array("policy", (hi - lo + 1,), "int64", 0, 1)
    st.node.LUT.rounding_policy = P
    st.P = P.snapshot()


def op_policy_again(en, st):
    P = st.node.LUT.rounding_policy
    lo, hi = tlimits(st.tin)
    P[Sym(fresh_index(0, hi - lo + 1), "pyint")] = new_int("flip", 0, 1)
    st.node.LUT.rounding_policy = P
    st.P = P.snapshot()


OPS = {f.__name__[3:]: f for f in (op_in, op_out, op_in_zp, op_out_zp, op_in_scale, op_out_scale, op_reset, op_deferred, op_out_deferred, op_policy, op_policy_again)}


def history(tin, tout, ops, update=True, name="tanh", params="dist", with_values=True, export=True):
    def h(en, ld):
        en.scratch["loader"] = ld
        st = build(en, ld, tin, tout, name, params, with_values, update)
        en.cover("precondition")
        if not ops:
            observe(en, st, "built", export)
            i = [fresh_index(0, d) for d in st.X.shape_]
            en.prove("the activated data is passed on", toreal(st.y.at(*i)) == UF(toreal(st.X.at(*i))))
            en.prove("the operator reads the input node", st.op.inputs[0] is st.node and len(st.op.inputs) == 1 and len(st.op.outputs) == 1)
            return
        for k, o in enumerate(ops):
            OPS[o](en, st)
            observe(en, st, " then ".join(ops[:k + 1]), export and k == len(ops) - 1)
    return h


def closed(op):
    """after the operation the table object is one of the canonical history"""
    def h(en, ld):
        st = build(en, ld, "int8", "int8", update=True)
        en.cover("precondition")
        OPS[op](en, st)
        lut = st.node.LUT
        P = lut.rounding_policy
        c = st.tm.NodeLUT(st.node.quant, st.fn, st.si, st.zi, st.so, st.zo, 3, st.out.quant)
        c.rounding_policy = P
        a, b = vars(lut), vars(c)
        if set(a) != set(b):
            raise Unsupported("the table carries state of its own: " + ", ".join(set(a) ^ set(b)))
        for k in a:
            if isinstance(a[k], (list, SList)) and isinstance(b[k], (list, SList)):
                n = A.dim(len(a[k]) if isinstance(a[k], list) else a[k].n), A.dim(len(b[k]) if isinstance(b[k], list) else b[k].n)
                i = fresh_index(0, n[0])
                ok = en.entails(z3.And(ix(n[0]) == ix(n[1]), T.sym(L_.Helpers.getitem(a[k], Sym(i, "pyint"))).e == T.sym(L_.Helpers.getitem(b[k], Sym(i, "pyint"))).e), 5000)
            else:
                ok = same_state(en, a[k], b[k]) or a[k] is b[k]
            if not ok:
                raise Unsupported(f"attribute {k} of the table is not determined by its parameters")
        en.prove("every attribute of the table is determined by the parameters and the policy", True)
    return h


def skipped(name):
    def h(en, ld):
        tm, qm, am = ld.load(TM), ld.load(QM), ld.load(AM)
        am.Distribution = Dist
        X = new_array("x", (new_int("batch", 1), new_int("units", 1)), "float64")
        node = tm.NodeTensorBase(new_real("s", pos=True), 0, "in", qm.Quantization("int8"))
        en.cover("precondition")
        op, y = am.quantize_activation_node(lambda x: x, name, X, qm.Quantization("int8"), node)
        en.prove("no operator", op is None)
        i = tuple(fresh_index(0, d) for d in X.shape_)
        if en.prove("shape of the data passed on", isinstance(y, SArr) and len(y.shape_) == 2) and en.prove("sizes of the data passed on", z3.And(*[ix(a) == ix(b) for a, b in zip(y.shape_, X.shape_)])):
            en.prove("data passed on", toreal(y.at(*i)) == toreal(X.at(*i)))
        en.prove("no table", node.LUT is None)
    return h


TT = [("int8", "int8"), ("int16", "int8"), ("int8", "int16"), ("uint8", "int8"), ("int8", "uint8"), ("int6", "int6"), ("int6", "int8")]
HARNESSES = [(f"built[{a},{b},{n},{p},{'values' if w else 'plain'}]", history(a, b, [], False, n, p, w, export=True))
             for a, b in TT for n, p, w in (("tanh", "dist", True), ("SIGMOID", "given", False), ("Tanh", "trim", True))]
HARNESSES += [(f"{o}[{a},{b}]", history(a, b, [o])) for o in OPS for a, b in TT]
HARNESSES += [(f"closed[{o}]", closed(o), {"standin": "every sequence of two operations after an arbitrary canonical state"}) for o in OPS]
HARNESSES += [(f"{a} then {b}", history("int8", "int8", [a, b], export=False)) for a in OPS for b in OPS]
HARNESSES += [(f"skipped[{n}]", skipped(n)) for n in ("linear", "LINEAR")]
TRUSTED = ["Distribution.quantize by its contract (C22): a positive scale and a zero point of the type"]
