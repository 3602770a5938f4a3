"""C20: a model tensor's quantised view always follows its current parameters.

The state of a tensor is (values X, original scale and zero point, current scale
and zero point, rounding policy).  Every state is built by the canonical history
construct - set a policy - update; from it, every public operation must establish
the invariant for its new parameters, and leave an object whose attributes are
those of the canonical history of the new state, so that the invariant holds after
any sequence.  Where an operation adds state of its own, all pairs of operations
are the bound (stand-in)."""
from .common import *
from pvc import loader as L_

TM = "itcl_quantizer.tensor_extractor.tensor"
QM = "itcl_quantization.quantization.operators"


class State:
    pass


def policy(shape, name="policy"):
    return new_array(name, shape, "int64", 0, 1)


def build(en, ld, tname, shape, canonical=True):
    m = ld.load(TM)
    q = ld.load(QM).Quantization(tname)
    lo, hi = tlimits(tname)
    st = State()
    st.t, st.m, st.q, st.lo, st.hi, st.shape = tname, m, q, lo, hi, shape
    st.X = new_array("x", shape, "float64")
    st.s = st.s0 = new_real("scale", pos=True)
    st.z = st.z0 = new_int("zero_point", lo, hi)
    st.node = m.NodeTensorBase(st.s, st.z, "tensor", q).with_tensor(st.X)
    st.P = None           # nearest
    if canonical:
        st.P = policy(shape)
        st.node.rounding_policy = st.P
        st.P = st.P.snapshot()
        new_params(st)
        st.node.update_quant_parameters(st.s, st.z)
    return st


def new_params(st, s=True, z=True):
    if s:
        st.s = new_real("new_scale", pos=True)
    if z:
        st.z = new_int("new_zero_point", st.lo, st.hi)


def spec(st, i):
    """code of element i under the current parameters"""
    x = toreal(st.X.at(*i))
    if st.P is None:
        return quantize_spec(x, st.s.e, st.z.e, st.lo, st.hi)
    return clipz(z3.ToInt(x / st.s.e + toreal(st.z.e) + toreal(st.P(tuple(i)))), st.lo, st.hi)


def at_index(shape):
    return (fresh_index(0, shape.size),) if isinstance(shape, OShape) else tuple(fresh_index(0, d) for d in shape)


def observe(en, st, what, json=True):
    n = st.node
    i = at_index(st.shape)
    en.track("x", toreal(st.X.at(*i)))
    en.prove(f"{what}: the tensor has the new scale", T.sym(n.scale).e == st.s.e)
    en.prove(f"{what}: the tensor has the new zero point", T.sym(n.zero_point).e == st.z.e)
    q = n.quantized
    if not same_shape(en, f"{what}: shape of the codes", q, st.X):
        return
    code = q.at(*i)
    en.prove(f"{what}: the codes are the quantisation of the values under the current parameters", code == spec(st, i))
    d = n.dequantized
    if same_shape(en, f"{what}: shape of the dequantised view", d, st.X):
        en.prove(f"{what}: the dequantised view is (code - zero point) * scale", toreal(d.at(*i)) == toreal(code - st.z.e) * st.s.e)
    r = n.rounding_policy
    if st.P is not None and same_shape(en, f"{what}: shape of the policy", r, st.X):
        en.prove(f"{what}: the rounding policy is the current one", ix(r.at(*i)) == st.P(tuple(i)))
    if not json or isinstance(st.shape, OShape):
        return
    j = n.as_json()
    en.prove(f"{what}: JSON scale", T.sym(j["scale"]).e == st.s.e)
    en.prove(f"{what}: JSON zero point", T.sym(j["zero_point"]).e == st.z.e)
    t = j["tensor"]
    en.prove(f"{what}: JSON type", t["dtype"] == st.t)
    en.prove(f"{what}: JSON name", t["name"] == n.name)
    v = t["tensor"]
    if not isinstance(st.shape, OShape):
        en.prove(f"{what}: JSON shape", len(t["shape"]) == len(st.shape) and z3.And(*[ix(a) == ix(b) for a, b in zip(t["shape"], st.shape)]))
        for k, d in zip(i, st.shape):
            en.prove(f"{what}: JSON lengths", ix(len(v) if isinstance(v, list) else v.n) == ix(d))
            v = L_.Helpers.getitem(v, Sym(k, "pyint"))
        v = T.sym(v)
    else:
        v = T.sym(Sym(v.at(*i), v.t))
    en.prove(f"{what}: JSON codes", v.e == code)


# ------------------------------------------------------------------ operations
def op_update(en, st):
    new_params(st)
    st.node.update_quant_parameters(st.s, st.z)


def op_scale(en, st):
    new_params(st, z=False)
    st.node.update_quant_parameters(scale=st.s, zero_point=st.z)


def op_zero(en, st):
    new_params(st, s=False)
    st.node.update_quant_parameters(st.s, st.z, True)


def op_deferred(en, st):
    """an update that defers requantisation, then one that does not"""
    new_params(st)
    st.node.update_quant_parameters(st.s, st.z, requantize=False)
    en.prove("deferred update: the tensor has the new scale and zero point", z3.And(T.sym(st.node.scale).e == st.s.e, T.sym(st.node.zero_point).e == st.z.e))
    k = en.choose(3)
    if k == 0:
        op_policy(en, st)
    elif k == 1:
        op_update(en, st)
    else:
        st.node.update_quant_parameters(st.s, st.z, requantize=True)


def op_policy(en, st):
    P = policy(st.shape, "new_policy")
    st.node.rounding_policy = P
    st.P = P.snapshot()


def op_policy_again(en, st):
    """the policy object itself is changed and set again"""
    P = st.node.rounding_policy
    if isinstance(st.shape, OShape):
        P.reshape(-1)
    k = at_index(st.shape)
    v = new_int("flip", 0, 1)
    if isinstance(st.shape, OShape):
        st.node.rounding_policy = P
        st.P = P.snapshot()
        return
    P[tuple(Sym(j, "pyint") for j in k)] = v
    st.node.rounding_policy = P
    st.P = P.snapshot()


def op_policy_refused(en, st):
    """a policy of another shape is refused and changes nothing"""
    shape = (new_int("other", 1), *st.shape) if not isinstance(st.shape, OShape) else (new_int("other", 1), new_int("other2", 1))
    if isinstance(st.shape, OShape):
        return
    try:
        st.node.rounding_policy = policy(shape, "refused")
    except ValueError:
        return
    en.prove("a policy of another shape is refused", False)


def op_reset_rounding(en, st):
    st.node.reset_rounding()
    st.P = st.node.rounding_policy.snapshot()


def op_reset_scale(en, st):
    st.node.reset_scale()
    st.s = st.s0


def op_reset_zp(en, st):
    st.node.reset_zp()
    st.z = st.z0


def op_values(en, st):
    """new values: the tensor object of the new values under the same parameters"""
    Y = new_array("y", st.shape, "float64")
    old, oldX = st.node, st.X
    st.node = st.node.with_tensor(Y)
    st.X, st.P = Y, st.node.rounding_policy.snapshot()
    i = at_index(st.shape)
    en.prove("new values are rounded to nearest", z3.And(in_range(st.P(i), 0, 1), st.node.quantized.at(*i) == quantize_spec(toreal(Y.at(*i)), st.s.e, st.z.e, st.lo, st.hi)))
    en.prove("the tensor keeps the values it was given", z3.And(toreal(st.node.fp_tensor.at(*i)) == toreal(Y.at(*i)), toreal(old.fp_tensor.at(*i)) == toreal(oldX.at(*i))))


def op_name(en, st):
    st.node.name = "renamed"


def op_flags(en, st):
    """the serialisation flags off (as by default) have no effect"""
    st.node.exclude_batch_dimension(False)
    st.node.exclude_tensor(False)
    st.node.exclude_quant_params(False)


OPS = {f.__name__[3:]: f for f in (op_update, op_scale, op_zero, op_deferred, op_policy, op_policy_again, op_policy_refused, op_reset_rounding,
                                   op_reset_scale, op_reset_zp, op_values, op_name, op_flags)}


def shape_of(rank):
    if rank == "any":
        return OShape("S")
    return tuple(new_int(f"d{k}", 1) for k in range(rank))


def first(tname, rank):
    def h(en, ld):
        st = build(en, ld, tname, shape_of(rank), canonical=False)
        en.cover("precondition")
        x0 = st.X.snapshot()
        observe(en, st, "constructed")
        p = st.node.rounding_policy
        i = at_index(st.shape)
        t = toreal(st.X.at(*i)) / st.s.e
        en.prove("constructed: the policy rounds to nearest", z3.And(ix(p.at(*i)) >= 0, ix(p.at(*i)) <= 1, z3.ToInt(t + toreal(ix(p.at(*i)))) == nearest_up(t)))
        unchanged(en, "values not modified", st.X, x0)
    return h


def hooked(st, en, calls):
    """hooks run when the tensor already follows its parameters"""
    def note(kind):
        def f(node):
            calls.append(kind)
            en.prove("hooks get the tensor", node is st.node)
            n = st.node
            i = at_index(st.shape)
            x = toreal(st.X.at(*i))
            s, z = T.sym(n.scale).e, T.sym(n.zero_point).e
            P = n.rounding_policy
            en.prove("hooks see codes that follow the parameters", n.quantized.at(*i) == clipz(z3.ToInt(x / s + toreal(z) + toreal(P.at(*i))), st.lo, st.hi))
        return f
    st.node.on_requantize.append(note("requantize"))
    st.node.on_quant_param_update.append(note("update"))


def one(tname, rank, op, op2=None, hooks=False):
    def h(en, ld):
        st = build(en, ld, tname, shape_of(rank))
        x0 = st.X.snapshot()
        X = st.X
        en.cover("precondition")
        observe(en, st, "before", json=False)
        calls = []
        if hooks:
            hooked(st, en, calls)
        OPS[op](en, st)
        if hooks:
            en.prove("hooks run once per update", calls.count("update") == 1 and calls.count("requantize") == 1)
        if op2:
            OPS[op2](en, st)
        observe(en, st, op + (f" then {op2}" if op2 else ""))
        unchanged(en, "values not modified", X, x0)
    return h


def same_state(en, a, b, path=""):
    """the two attribute values are the same (in every history)"""
    if a is b:
        return True
    if isinstance(a, SArr) and isinstance(b, SArr):
        if isinstance(a.shape_, OShape) != isinstance(b.shape_, OShape) or not isinstance(a.shape_, OShape) and len(a.shape_) != len(b.shape_):
            return False
        i = at_index(a.shape_)
        return en.entails(z3.And(toreal(a.at(*i)) == toreal(b.at(*i))), 3000)
    num = lambda v: isinstance(v, (Sym, int, float)) and not isinstance(v, bool)
    if num(a) and num(b):
        return en.entails(toreal(T.sym(a).e) == toreal(T.sym(b).e), 3000)
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_state(en, x, y) for x, y in zip(a, b))
    if isinstance(a, (str, bool, type(None), float, int)):
        return a == b
    if type(a).__name__ == "Quantization":
        return True
    return False


def closed(tname, op):
    """after the operation the object is one of the canonical history"""
    def h(en, ld):
        shape = shape_of(1)
        st = build(en, ld, tname, shape)
        en.cover("precondition")
        OPS[op](en, st)
        observe(en, st, op, json=False)
        p = st.node.rounding_policy
        c = st.m.NodeTensorBase(st.s0, st.z0, st.node.name, st.q)
        # new values keep the policy of their own construction under the then current scale
        if op == "values":
            c.update_quant_parameters(st.s, st.z)
        c = c.with_tensor(st.X)
        c.rounding_policy = p
        c.update_quant_parameters(st.s, st.z)
        if op == "flags":
            OPS["flags"](en, type("S", (), {"node": c}))
        A_, B_ = vars(st.node), vars(c)
        if set(A_) != set(B_):
            raise Unsupported("the object carries state of its own: " + ", ".join(set(A_) ^ set(B_)))
        for k in A_:
            if not same_state(en, A_[k], B_[k]):
                raise Unsupported(f"attribute {k} is not determined by the current parameters")
        en.prove("every attribute is determined by the values, the parameters and the policy", True)
    return h


def siblings(op):
    """two tensors made from one node follow their own parameters only"""
    def h(en, ld):
        st = build(en, ld, "int8", shape_of(2))
        en.cover("precondition")
        two = State()
        two.__dict__.update(st.__dict__)
        OPS["values"](en, two)
        OPS[op](en, two)
        observe(en, two, f"after {op}")
        observe(en, st, f"{op} on another tensor of the node")
    return h


def plain(en, ld):
    """a node without values"""
    m = ld.load(TM)
    st = State()
    st.lo, st.hi = tlimits("int8")
    st.s = st.s0 = new_real("scale", pos=True)
    st.z = st.z0 = new_int("zero_point", st.lo, st.hi)
    st.node = m.NodeTensorBase(st.s, st.z, "node", ld.load(QM).Quantization("int8"))
    en.cover("precondition")
    calls = []
    st.node.on_quant_param_update.append(lambda n: calls.append((n, n.scale, n.zero_point)))
    for op in (op_update, op_scale, op_zero, op_reset_scale, op_reset_zp):
        calls.clear()
        op(en, st)
        n = st.node
        j = n.as_json()
        en.prove(f"{op.__name__[3:]}: scale", z3.And(T.sym(n.scale).e == st.s.e, T.sym(j["scale"]).e == st.s.e))
        en.prove(f"{op.__name__[3:]}: zero point", z3.And(T.sym(n.zero_point).e == st.z.e, T.sym(j["zero_point"]).e == st.z.e))
        en.prove(f"{op.__name__[3:]}: no values in the JSON", j["tensor"] is None)
        ok = len(calls) == 1 and calls[0][0] is n
        en.prove(f"{op.__name__[3:]}: hooks run once", ok)
        if ok:
            en.prove(f"{op.__name__[3:]}: hooks see the parameters", z3.And(T.sym(calls[0][1]).e == st.s.e, T.sym(calls[0][2]).e == st.z.e))


HARNESSES = [("plain node", plain)]
HARNESSES += [(f"siblings[{op}]", siblings(op)) for op in OPS if op not in ("zero", "name", "flags")]
HARNESSES += [(f"constructed[{t},{r}]", first(t, r)) for t in ("int8", "uint8", "int16", "int32", "int4", "uint32") for r in (1, 2, "any")]
HARNESSES += [(f"{op}[{t},{r}]", one(t, r, op)) for op in OPS for t, r in (("int8", 2), ("int8", "any"), ("uint8", 1), ("int16", 1), ("int32", 3))]
HARNESSES += [(f"hooks[{op}]", one("int8", 1, op, hooks=True)) for op in ("update", "scale", "zero", "reset_scale", "reset_zp")]
HARNESSES += [(f"closed[{op}]", closed("int8", op), {"standin": "every sequence of two operations after an arbitrary canonical state"}) for op in OPS]
HARNESSES += [(f"{a} then {b}", one("int8", 1, a, b)) for a in OPS for b in OPS if not {a, b} & {"name", "flags", "zero"}]
TRUSTED = ["a tensor's values array is not changed from outside between two requantisations (the object holds the caller's array)"]
