"""C29: layer-model conversion keeps weights, shapes and activations.

The model is a list of arbitrarily many layers whose class names are arbitrary texts;
every builder is proved on arbitrary dimensions and contents, the traversal over
their contracts."""
import types
from .common import *
from pvc import loader as L_
from pvc.loader import LoopSpec, LOOP_SPECS, SStr, Opq, TXT, UPPER, lit
from .C27 import text
from .C28 import lists, element

I = z3.IntSort()
K2 = "keras2json"
CLASS = z3.Function("layer_class", I, TXT)
OFF = z3.Function("operators_before", I, I)
OPS = {"DENSE": 2, "CONV2D": 2, "LSTM": 1, "FLATTEN": 1, "MAXPOOLING2D": 1}
SKIP = ["INPUT", "OUTPUT", "INPUTLAYER", "DROPOUT"]
BUILDER = {"DENSE": "Dense", "CONV2D": "Conv2d", "LSTM": "LSTM", "FLATTEN": "Flatten", "MAXPOOLING2D": "MaxPool2D"}
KINDS = list(OPS) + SKIP


def eng():
    return E.ENG


# ------------------------------------------------------------- traversal
class Layer:
    def __init__(self, i):
        self.i = z3.simplify(ix(i))
        self.name = "layer"

    @property
    def __class__(self):
        return types.SimpleNamespace(__name__=SStr([Opq(CLASS(self.i))]))


class Emitted:
    def __init__(self, kind_, layer, p):
        self.kind, self.layer, self.p = kind_, layer, p


def upper(i):
    return UPPER(CLASS(i))


def is_(i, k):
    return upper(i) == lit(k)


def count(i):
    r = z3.IntVal(0)
    for k, n in OPS.items():
        r = z3.If(is_(i, k), z3.IntVal(n), r)
    return r


def supported(i):
    return z3.Or(*[is_(i, k) for k in KINDS])


class Walk(LoopSpec):
    """operators before layer i: OFF(i) of them, ending with those of layer i-1"""

    def entry(self, frame):
        self.out = [k for k in set(self.loop.mutated) | set(self.loop.assigned) if isinstance(frame.get(k), list) and not frame[k]]
        if len(self.out) != 1:
            raise Unsupported("conversion without one list of operators")
        self.out = self.out[0]

    def havoc(self, i, frame):
        en = eng()
        en.assume(z3.And(OFF(0) == 0, OFF(i) >= 0))
        tag = self.tag = z3.Function(en.fresh_name("operator"), I, I)
        return {self.out: SList(Sym(OFF(i), "pyint"), lambda t: ("before", tag(t)))}

    def check(self, i, frame):
        en = eng()
        out = frame[self.out]
        if self.loop.phase == "entry":
            en.prove("nothing is emitted before the first layer", len(out) == 0)
            return
        j = self.loop.i
        n = count(j)
        en.assume(OFF(j + 1) == OFF(j) + n)      # ghost: operators before the next layer
        en.prove("every layer is supported when it is passed", supported(j))
        en.prove("a layer emits its operators once", ix(L_.p_len(out)) == OFF(j + 1))
        if en.branch(OFF(j) > 0):
            t = fresh_index(0, Sym(OFF(j), "pyint"))
            old = out.get(t)
            en.prove("operators emitted before stay as they are", isinstance(old, tuple) and z3.simplify(old[1]).eq(z3.simplify(self.tag(t))))
        for k, c in OPS.items():
            if not en.branch(is_(j, k)):
                continue
            for p in range(c):
                new = out.get(z3.simplify(OFF(j) + p))
                en.prove(f"{k}: its operators follow, in order", isinstance(new, Emitted) and new.kind == BUILDER[k] and new.p == p and new.layer == j)
            return


def traversal(en, ld):
    m = ld.load(K2 + "._convert")
    made = []
    for k, n in OPS.items():
        cls = getattr(ld.load(K2 + ".layers"), BUILDER[k])
        cls.from_model = staticmethod((lambda b, n: lambda layer: [Emitted(b, layer.i, p) for p in range(n)])(BUILDER[k], n))
    en.scratch["universe"] = KINDS
    for k in KINDS:
        lit(k)
    n = new_int("layers", 0)
    layers = SList(n, lambda i: Layer(i))
    spec = Walk()
    res = lambda site, seq, frame: spec if seq is not None else None
    LOOP_SPECS.append(res)
    en.cover("precondition")
    try:
        net = m.keras2json(types.SimpleNamespace(layers=layers))
    except ValueError:
        en.cover("rejected")
        i = spec.loop.i
        en.prove("only an unsupported layer is rejected", z3.Not(supported(i)))
        return
    finally:
        LOOP_SPECS.remove(res)
    en.cover("converted")
    g = net["graph"]
    en.prove("the graph is the operators emitted, to the last layer", isinstance(g, SList) and ix(g.n) == OFF(n.e))
    en.prove("the number of operators is recorded", ix(net["operators"]) == OFF(n.e))
    if isinstance(g, SList) and en.branch(OFF(n.e) > 0):
        t = fresh_index(0, Sym(OFF(n.e), "pyint"))
        o = g.get(t)
        en.prove("in order", isinstance(o, tuple) and z3.simplify(o[1]).eq(z3.simplify(spec.tag(t))))


# -------------------------------------------------------------- builders
def weight(en, name, node, arr, transposed=False):
    """node carries exactly the array"""
    t = node["tensor"]
    dims = list(arr.shape_)
    want = list(reversed(dims)) if transposed else dims
    en.prove(f"{name}: shape", isinstance(t["shape"], list) and len(t["shape"]) == len(want) and z3.And(True, *[ix(T.sym(a)) == ix(b) for a, b in zip(t["shape"], want)]))
    en.prove(f"{name}: type", t["dtype"] == arr.t)
    en.prove(f"{name}: floats are not quantised", node["scale"] is None and node["zero_point"] is None and node["LUT"] is None)
    idx = lists(en, name, t["tensor"], want)
    if idx is not None:
        v = T.sym(element(t["tensor"], idx))
        src = tuple(reversed(idx)) if transposed else idx
        en.prove(f"{name}: the layer's values, each in its place", toreal(v.e) == toreal(arr.at(*src)))


def zeros(en, name, node, n):
    t = node["tensor"]
    en.prove(f"{name}: one zero per unit", isinstance(t["shape"], list) and len(t["shape"]) == 1 and ix(T.sym(t["shape"][0])) == ix(n))
    idx = lists(en, name, t["tensor"], [n])
    if idx is not None:
        en.prove(f"{name}: zeros", toreal(T.sym(element(t["tensor"], idx)).e) == 0)


def same_text(a, b):
    if isinstance(a, SStr) and isinstance(b, SStr):
        return a.term() == b.term()
    return not isinstance(a, SStr) and not isinstance(b, SStr) and a == b


def plain(en, op, kind_, attributes=False):
    en.prove("the operator has its type", op["op_type"] == kind_)
    if not attributes:
        en.prove("no attributes are invented", not op["attributes"])
    en.prove("no outputs are invented", op["outputs"] == [])


def dense(bias, dt="float32"):
    def h(en, ld):
        m = ld.load(K2 + ".layers.dense")
        n, u = new_int("inputs", 1), new_int("units", 1)
        W, B = new_array("kernel", (n, u), dt), new_array("bias", (u,), dt)
        fn, nm = text("activation"), text("name")
        layer = types.SimpleNamespace(activation=types.SimpleNamespace(__name__=fn), name=nm, get_weights=lambda: [W, B] if bias else [W])
        w0, b0 = W.snapshot(), B.snapshot()
        en.cover("precondition")
        ops = m.Dense.from_model(layer)
        en.cover("converted")
        if not en.prove("a dense layer is a dense operator and its activation", isinstance(ops, list) and len(ops) == 2 and len(ops[0]["inputs"]) == 2):
            return
        plain(en, ops[0], "FULLY_CONNECTED_F")
        weight(en, "kernel", ops[0]["inputs"][0], W, True)
        weight(en, "bias", ops[0]["inputs"][1], B) if bias else zeros(en, "missing bias", ops[0]["inputs"][1], u)
        en.prove("the operator carries the layer's name", same_text(ops[0]["name"], nm))
        en.prove("the activation is the layer's", same_text(ops[1]["op_type"], fn) and ops[1]["inputs"] == [] and ops[1]["outputs"] == [])
        unchanged(en, "the layer's kernel is not modified", W, w0)
        unchanged(en, "the layer's bias is not modified", B, b0)
    return h


def ints(x):
    return isinstance(x, list) and all(isinstance(v, (int, Sym)) for v in x)


def attr(en, name, op, key, want):
    a = op["attributes"].get(key)
    if not en.prove(f"{name} is exported", a is not None and isinstance(a["value"], list) and len(a["value"]) == len(want)):
        return
    for v, w in zip(a["value"], want):
        if isinstance(w, bool) or isinstance(v, bool):
            en.prove(f"{name} is the layer's", v is w)
        else:
            en.prove(f"{name} is the layer's", ix(T.sym(v)) == ix(w))


def act_object(how):
    """an activation: a function, or an object of a class (name by its class)"""
    if how == "function":
        t = text("activation")
        return types.SimpleNamespace(__name__=t), SStr([Opq(UPPER(t.term()))])

    class LeakyReLU:
        pass
    return LeakyReLU(), "LEAKYRELU"


PAD = {"valid": 0, "same": 1, "VALID": 0, "SAME": 1}


def conv(bias, pad, how):
    def h(en, ld):
        m = ld.load(K2 + ".layers.conv2d")
        dims = [new_int(k, 1) for k in ("height", "width", "channels", "filters")]
        W, B = new_array("kernel", tuple(dims), "float32"), new_array("bias", (dims[3],), "float32")
        s = (new_int("stride0", 1), new_int("stride1", 1))
        a, nm = act_object(how)
        layer = types.SimpleNamespace(get_weights=lambda: [W, B] if bias else [W], strides=s, padding=pad, activation=a, name="conv")
        w0 = W.snapshot()
        en.cover("precondition")
        ops = m.Conv2d.from_model(layer)
        en.cover("converted")
        if not en.prove("a convolution is a convolution operator and its activation", isinstance(ops, list) and len(ops) == 2 and len(ops[0]["inputs"]) == 2):
            return
        plain(en, ops[0], "CONV_2D_F", True)
        weight(en, "kernel", ops[0]["inputs"][0], W)
        weight(en, "bias", ops[0]["inputs"][1], B) if bias else zeros(en, "missing bias", ops[0]["inputs"][1], dims[3])
        attr(en, "strides", ops[0], "strides", s)
        attr(en, "padding", ops[0], "padding", [PAD[pad]])
        want = SStr.make(nm.parts + ["_F"]) if isinstance(nm, SStr) else nm + "_F"
        en.prove("the activation is the layer's", same_text(ops[1]["op_type"], want) and ops[1]["inputs"] == [] and ops[1]["outputs"] == [])
        unchanged(en, "the layer's kernel is not modified", W, w0)
    return h


def pool(pad):
    def h(en, ld):
        m = ld.load(K2 + ".layers.maxpool2d")
        s, p = (new_int("stride0", 1), new_int("stride1", 1)), (new_int("pool0", 1), new_int("pool1", 1))
        layer = types.SimpleNamespace(strides=s, padding=pad, pool_size=p, name="pool")
        en.cover("precondition")
        ops = m.MaxPool2D.from_model(layer)
        if not en.prove("a pooling layer is one operator without tensors", isinstance(ops, list) and len(ops) == 1 and ops[0]["inputs"] == []):
            return
        plain(en, ops[0], "MAXPOOLING_2D_F", True)
        attr(en, "strides", ops[0], "strides", s)
        attr(en, "pool size", ops[0], "pool_size", p)
        attr(en, "padding", ops[0], "padding", [PAD[pad]])
    return h


def flatten(en, ld):
    m = ld.load(K2 + ".layers.flatten")
    en.cover("precondition")
    ops = m.Flatten.from_model(types.SimpleNamespace(name="flat"))
    if en.prove("a flatten layer is one operator without tensors", isinstance(ops, list) and len(ops) == 1 and ops[0]["inputs"] == []):
        plain(en, ops[0], "FLATTEN")


def lstm(bias, ret, rank=3):
    def h(en, ld):
        m = ld.load(K2 + ".layers.lstm")
        n, u, steps = new_int("inputs", 1), new_int("units", 1), new_int("steps", 1)
        W, U, B = new_array("kernel", (n, 4 * u), "float32"), new_array("recurrent", (u, 4 * u), "float32"), new_array("bias", (4 * u,), "float32")
        shape = (None, steps, n) if rank == 3 else (None, n) if rank == 2 else (None, steps, n, 1)
        layer = types.SimpleNamespace(get_weights=lambda: [W, U, B] if bias else [W, U], get_config=lambda: {"units": u, "name": "lstm", "return_sequences": ret}, _batch_input_shape=shape, name="lstm")
        w0, u0 = W.snapshot(), U.snapshot()
        en.cover("precondition")
        try:
            ops = m.LSTM.from_model(layer)
        except ValueError:
            en.cover("rejected")
            en.prove("only an input that is not a batch of sequences is rejected", rank != 3)
            return
        en.cover("converted")
        if not en.prove("an input that is not a batch of sequences is rejected", rank == 3):
            return
        if not en.prove("an LSTM layer is one operator", isinstance(ops, list) and len(ops) == 1):
            return
        plain(en, ops[0], "LSTM_F", True)
        by = {}
        for node in ops[0]["inputs"]:
            by.setdefault(node["tensor"]["name"], []).append(node)
        names = ["kernel/complete", "recurrent_kernel/complete", "bias/complete"]
        if not en.prove("the complete weights are exported, once each, after the parts", all(len(by.get(k, ())) == 1 for k in names) and [x["tensor"]["name"] for x in ops[0]["inputs"][-3:]] == names and len(ops[0]["inputs"]) == 15):
            return
        k, r, b = (by[x][0] for x in names)
        weight(en, "kernel", k, W, True)
        weight(en, "recurrent kernel", r, U, True)
        weight(en, "bias", b, B) if bias else zeros(en, "missing bias", b, 4 * u)
        attr(en, "units", ops[0], "units", [u])
        attr(en, "steps", ops[0], "steps", [steps])
        attr(en, "return_sequences", ops[0], "return_sequences", [bool(ret)])
        unchanged(en, "the layer's kernel is not modified", W, w0)
        unchanged(en, "the layer's recurrent kernel is not modified", U, u0)
    return h


HARNESSES = [("keras2json, any layers", traversal)]
HARNESSES += [(f"Dense {d}{'' if b else ' without bias'}", dense(b, d)) for b in (True, False) for d in ("float32", "float64")]
HARNESSES += [(f"Conv2d padding {p}{'' if b else ' without bias'}, activation {a}", conv(b, p, a)) for b, p, a in ((True, "valid", "function"), (True, "same", "object"), (False, "VALID", "function"), (False, "SAME", "function"))]
HARNESSES += [(f"MaxPool2D padding {p}", pool(p)) for p in PAD] + [("Flatten", flatten)]
HARNESSES += [(f"LSTM{'' if b else ' without bias'}, return_sequences {r}", lstm(b, r)) for b in (True, False) for r in (True, False)]
HARNESSES += [(f"LSTM input of rank {r}", lstm(True, True, r)) for r in (2, 4)]
