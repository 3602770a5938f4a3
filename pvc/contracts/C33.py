"""C33: a remotely evaluated loss belongs to the network just sent, on the sample set just sent.

The broker and the accelerator are the environment, as in C30: a published network is answered with its loss during
publish, during the wait, or never; the state left by earlier calls (stored loss, event flag) is arbitrary."""
from .common import *
from pvc import loader as L_
from . import C30 as B

TRUSTED = ["the accelerator answers a network's description with its loss, at most once and only while the call waits for it"]
LOSS, MODEL = "loss topic", "model topic"


class LossWorld(B.World):
    def __init__(self, en):
        B.World.now = self
        self.en, self.events, self.callbacks, self.topics = en, [], {}, []
        self.obj = self.woken = self.pending = None
        self.sent, self.lost, self.how, self.net = [], False, None, None

    def publish(self, topic, payload=None, qos=0, retain=False):
        en = self.en
        en.prove("only the description of the network is published, to the model topic",
                 topic == MODEL and isinstance(payload, B.Doc) and self.net is not None and payload.obj is self.net.schema)
        self.sent.append(payload)
        self.how = en.choose(3, "reply during publish, during the wait, or never")
        self.pending = {"loss": self.value}
        if self.how == 0:
            self.deliver()

    def deliver(self):
        msg, self.pending = self.pending, None
        if LOSS in self.topics and LOSS in self.callbacks:
            self.woken = None
            self.callbacks[LOSS](self, None, B.Message(LOSS, B.Doc(msg)))
            if self.obj is not None and self.woken is not None:
                now = self.obj.__dict__
                self.en.prove("the loss is stored before the waiting call is woken", set(now) == set(self.woken) and all(now[k] is v for k, v in self.woken.items()))


def setup(en, ld):
    _, m = B.setup(en, ld, 1, "float64")
    return m


def number(kind, name):
    return new_int(name) if kind == "int" else Sym(z3.Real(E.ENG.fresh_name(name)), "pyfloat")


def loss(kind):
    def h(en, ld):
        m = setup(en, ld)
        w = LossWorld(en)
        obj = m.LossFPGA(w, LOSS, MODEL)
        if not en.prove("losses are subscribed to", LOSS in w.topics and LOSS in w.callbacks):
            return
        w.obj = obj
        # whatever earlier calls left behind: a stored loss, the event set or not
        if en.choose(2, "an earlier loss is stored"):
            w.value, w.pending = None, {"loss": number("float", "stale")}
            w.deliver()
        for e in w.events:
            e.flag = bool(en.choose(2, "event flag left from earlier"))
        stale = dict(obj.__dict__)
        for turn in ("first", "second"):
            again = turn == "second" and en.choose(2, "the same network again")
            w.net, w.value, w.sent, w.lost = w.net if again else B.Net(), number(kind, "loss"), [], False
            en.cover(f"{turn} call")
            try:
                r = obj(w.net)
            except Exception as ex:
                r = ex
            en.prove(f"{turn} call: the network is published once", len(w.sent) == 1)
            if w.how == 2:
                en.prove(f"{turn} call: a missing reply is an error", isinstance(r, Exception))
                w.pending = None
                continue
            if not en.prove(f"{turn} call: a reply gives a loss", not isinstance(r, Exception), detail=repr(r)):
                return
            en.prove(f"{turn} call: the call waited for the reply", w.pending is None)
            en.prove(f"{turn} call: the loss is the one reported for this network", toreal(T.sym(r).e) == toreal(w.value.e))
            en.prove(f"{turn} call: the loss is a plain number", isinstance(r, float) or (isinstance(r, Sym) and r.t == "pyfloat"))
        en.prove("the topics stay subscribed", w.callbacks.get(LOSS) is not None and stale.keys() == obj.__dict__.keys())
    return h


def flat(en, kv, x, N, dims, ident):
    """kv: the fields of the array x (N rows of dims)"""
    if not en.prove("the array is exported with its id, shape and values", isinstance(kv, dict) and set(kv) == {"id", "shape", "tensor"} and kv["id"] == ident):
        return None
    shape, tensor = kv["shape"], kv["tensor"]
    if not en.prove("its shape has two dimensions", isinstance(shape, (list, tuple)) and len(shape) == 2):
        return None
    D = z3.IntVal(1)
    for d in dims:
        D = D * d.e
    D = define(en, "features", D)
    n = len(dims)
    if n == 2:
        d1, d2 = (d.e for d in dims)
        by_lemma(en, "features", [d1 >= 1, d2 >= 1, D == d1 * d2], D >= 1)
    by_lemma(en, "features of a sample", [N.e >= 1, D >= 1], T.floordiv_pos(z3.simplify(N.e * D), N.e) == D)
    en.prove("the first dimension is the number of samples", ix(shape[0]) == N.e)
    en.prove("the second dimension is the size of a sample", ix(shape[1]) == D)
    en.prove("every value is exported once", ix(L_.p_len(tensor)) == N.e * D)
    a = fresh_index(0, N, "a")
    b = [fresh_index(0, d, "b") for d in dims]
    f = a
    for t, d in zip(b, dims):
        by_lemma(en, "flat index", [d.e >= 1, t >= 0, t < d.e], T.floordiv_pos(f * d.e + t, d.e) == f)
        f = f * d.e + t
    got = (tensor if isinstance(tensor, SList) else L_.list_to_slist(tensor)).get(f)
    en.prove("the values are the samples' own, in order", toreal(T.sym(got).e) == toreal(x.at(a, *b)))
    return D


def samples(rx, ry, dt):
    def h(en, ld):
        m = setup(en, ld)
        N = new_int("samples", 1)
        dx, dy = ([new_int(f"{c}{k}", 1) for k in range(1, r)] for c, r in (("x", rx), ("y", ry)))
        x, y = new_array("x", (N, *dx), dt), new_array("y", (N, *dy), "float64")
        x0, y0 = x.snapshot(), y.snapshot()
        en.cover("precondition")
        io = m.InputOutput.from_numpy("set", x, y)
        doc = io.as_json()
        if not en.prove("the sample set has its inputs and its targets", isinstance(doc, B.Doc) and isinstance(doc.obj, dict) and set(doc.obj) == {"input", "output"}):
            return
        flat(en, doc.obj["input"], x, N, dx, "set")
        flat(en, doc.obj["output"], y, N, dy, "set")
        unchanged(en, "the inputs are not modified", x, x0)
        unchanged(en, "the targets are not modified", y, y0)
    return h


def alone(cls, rank):
    """Input and Output on their own; an output is read back as it was"""
    def h(en, ld):
        m = setup(en, ld)
        N = new_int("samples", 1)
        ds = [new_int(f"x{k}", 1) for k in range(1, rank)]
        x = new_array("x", (N, *ds), "float64")
        en.cover("precondition")
        o = getattr(m, cls).from_numpy("id", x)
        doc = o.as_json() if cls == "Input" else B.dumps(o.as_kv())
        D = flat(en, doc.obj, x, N, ds, "id")
        if cls == "Input" or D is None:
            return
        back = m.Output.from_kv(B.loads(doc))
        en.prove("the id is kept", back.id == "id")
        r = back.as_numpy()
        if not en.prove("the array read back is two-dimensional", isinstance(r, SArr) and r.ndim == 2):
            return
        en.prove("one row per sample", z3.And(ix(r.shape_[0]) == N.e, ix(r.shape_[1]) == D))
        a = fresh_index(0, N, "a")
        b = [fresh_index(0, d, "b") for d in ds]
        f = z3.IntVal(0)
        for t, d in zip(b, ds):
            f = f * d.e + t
        if rank == 3:
            d1, d2 = (d.e for d in ds)
            by_lemma(en, "index in a sample", [d1 >= 1, d2 >= 1, b[0] >= 0, b[0] < d1, b[1] >= 0, b[1] < d2, D == d1 * d2], z3.And(b[0] * d2 + b[1] >= 0, b[0] * d2 + b[1] < D))
            by_lemma(en, "flat index", [D == d1 * d2], a * D + (b[0] * d2 + b[1]) == (a * d1 + b[0]) * d2 + b[1])
        f = define(en, "in_sample", f)
        en.prove("the values read back are the array's own", toreal(r.at(a, f)) == toreal(x.at(a, *b)))
    return h


HARNESSES = [(f"loss, reported as {k}", loss(k)) for k in ("float", "int")]
HARNESSES += [(f"sample set, inputs of rank {a}, targets of rank {b}, {dt}", samples(a, b, dt)) for a, b, dt in ((1, 1, "float64"), (2, 1, "float64"), (2, 2, "int8"), (3, 2, "float32"))]
HARNESSES += [(f"{c}, rank {r}", alone(c, r)) for c in ("Input", "Output") for r in (1, 2, 3)]
