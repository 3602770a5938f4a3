"""C30: batched remote inference keeps every sample, in order.

The broker and the accelerator are the environment: a message with the rows of
samples s, s+1, ... is answered, during publish or during the wait, by the results
F(s), F(s+1), ... or never.  Ghost `sent` counts the samples sent so far; every
message must carry exactly the next samples."""
import types
from .common import *
from pvc import loader as L_
from pvc.loader import LoopSpec, LOOP_SPECS

PKG = "demo_lib"
SRC = "demo/demo_lib/demo_lib"
TRUSTED = ["the accelerator answers a message with one result row per sample row, in order, at most once and only while the call waits for it"]
I = z3.IntSort()
RESULT, MODEL, INFER = "result topic", "model topic", "infer topic"
F = z3.Function("result_of_sample", I, I, z3.RealSort())


def eng():
    return E.ENG


class Doc:
    """a JSON text"""

    def __init__(self, obj): self.obj = obj

    # the same description is the same text; texts of distinct (arbitrary) networks differ
    def __eq__(self, other): return isinstance(other, Doc) and self.obj is other.obj

    def __hash__(self): return id(self.obj)

    def encode(self, *a): return self

    def decode(self, *a): return self


def jsonable(o):
    if isinstance(o, dict):
        for k, v in o.items():
            if not isinstance(k, str):
                raise TypeError("keys must be str")
            jsonable(v)
    elif isinstance(o, SList):
        jsonable(o.get(z3.Int(eng().fresh_name("e"))))
    elif isinstance(o, (list, tuple)):
        for v in o:
            jsonable(v)
    elif isinstance(o, Sym):
        if o.t not in ("pyint", "pyfloat", "pybool"):
            raise TypeError(f"Object of type {o.t} is not JSON serializable")
    elif not isinstance(o, (str, int, float, bool, type(None), Schema, L_.SStr)):
        raise TypeError(f"Object of type {type(o).__name__} is not JSON serializable")


def dumps(o, **k):
    jsonable(o)
    return Doc(o)


def loads(d, **k):
    if not isinstance(d, Doc):
        raise TypeError("the JSON object must be str, bytes or bytearray")
    return d.obj


class Schema:
    """the schema of the network"""


class Net:
    def __init__(self):
        self.schema = Schema()


class Event:
    def __init__(self):
        self.flag = False
        World.now.events.append(self)

    def is_set(self): return self.flag

    def set(self):
        self.flag = True
        w = World.now
        w.woken = dict(w.obj.__dict__) if w.obj is not None else None

    def clear(self): self.flag = False

    def wait(self, timeout=None):
        if not self.flag:
            World.now.waiting()
        return self.flag


class Message:
    def __init__(self, topic, payload): self.topic, self.payload = topic, payload


class World:
    """broker, accelerator and data"""

    def __init__(self, en, rank, dt):
        World.now = self
        self.obj = self.woken = None
        self.en, self.events, self.callbacks, self.topics, self.pending = en, [], {}, [], None
        self.N, self.M, self.m = new_int("samples", 0), new_int("max_batch_size", 1), new_int("outputs", 1)
        self.dims = [new_int(f"d{k}", 1) for k in range(1, rank)]
        self.x = new_array("x", (self.N,) + tuple(self.dims), dt)
        self.net, self.sent, self.models, self.lost, self.calling = Net(), z3.IntVal(0), 0, False, False

    # client -----------------------------------------------------------------
    def subscribe(self, topic, qos=0):
        self.topics += [t[0] if isinstance(t, tuple) else t for t in (topic if isinstance(topic, list) else [topic])]

    def message_callback_add(self, topic, cb):
        self.callbacks[topic] = cb

    def deliver(self):
        msg, self.pending = self.pending, None
        if msg is not None and RESULT in self.topics and RESULT in self.callbacks:
            self.woken = None
            self.callbacks[RESULT](self, None, Message(RESULT, Doc(msg)))
            if self.obj is not None and self.woken is not None:
                now = self.obj.__dict__
                self.en.prove("the result is stored before the waiting call is woken", set(now) == set(self.woken) and all(now[k] is v for k, v in self.woken.items()))

    def reply(self, s, rows):
        """results of samples s, s+1, ..., one row each"""
        m = self.m.e
        tensor = SList(Sym(z3.simplify(rows * m), "pyint"), lambda f: Sym(F(s + T.floordiv_pos(f, m), f - T.floordiv_pos(f, m) * m), "pyfloat"))
        return {"id": "0", "shape": [Sym(rows, "pyint"), Sym(m, "pyint")], "tensor": tensor}

    def waiting(self):
        if self.pending is not None:
            if self.how == 2:
                self.lost = True
            else:
                self.deliver()

    def publish(self, topic, payload=None, qos=0, retain=False):
        en = self.en
        if isinstance(payload, Doc) and topic == MODEL:
            en.prove("the network's description goes to the model topic, before any sample", payload.obj is self.net.schema and self.models == 0)
            self.models += 1
            return
        en.prove("samples go to the infer topic after the model", topic == INFER and self.models == 1)
        if not isinstance(payload, Doc) or not isinstance(payload.obj, dict) or set(payload.obj) != {"input"}:
            en.prove("a message holds one input", False)
            return
        kv = payload.obj["input"]
        en.prove("the input has the fields id, shape and tensor", isinstance(kv, dict) and set(kv) == {"id", "shape", "tensor"} and isinstance(kv["id"], (str, L_.SStr)))
        shape, tensor = kv["shape"], kv["tensor"]
        if not (isinstance(shape, (list, tuple)) and len(shape) == 2 and isinstance(tensor, (SList, list))):
            en.prove("the shape of the input has two dimensions", False)
            return
        s = define(en, "sent", self.sent)
        rows = define(en, "rows_sent", ix(shape[0]))
        ok = en.prove("a message holds at least one sample", rows >= 1)
        ok = en.prove("a message holds no more than the maximum batch", rows <= self.M.e) and ok
        ok = en.prove("a message holds samples of the data set only", s + rows <= self.N.e) and ok
        D = z3.IntVal(1)
        for d in self.dims:
            D = D * d.e
        D = define(en, "features", D)
        n = len(self.dims)
        if n == 2:
            d1, d2 = (d.e for d in self.dims)
            by_lemma(en, "features", [d1 >= 1, d2 >= 1, D == d1 * d2], D >= 1)
        by_lemma(en, "features of a sample", [rows >= 1, D >= 1], T.floordiv_pos(z3.simplify(rows * D), rows) == D)
        size = L_.p_len(tensor)
        en.prove("the message is as long as its samples", ix(size) == rows * D)
        en.prove("a row of the message is one sample", ix(shape[1]) == D)
        a = fresh_index(0, Sym(rows, "pyint"), "a")
        b = [fresh_index(0, d, "b") for d in self.dims]
        f = a
        for t, d in zip(b, self.dims):
            by_lemma(en, "flat index", [d.e >= 1, t >= 0, t < d.e], T.floordiv_pos(f * d.e + t, d.e) == f)
            f = f * d.e + t
        got = tensor.get(f) if isinstance(tensor, SList) else L_.list_to_slist(tensor).get(f)
        en.prove("the message holds the next samples, in order", toreal(T.sym(got).e) == toreal(self.x.at(s + a, *b)))
        self.sent = z3.simplify(s + rows)
        self.how = en.choose(3, "reply during publish, during the wait, or never")
        self.pending = self.reply(s, rows)
        if self.how == 0:
            self.deliver()


def rows_are(en, w, name, part, s, rows):
    """part: the results of samples s .. s+rows"""
    if not isinstance(part, SArr) or isinstance(part.shape_, OShape) or part.ndim != 2:
        en.prove(name + ": two-dimensional", False, detail=repr(part))
        return
    en.prove(name + ": one row per sample", z3.And(ix(part.shape_[0]) == rows, ix(part.shape_[1]) == w.m.e))
    r, c = fresh_index(0, Sym(z3.simplify(rows), "pyint"), "r"), fresh_index(0, w.m, "c")
    by_lemma(en, "flat index", [w.m.e >= 1, c >= 0, c < w.m.e], T.floordiv_pos(r * w.m.e + c, w.m.e) == r)
    en.prove(name + ": row r is the result of sample r", toreal(part.at(r, c)) == F(s + r, c))


class Send(LoopSpec):
    """after i parts: samples start(0) .. start(i) are sent, part j holds the results of
    samples start(j) .. start(j+1)"""
    owns = ("self",)

    def __init__(self, w, obj, fields):
        self.w, self.obj, self.fields = w, obj, fields

    def entry(self, frame):
        en, w = eng(), self.w
        vs = set(self.loop.mutated) | set(self.loop.assigned)
        self.out = [k for k in vs if isinstance(frame.get(k), list) and not frame[k]]
        if len(self.out) != 1:
            raise Unsupported("loop without one list of results")
        self.out = self.out[0]
        n, M, N = self.n, w.M.e, w.N.e
        if "array_split" in en.scratch:
            N_, k, q, r, off = en.scratch["array_split"]
            en.prove("the loop visits every part", n == k)
            en.prove("there are parts enough for the maximum batch", N_ <= k * M)
            by_lemma(en, "parts are not empty", [k >= 1, N_ == k * q + r, r >= 0, r < k, N_ >= k], q >= 1)
            by_lemma(en, "parts are within the maximum batch", [k >= 1, N_ == k * q + r, r >= 0, r < k, N_ <= k * M], z3.And(q <= M, z3.Implies(r > 0, q + 1 <= M)))
            self.start = off
        else:
            self.start = lambda i: z3.If(i * M < N, i * M, N)
            by_lemma(en, "parts cover the data set", [n * M >= N, (n - 1) * M < N, n >= 0, M >= 1], z3.And(self.start(n) == N, n <= N))
        en.scratch["concat_offsets"] = lambda i: self.start(z3.simplify(i))

    def havoc(self, i, frame):
        en, w = eng(), self.w
        w.sent = define(en, "sent", self.start(i))
        self.sent0 = w.sent
        w.pending, w.lost = None, False
        for e in w.events:
            e.flag = bool(en.choose(2, "event flag left from earlier"))
        for k, stale in self.fields.items():
            setattr(self.obj, k, stale)
        self.state = {k: v for k, v in self.obj.__dict__.items() if k not in self.fields}
        if i is not self.n and not z3.is_true(z3.simplify(i == self.n)) and "array_split" not in en.scratch:
            M, N, n = w.M.e, w.N.e, self.n
            by_lemma(en, "a step within the parts", [M >= 1, i >= 0, i < n, (n - 1) * M < N], z3.And(i * M < N, i * M >= 0))
        return {self.out: self.parts(i)}

    def parts(self, n):
        w, m = self.w, self.w.m
        sizes = {}

        def part(j):
            j = z3.simplify(j)
            if j.get_id() not in sizes:
                v = z3.Int(eng().fresh_name("rows"))
                eng().assume(v == self.start(z3.simplify(j + 1)) - self.start(j))
                sizes[j.get_id()] = (v, j)
            s = self.start(j)
            return SArr((Sym(sizes[j.get_id()][0], "pyint"), m), "float64", lambda idx: F(s + idx[0], idx[1]))
        return SList(Sym(n, "pyint") if z3.is_expr(n) else n, part)

    def check(self, i, frame):
        en, w = eng(), self.w
        out = frame[self.out]
        if self.loop.phase == "entry":
            en.prove("nothing is sent before the first part", z3.And(w.sent == 0, self.start(z3.IntVal(0)) == 0))
            return
        j = self.loop.i
        if w.lost:
            en.prove("a missing reply is noticed", False)
            return
        en.prove("a step waits for its reply", w.pending is None)
        now = {k: v for k, v in self.obj.__dict__.items() if k not in self.fields}
        if set(now) != set(self.state) or any(now[k] is not v for k, v in self.state.items()):
            raise Unsupported("the object changes in the loop beyond its results")
        en.prove("a step sends the next part", w.sent == self.start(z3.simplify(j + 1)))
        en.prove("a step adds one part to the results", ix(L_.p_len(out)) == j + 1)
        rows_are(en, w, "part", out.get(j), self.sent0, w.sent - self.sent0)
        if en.branch(j > 0):
            t = fresh_index(0, Sym(j, "pyint"))
            old = out.get(t)
            rows_are(en, w, "earlier part", old, self.start(t), self.start(z3.simplify(t + 1)) - self.start(t))


def setup(en, ld, rank, dt):
    import dataclasses
    w = World(en, rank, dt)
    th = types.ModuleType("threading")
    th.Event = Event
    js = types.ModuleType("json")
    js.dumps, js.loads, js.JSONDecodeError = dumps, loads, ValueError
    te = types.ModuleType("typing_extensions")
    te.Self = object
    pm, pc = types.ModuleType("paho.mqtt"), types.ModuleType("paho.mqtt.client")
    paho = types.ModuleType("paho")
    paho.mqtt, pm.client = pm, pc
    pc.Client, pc.MQTTMessage = World, Message
    pkg = types.ModuleType(PKG)
    pkg.__path__ = []
    ns = types.ModuleType("itcl_inference_engine.network.sequential")
    ns.Network = Net
    ld.modules.update({"threading": th, "json": js, "typing_extensions": te, "paho": paho, "paho.mqtt": pm, "paho.mqtt.client": pc,
                       "itcl_inference_engine.network.sequential": ns, PKG: pkg})
    ld.load_file(f"{SRC}/mqtt.py", f"{PKG}.mqtt")
    m = ld.load_file(f"{SRC}/fpga.py", f"{PKG}.fpga")
    return w, m


def whole(rank, dt):
    def run(en, ld):
        w, m = setup(en, ld, rank, dt)
        obj = m.InferFPGAMQTT(mqtt_client=w, result_topic=RESULT, model_topic=MODEL, infer_topic=INFER, max_batch_size=w.M)
        en.prove("results are subscribed to", RESULT in w.topics and RESULT in w.callbacks)
        if RESULT not in w.callbacks:
            return
        w.obj = obj
        # a result of an earlier call is left behind
        before = dict(obj.__dict__)
        w.pending = w.reply(z3.IntVal(-1000), new_int("stale_rows", 1).e)
        w.deliver()
        fields = {k: v for k, v in obj.__dict__.items() if before.get(k) is not v}
        specs = []

        def resolver(site, seq, frame):
            if frame.get("self") is obj and "fpga.py" in site:
                s = Send(w, obj, fields)
                specs.append(s)
                return s
        LOOP_SPECS.append(resolver)
        r = obj(w.net, w.x)
        en.prove("the model is published once", w.models == 1)
        if w.pending is not None and not w.lost:
            en.prove("the call waits for the reply", False)
            return
        if w.lost:
            en.prove("without a reply there is no result", r is None)
            return
        if not isinstance(r, SArr) or isinstance(r.shape_, OShape):
            en.prove("the results are one array", False, detail=repr(r))
            return
        if en.branch(w.N.e == 0):
            en.prove("no samples, no results", z3.And(ix(r.shape_[0]) == 0, w.sent == 0))
            return
        en.prove("every sample is sent", w.sent == w.N.e)
        rows_are(en, w, "results", r, z3.IntVal(0), w.N.e)
    return run


HARNESSES = [(f"rank {r} {dt}", whole(r, dt)) for r, dt in ((1, "float64"), (2, "float64"), (3, "float64"), (2, "int8"))]
