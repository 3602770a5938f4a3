"""C18: a network of any number of layers runs them in order and records their outputs."""
import types
from .common import *
from pvc.loader import LoopSpec, LOOP_SPECS
from pvc import loader as L_

SQ = "itcl_inference_engine.network.sequential"


class Values:
    """value 0 is what the first layer must get, value i+1 the output of layer i"""

    def __init__(self, rank, first, identity=False):
        self.rank, self.first, self.identity = rank, first, identity
        I = z3.IntSort()
        self.f = z3.Function("value", *[I] * (rank + 1), z3.RealSort())
        self.dims = [z3.Function(f"dim_{d}", I, I) for d in range(rank)]

    def get(self, i):
        i = z3.simplify(ix(i))
        if self.identity or E.ENG.must(i == 0):
            return self.first
        for d in self.dims:
            E.ENG.assume(d(i) >= 1)
        a = SArr(tuple(Sym(d(i), "pyint") for d in self.dims), "float64", lambda idx: self.f(i, *[ix(k) for k in idx]))
        a.value_no = i
        return a

    def same(self, name, x, i):
        """x is value i"""
        en = E.ENG
        y = self.get(i)
        if x is y:
            return
        if not isinstance(x, SArr) or isinstance(x.shape_, OShape):
            raise Unsupported("a value of an unexpected form")
        en.prove(name + ": dimensions", z3.And(len(x.shape_) == len(y.shape_), *[ix(a) == ix(b) for a, b in zip(x.shape_, y.shape_)]))
        at = [fresh_index(0, d, "at") for d in y.shape_]
        en.prove(name, toreal(x.at(*at)) == toreal(y.at(*at)))


class Layer:
    """contract of layer i: given value i it returns value i+1"""

    def __init__(self, vals, i):
        self.vals, self.i = vals, ix(i)

    def infer(self, x):
        self.vals.same("a layer gets the output of the layer before it (the input for the first)", x, self.i)
        return x if self.vals.identity else self.vals.get(self.i + 1)


class Run(LoopSpec):
    owns = ("self",)

    def __init__(self, vals, net):
        self.vals, self.net = vals, net

    def is_first(self, v):
        f = self.vals.first
        if not isinstance(v, SArr) or isinstance(v.shape_, OShape) or len(v.shape_) != len(f.shape_):
            return False
        at = [z3.Int(E.ENG.fresh_name("cmp")) for _ in f.shape_]
        return E.ENG.must(z3.And(*[ix(a) == ix(b) for a, b in zip(v.shape_, f.shape_)], toreal(v.at(*at)) == toreal(f.at(*at))))

    def entry(self, frame):
        empty = lambda v: isinstance(v, list) and not v or isinstance(v, SList) and E.ENG.must(ix(v.n) == 0)
        own = any(frame.get(k) is self.net for k in self.loop.mutated)
        self.local = {k: frame[k] for k in self.loop.mutated if empty(frame.get(k))}
        aliased = lambda v: any(v is x for x in self.local.values())
        self.lists = {k: v for k, v in vars(self.net).items() if empty(v) and (own or aliased(v))}
        self.state = [k for k in self.loop.assigned if self.is_first(frame.get(k))]
        if not self.state:
            raise Unsupported("the value passed from layer to layer not recognised among the loop's variables")

    def havoc(self, i, frame):
        self.i = i = z3.simplify(i)
        vals = self.vals
        if not z3.is_int_value(i):
            if E.ENG.choose(2) == 0:
                E.ENG.assume(i == 0)
                i = z3.IntVal(0)
            else:
                E.ENG.assume(i >= 1)
        out = {k: vals.get(i) for k in self.state}
        new = {}
        for d, put in ((self.lists, lambda k, v: setattr(self.net, k, v)), (self.local, out.__setitem__)):
            for k, v in d.items():
                put(k, new.setdefault(id(v), SList(i, lambda j: vals.get(j + 1))))
        self.rest = {k: (v, len(v) if isinstance(v, (list, dict, set)) else None) for k, v in vars(self.net).items() if k not in self.lists}
        return out

    def check(self, i, frame):
        en, vals = E.ENG, self.vals
        i = z3.simplify(i)
        if z3.is_int_value(i) and i.as_long() == 0:
            return
        now = {k: (v, len(v) if isinstance(v, (list, dict, set)) else None) for k, v in vars(self.net).items() if k not in self.lists}
        if set(now) != set(self.rest) or any(now[k][0] is not self.rest[k][0] or now[k][1] != self.rest[k][1] for k in now):
            raise Unsupported("the loop changes attributes of the network its contract does not describe")
        for k in self.state:
            vals.same("the output of each layer is passed on", frame[k], i)
        for k, v in [(k, getattr(self.net, k)) for k in self.lists] + [(k, frame[k]) for k in self.local]:
            n = ix(len(v) if isinstance(v, list) else v.n)
            en.prove("one recorded output per layer", n == i)
            if en.must(n == i):
                vals.same("the recorded output is that of the layer", L_.Helpers.getitem(v, Sym(z3.simplify(i - 1), "pyint")), i)


class Build(LoopSpec):
    """after i operators there are i layers, in their order"""

    def __init__(self, vals, engine):
        self.vals, self.engine = vals, engine

    def entry(self, frame):
        self.lists = [k for k in set(self.loop.assigned) | set(self.loop.mutated) if isinstance(frame.get(k), list) and not frame[k]]
        if not self.lists:
            raise Unsupported("list of layers not recognised among the loop's variables")

    def havoc(self, i, frame):
        return {k: SList(i, lambda j: Layer(self.vals, j)) for k in self.lists}

    def check(self, i, frame):
        en = E.ENG
        i = z3.simplify(i)
        for k in self.lists:
            v = frame[k]
            n = ix(len(v) if isinstance(v, list) else v.n)
            en.prove("one layer per operator so far", n == i)
            if not (z3.is_int_value(i) and i.as_long() == 0) and en.must(n == i):
                x = L_.Helpers.getitem(v, Sym(z3.simplify(i - 1), "pyint"))
                en.prove("the layer built from the operator is added at its place", x.i == i - 1 if isinstance(x, Layer) else False)
                en.prove("it is built by the builder of the engine", getattr(x, "kind", None) == self.engine.upper())


CURRENT = {}


def stubbed(ld, tflite, onnx):
    """the network module with the two builders replaced by their contracts, however it gets hold of them"""
    CURRENT.update(build_layer=tflite, build_operator=onnx)
    for mod, f in (("itcl_inference_engine.layers.tflite.build_layer", "build_layer"), ("itcl_inference_engine.layers.onnx.build_operator", "build_operator")):
        b = ld.load(mod)
        if not getattr(vars(b)[f], "contract", False):
            stub = (lambda f: lambda op: CURRENT[f](op))(f)
            stub.contract = True
            setattr(b, f, stub)
    return ld.load(SQ)


MARK = {"engine": "described by the file", "graph": [1.5, None, "\u00e9"]}


def from_file(ld, m, schema):
    """the network of a scratch file: the file holds a marker, which parses to the given description"""
    import json, os, tempfile
    CURRENT["json"] = schema
    known = lambda d: CURRENT["json"] if d == MARK else d
    js = types.ModuleType("json")
    js.__dict__.update({k: v for k, v in vars(json).items() if not k.startswith("__")})
    js.load = lambda f, **k: known(json.load(f, **k))
    js.loads = lambda s, **k: known(json.loads(s, **k))
    m.__dict__["open"] = open
    for k, v in list(vars(m).items()):
        if v is json:
            setattr(m, k, js)
        elif v is json.load or v is json.loads:
            setattr(m, k, getattr(js, v.__name__))
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "model.json")
        with open(p, "w", encoding="utf-8") as f:
            json.dump(MARK, f, ensure_ascii=False)
        before = open(p, "rb").read()
        net = m.SequentialNetwork.from_json_file(p)
        E.ENG.prove("the file is only read", os.listdir(d) == ["model.json"] and open(p, "rb").read() == before)
    return net


def network(ld, vals, n, engine, quant, sx, zx, file=False):
    def builder(kind_):
        def b(op):
            l = Layer(vals, op["number"])
            l.kind = kind_
            return l
        return b
    m = stubbed(ld, builder("TFLITE"), builder("ONNX"))
    name = "Quantize 0" if quant else "dense"
    graph = SList(n, lambda j: {"name": name, "op_type": "op", "number": z3.simplify(ix(j)), "inputs": [], "outputs": []})
    node = {"scale": sx, "zero_point": zx, "tensor": None}
    schema = {"engine": engine, "generated_at": "now", "input": [node], "output": [dict(node)], "graph": graph}
    kept = dict(schema)
    net = from_file(ld, m, schema) if file else m.SequentialNetwork(schema)
    E.ENG.prove("the network is one of its class", type(net) is m.SequentialNetwork)
    E.ENG.prove("the network keeps its description", isinstance(net.schema, dict) and net.schema.keys() == kept.keys() and all(net.schema[k] is v for k, v in kept.items()))
    return m, net


def run(engine, quant, rank, verbose, identity=False, file=False):
    def h(en, ld):
        n = new_int("layers", 1)
        dims = tuple(new_int(f"d{k}", 1) for k in range(rank))
        X = new_array("x", dims, "float64")
        sx, zx = new_real("input_scale", pos=True), new_int("input_zp", -128, 127)
        x0 = X.snapshot()

        def first(idx):
            v = x0(tuple(ix(k) for k in idx))
            return v if quant else toreal(clipz(nearest_up(v / sx.e + toreal(zx.e)), -128, 127))
        vals = Values(rank, SArr(dims, "float64", first), identity)
        phase = ["build"]
        LOOP_SPECS.append(lambda site, seq, frame: Build(vals, engine) if phase[0] == "build" else Run(vals, net))
        m, net = network(ld, vals, n, engine, quant, sx, zx, file)
        en.prove("one layer per operator", ix(len(net.layers) if isinstance(net.layers, list) else net.layers.n) == n.e)
        j = fresh_index(0, n, "number")
        en.prove("layers are in the order of the operators", L_.Helpers.getitem(net.layers, Sym(j, "pyint")).i == j)
        phase[0] = "run"
        en.cover("precondition")
        for turn in ("first", "second"):
            y = net.infer(X, verbose=verbose)
            vals.same(f"{turn} inference: the result is the output of the last layer", y, n)
            rec = net._intermediate_results
            en.prove(f"{turn} inference: one recorded output per layer", ix(len(rec) if isinstance(rec, list) else rec.n) == n.e)
            vals.same(f"{turn} inference: recorded outputs are those of the layers in order", L_.Helpers.getitem(rec, Sym(j, "pyint")), j + 1)
            unchanged(en, f"{turn} inference: input not modified", X, x0)
    return h


def unknown_engine(en, ld):
    m = stubbed(ld, lambda op: None, lambda op: None)
    node = {"scale": 1.0, "zero_point": 0, "tensor": None}
    op = {"name": "dense", "op_type": "dense"}
    for e in ("keras", "", "TF", "ONNXRUNTIME", "tflite2"):
        try:
            m.SequentialNetwork({"engine": e, "input": [node], "output": [node], "graph": [op]})
            ok = False
        except ValueError:
            ok = True
        en.prove(f"engine {e!r} is rejected", ok)
    for k in ("input", "output"):
        d = {"engine": "ONNX", "input": [node], "output": [node], "graph": [op]}
        d[k] = [None]
        try:
            m.SequentialNetwork(d)
            ok = False
        except ValueError:
            ok = True
        en.prove(f"a network without {k} tensor is rejected", ok)


HARNESSES = [(f"network[{e},{'quantised input' if not q else 'quantising layers'},rank {r},verbose={v}]", run(e, q, r, v)) for e, q, r, v in
             [("TFLITE", True, 2, False), ("onnx", False, 2, True), ("ONNX", True, 1, True), ("tflite", False, 3, False)]] + [
    ("network of a file[ONNX,quantising layers]", run("ONNX", True, 2, False, file=True)), ("network of a file[TFLITE,quantised input]", run("TFLITE", False, 2, False, file=True)),
    ("network whose layers return the object they get", run("TFLITE", True, 2, False, True)), ("rejections", unknown_engine)]
