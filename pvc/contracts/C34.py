"""C34: a quantiser configuration read from a file, built, and made TFLite compatible.

Settings are opaque values: what the code does must not depend on them.  pydantic is a stand-in that keeps the given
values and takes the class's defaults for the others."""
import json, os, pathlib, tempfile, types
from .common import *
from pvc import loader as L_
from pvc.loader import LoopSpec, LOOP_SPECS
from . import C25, C31

CM = "itcl_quantizer.config.models.keras"
TRUSTED = ["pydantic models keep the values they are given, convert nested descriptions to the model of their field and copy their defaults; json and yaml parse a file to its contents",
           "simanneal.Annealer takes its schedule from Tmax, Tmin, steps and updates"]


class Default:
    def __init__(self, make):
        self.make = make


class BaseModel:
    """pydantic: fields from keywords, else a copy of the class's defaults"""

    def __init__(self, **k):
        d = {}
        for c in reversed(type(self).__mro__):
            for n in getattr(c, "__annotations__", {}):
                if n in vars(c):
                    v = vars(c)[n]
                    d[n] = v.make() if isinstance(v, Default) else type(v)(v) if isinstance(v, (dict, list)) else v
        d.update(k)
        self.__dict__.update(d)

    @classmethod
    def parse_obj(cls, d):
        return cls(**d)
    model_validate = parse_obj


def load(ld):
    p = types.ModuleType("pydantic")
    p.BaseModel, p.Field = BaseModel, lambda default=None, default_factory=None, **k: Default(default_factory or (lambda: default))
    ld.modules["pydantic"] = p
    y = types.ModuleType("yaml")
    text = lambda f: f.read() if hasattr(f, "read") else f
    y.safe_load = lambda f: known(json.loads(text(f)))
    y.SafeLoader = y.FullLoader = y.CSafeLoader = object()
    y.load = lambda f, Loader=None: known(json.loads(text(f)))
    ld.modules["yaml"] = y
    C31.load(ld)
    C25.annealer(ld)
    return ld.load(CM)


class Opaque:
    """a setting of which nothing is known"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<{self.name}>"


def rounding(en, m, of):
    k = en.choose(4, f"rounding of {of}: none, minima, annealing, QUBO")
    f = lambda *names: {n: Opaque(f"{of}.rounding.{n}") for n in names}
    return [lambda: None, lambda: m.RoundingMinimaCfg(**f("max_retries")), lambda: m.RoundingAnnealerCfg(**f("t_min", "t_max", "updates", "steps", "max_retries")), lambda: m.RoundingQUBOCfg()][k]()


def dense(en, m, of):
    names = ("activation_dtype", "bias_add_dtype", "bias_dtype", "kernel_dtype")
    return m.KerasDenseCfg(kernel_symmetric=bool(en.choose(2, f"{of} symmetric")), adaround_optimizer=rounding(en, m, of),
                           lut_cfg=m.ActivationCfg(reduced_depth=Opaque(of + ".depth")), **{n: Opaque(f"{of}.{n}") for n in names})


def settings(en, m, of):
    k = en.choose(3, f"{of}: dense, quantise, dequantise")
    return dense(en, m, of) if k == 0 else m.QuantizeCfg(dtype=Opaque(of + ".dtype")) if k == 1 else m.DequantizeCfg()


def snap(o):
    """all settings below o, by identity"""
    if isinstance(o, BaseModel):
        return (type(o), id(o), {k: snap(v) for k, v in vars(o).items()})
    if type(o) is dict:
        return ("dict", id(o), {k: snap(v) for k, v in o.items()})
    return ("value", id(o), o)


def compatible(en, name, m, o, before):
    """o is as it was, except that a dense layer's kernel is symmetric"""
    if isinstance(o, m.KerasDenseCfg):
        en.prove(name + ": a dense layer's kernel is symmetric", getattr(o, "kernel_symmetric", None) is True)
        now = snap(o)
        en.prove(name + ": every other setting is kept", strip(now) == strip(before))
    else:
        en.prove(name + ": a layer of another kind keeps its settings", snap(o) == before)


def strip(s, *also):
    return (s[0], s[1], {k: v for k, v in s[2].items() if k != "kernel_symmetric" and k not in also})


class Layers(dict):
    """layers with settings of their own: any number, any names, any kinds"""

    def __init__(self, en, m):
        self.en, self.m, self.n, self.made, self.before = en, m, new_int("layers", 0), {}, {}

    def entry(self, i):
        k = z3.simplify(ix(i)).sexpr()
        if k not in self.made:
            self.made[k] = settings(self.en, self.m, f"layer {len(self.made)}")
            self.before[k] = snap(self.made[k])
        return self.made[k]

    def was(self, i):
        self.entry(i)
        return self.before[z3.simplify(ix(i)).sexpr()]

    def name(self, i):
        o = self.entry(i)
        if not hasattr(self, "names"):
            self.names = {}
        return self.names.setdefault(id(o), Name(i))

    def values(self):
        return L_.LazySeq(self.n, self.entry)

    def items(self):
        return L_.LazySeq(self.n, lambda i: (self.name(i), self.entry(i)))

    def keys(self):
        return L_.LazySeq(self.n, self.name)

    def __getitem__(self, k):
        if not isinstance(k, Name):
            raise Unsupported("a layer by a name of its own")
        return self.entry(k.i)

    get = lambda self, k, d=None: self[k]

    def refuse(self, *a, **k):
        raise Unsupported("an operation on the dictionary of layers that its contract does not describe")
    __iter__ = __len__ = __setitem__ = __delitem__ = __contains__ = update = pop = popitem = setdefault = clear = copy = __or__ = __ior__ = __eq__ = refuse

    def __bool__(self):
        return bool(self.en.branch(self.n.e > 0))


class Name:
    def __init__(self, i):
        self.i = i


def holds(x, o):
    return x is o or isinstance(x, tuple) and any(holds(y, o) for y in x) or isinstance(x, Name) and holds_name(x, o)


def holds_name(x, o):
    return Layers.now.entry(x.i) is o


class Each(LoopSpec):
    """after i turns the first i elements are compatible; nothing else changes"""

    def __init__(self, layers, cfg, seq):
        self.layers, self.cfg, self.seq = layers, cfg, seq

    def entry(self, frame):
        self.done = None

    def base(self):
        return {k: snap(v) for k, v in vars(self.cfg).items()}

    def havoc(self, i, frame):
        self.at, self.old, self.i = None, self.base(), i
        return {}

    def check(self, i, frame):
        if z3.is_int_value(z3.simplify(i)) and z3.simplify(i).as_long() == 0:
            return
        en, ls = E.ENG, self.layers
        x = L_.seq_get(self.seq, z3.simplify(i - 1))
        mine = [k for k, o in ls.made.items() if holds(x, o)]
        new = self.base()
        for k, o in ls.made.items():
            if k in mine:
                compatible(en, "the layer handled", ls.m, o, ls.before[k])
            else:
                en.prove("other layers are left alone", snap(o) == ls.before[k])
        en.prove("the configuration itself is left alone", new == self.old)

    def on_exit(self, frame):
        self.layers.covered.append(self.seq)


def tflite(en, ld):
    m = load(ld)
    layers = Layers(en, m)
    Layers.now = layers
    layers.covered = []
    cfg = m.QuantizerCfg(dense=dense(en, m, "default"), quantize=m.QuantizeCfg(dtype=Opaque("dtype")), dequantize=m.DequantizeCfg(), ada_round_net=rounding(en, m, "network"),
                         param_equalizer=m.ParamEqualizerCfg(max_retries=Opaque("retries")) if en.choose(2, "equaliser") else None, specific_layers=layers)
    old = {k: snap(v) for k, v in vars(cfg).items()}
    d = cfg.dense
    specs = lambda site, seq, frame: Each(layers, cfg, seq) if isinstance(seq, L_.LazySeq) else None
    LOOP_SPECS.append(specs)
    en.cover("precondition")
    cfg.tflite()
    LOOP_SPECS.remove(specs)
    finished(en, m, cfg, old, d, layers)
    j = fresh_index(0, layers.n, "layer")
    o = layers.entry(j)
    reached = any(holds(L_.seq_get(s, z3.simplify(at)), o) for s in layers.covered for at in (ix(j), z3.simplify(ix(j) + ix(s.n) - layers.n.e)))
    en.prove("every layer with settings of its own is made compatible", reached)


def finished(en, m, cfg, old, d, layers):
    en.prove("no network rounding", cfg.ada_round_net is None)
    en.prove("no parameter equalisation", cfg.param_equalizer is None)
    en.prove("the same settings objects", cfg.dense is d and cfg.specific_layers is layers)
    compatible(en, "the default settings", m, cfg.dense, old["dense"])
    en.prove("nothing else changes", {k: snap(v) for k, v in vars(cfg).items() if k not in ("dense", "ada_round_net", "param_equalizer", "specific_layers")}
             == {k: v for k, v in old.items() if k not in ("dense", "ada_round_net", "param_equalizer", "specific_layers")})


def few(n):
    def h(en, ld):
        m = load(ld)
        layers = {f"l{i}": settings(en, m, f"layer {i}") for i in range(n)}
        was = {k: snap(v) for k, v in layers.items()}
        cfg = m.QuantizerCfg(dense=m.KerasDenseCfg(kernel_dtype=Opaque("k")), specific_layers=layers)
        old = {k: snap(v) for k, v in vars(cfg).items()}
        d, kept = cfg.dense, dict(layers)
        en.cover("precondition")
        for turn in ("once", "twice"):
            cfg.tflite()
            finished(en, m, cfg, old, d, layers)
            en.prove("the same layers", set(layers) == set(kept) and all(layers[k] is kept[k] for k in kept))
            for k in kept:
                compatible(en, f"a layer with settings of its own, {turn}", m, kept[k], was[k])
    return h


MARK = {"dense": {"kernel_dtype": "described by the file \u00e9"}, "x": [1.5, None]}
CURRENT = {}


def known(d):
    return CURRENT["cfg"] if d == MARK else d


def read(kind):
    def h(en, ld):
        m = load(ld)
        names = ("dense", "quantize", "dequantize", "ada_round_net", "param_equalizer", "specific_layers")
        given = {n: Opaque(n) for n in names if en.choose(2, n + " given")}
        CURRENT["cfg"] = dict(given)
        js = types.ModuleType("json")
        js.__dict__.update({k: v for k, v in vars(json).items() if not k.startswith("__")})
        js.load = lambda f, **k: known(json.load(f, **k))
        js.loads = lambda s, **k: known(json.loads(s, **k))
        m.__dict__["open"] = open
        for k, v in list(vars(m).items()):
            if v is json:
                setattr(m, k, js)
            elif v is json.load or v is json.loads:
                setattr(m, k, getattr(js, v.__name__))
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, "cfg." + kind)
            with open(p, "w", encoding="utf-8") as f:
                json.dump(MARK, f, ensure_ascii=False)
            before = open(p, "rb").read()
            en.cover("precondition")
            f = m.QuantizerCfg.from_json if kind == "json" else m.QuantizerCfg.from_yml
            r = f(pathlib.Path(p) if en.choose(2, "path object") else p)
            en.prove("the file is only read", os.listdir(d) == ["cfg." + kind] and open(p, "rb").read() == before)
        if not en.prove("a configuration", isinstance(r, m.QuantizerCfg)):
            return
        base = m.QuantizerCfg()
        for n in names:
            v = vars(r).get(n)
            if n in given:
                en.prove("the value of the file", v is given[n])
            else:
                en.prove("the default where the file says nothing", shape(v) == shape(vars(base)[n]))
        en.prove("no further settings", set(vars(r)) == set(vars(base)))
    return h


def shape(o):
    return (type(o).__name__, {k: shape(v) for k, v in vars(o).items()}) if isinstance(o, BaseModel) else o


def built(kind):
    def h(en, ld):
        m = load(ld)
        mk = {"annealer": m.RoundingAnnealerCfg, "base": m.RoundingMinimaCfg, "qubo": m.RoundingQUBOCfg}[kind]
        fields = {"annealer": ("t_min", "t_max", "updates", "steps", "max_retries"), "base": ("max_retries",), "qubo": ()}[kind]
        given = {n: (new_real(n) if n[0] == "t" else new_int(n, 0)) for n in fields if en.choose(2, n + " given")}
        c = mk(**given)
        old = dict(vars(c))
        en.cover("precondition")
        a, b = c.build(), c.build()
        en.prove("each build is a new search", a is not b)
        now = dict(vars(c))
        en.prove("the settings are kept", set(now) == set(old) and all(now[k] is old[k] for k in old))
        for r in (a, b):
            if kind == "qubo":
                en.prove("a QUBO search", isinstance(r, m.QUBOAnnealer))
                continue
            if not en.prove("an annealing search", isinstance(r, m.RoundingAnnealer)):
                return
            want = {k: old[k] for k in fields}
            if kind == "base":
                want["steps"] = 0
            if not en.prove("retries are kept by the search", retries(m) is not None):
                return
            eq = lambda x, y: toreal(T.sym(x).e) == toreal(T.sym(y).e)
            for k, attr in (("t_min", "Tmin"), ("t_max", "Tmax"), ("updates", "updates"), ("steps", "steps")):
                if k in want:
                    en.prove(f"{k} as configured", eq(getattr(r, attr), want[k]))
            en.prove("retries as configured", eq(getattr(r, retries(m)), want["max_retries"]))
    return h


def retries(m):
    """the attribute that holds the retries, found by giving a value of its own"""
    mark = Opaque("retries")
    return next((k for k, v in vars(m.RoundingAnnealer(max_retries=mark)).items() if v is mark), None)


BOUND = "0 to 3 layers with settings of their own, by the concrete runner"
HARNESSES = [("compatible[any number of layers]", tflite, {"standin": BOUND})]
HARNESSES += [(f"compatible[{n} layers]", few(n)) for n in (0, 1, 2)]
HARNESSES += [(f"read[{k}]", read(k)) for k in ("json", "yml")]
HARNESSES += [(f"build[{k}]", built(k)) for k in ("annealer", "base", "qubo")]
