import stubs  # noqa
import copy, json, os, pathlib, tempfile
import yaml
import itcl_quantizer.config.models.keras as K
RULE = "the real configuration classes (pydantic by a stand-in): files of arbitrary settings read as JSON and YAML, searches built from arbitrary settings, and configurations of 0 to 3 layers with settings of their own made TFLite compatible once and twice; non-trivial: a layer with its own settings, or a given setting"
FIELDS = {"dense": K.KerasDenseCfg, "quantize": K.QuantizeCfg, "dequantize": K.DequantizeCfg}
yaml.safe_load = lambda f: json.loads(f.read() if hasattr(f, "read") else f)
yaml.load = lambda f, *a, **k: yaml.safe_load(f)


def rounding(rng):
    return rng.choice([None, ["base", {"max_retries": rng.randrange(200)}], ["base", {}], ["qubo", {}],
                       ["annealer", {k: v for k, v in (("t_min", rng.choice([.1, 1e-6, 3])), ("t_max", rng.choice([25000, 1.5, 10])), ("updates", rng.randrange(200)), ("steps", rng.choice([0, 1, 77, 9000])), ("max_retries", rng.randrange(200))) if rng.random() < .7}]])


def dense(rng):
    d = {k: rng.choice(["int8", "int16", "uint8", "int32"]) for k in ("activation_dtype", "bias_add_dtype", "bias_dtype", "kernel_dtype") if rng.random() < .6}
    return dict(d, kernel_symmetric=rng.random() < .3, adaround_optimizer=rounding(rng), lut_cfg=rng.randrange(6))


def layer(rng):
    return ["dense", dense(rng)] if rng.random() < .7 else rng.choice([["quantize", {"dtype": "int16"}], ["dequantize", {}]])


def cases(rng, tier):
    for k in range(400 if tier == "quick" else 4000):
        w = k % 3
        if w == 0:
            yield {"what": "tflite", "dense": rng.choice([None, dense(rng)]), "net": rounding(rng), "eq": rng.choice([None, 5, 100]),
                   "layers": {n: layer(rng) for n in rng.sample(["dense", "dense_1", "out", "\u00e9"], rng.choice([0, 1, 1, 2, 3]))}}
        elif w == 1:
            val = lambda: rng.choice([None, 3, "int8", {"kernel_dtype": "int16", "kernel_symmetric": True}, {"optimizer": "qubo"}, {"l\u00e4yer": {"dtype": "int4"}}, {}, [1, 2]])
            yield {"what": "read", "as": rng.choice(["json", "yml"]), "path": rng.random() < .5,
                   "file": {n: val() for n in ("dense", "quantize", "dequantize", "ada_round_net", "param_equalizer", "specific_layers") if rng.random() < .5}}
        else:
            yield {"what": "build", "cfg": rounding(rng) or ["annealer", {}]}


def trivial(c):
    return c["what"] == "tflite" and not c["layers"] or c["what"] == "read" and not c["file"]


ROUND = {"base": K.RoundingMinimaCfg, "annealer": K.RoundingAnnealerCfg, "qubo": K.RoundingQUBOCfg}
mk_round = lambda r: r and ROUND[r[0]](**r[1])


def mk_dense(d):
    return K.KerasDenseCfg(**dict(d, adaround_optimizer=mk_round(d["adaround_optimizer"]), lut_cfg=K.ActivationCfg(reduced_depth=d["lut_cfg"])))


def tree(o):
    if isinstance(o, K.BaseModel):
        return [type(o).__name__, {k: tree(v) for k, v in vars(o).items()}]
    return {k: tree(v) for k, v in o.items()} if isinstance(o, dict) else copy.deepcopy(o)


def run(c):
    return globals()[c["what"]](c)


def tflite(c):
    a = {} if c["dense"] is None else {"dense": mk_dense(c["dense"])}
    cfg = K.QuantizerCfg(ada_round_net=mk_round(c["net"]), param_equalizer=None if c["eq"] is None else K.ParamEqualizerCfg(max_retries=c["eq"]),
                         specific_layers={n: mk_dense(d) if k == "dense" else FIELDS[k](**d) for n, (k, d) in c["layers"].items()}, **a)
    want = tree(cfg)
    want[1]["ada_round_net"] = want[1]["param_equalizer"] = None
    for t in [want[1]["dense"], *want[1]["specific_layers"].values()]:
        if t[0] == "KerasDenseCfg":
            t[1]["kernel_symmetric"] = True
    for turn in ("once", "twice"):
        cfg.tflite()
        got = tree(cfg)
        if got != want:
            return f"made compatible {turn}: {got}, expected {want}"


def read(c):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "cfg")
        with open(p, "w", encoding="utf-8") as f:
            json.dump(c["file"], f, ensure_ascii=False)
        b = open(p, "rb").read()
        q = pathlib.Path(p) if c["path"] else p
        r = K.QuantizerCfg.from_json(q) if c["as"] == "json" else K.QuantizerCfg.from_yml(q)
        if open(p, "rb").read() != b or os.listdir(d) != ["cfg"]:
            return "reading changed the file"
    want = tree(K.QuantizerCfg())
    want[1].update(c["file"])
    if tree(r) != want:
        return f"read {tree(r)}, the file says {c['file']}"


def build(c):
    kind, given = c["cfg"]
    cfg = mk_round(c["cfg"])
    old = tree(cfg)
    a, b = cfg.build(), cfg.build()
    if a is b or tree(cfg) != old:
        return "a build is not a search of its own or changes its settings"
    if kind == "qubo":
        return None if isinstance(a, K.QUBOAnnealer) else f"{a!r} is no QUBO search"
    want = dict(old[1], **given)
    if kind == "base":
        want["steps"] = 0
    for r in (a, b):
        for k, n in (("t_min", "Tmin"), ("t_max", "Tmax"), ("updates", "updates"), ("steps", "steps")):
            if k in want and getattr(r, n) != want[k]:
                return f"{kind} {given}: {k} is {getattr(r, n)}, configured {want[k]}"
        ref = K.RoundingAnnealer(max_retries=-77)
        n = next((k for k, v in vars(ref).items() if v == -77), None)
        if n is None or getattr(r, n) != want["max_retries"]:
            return f"{kind} {given}: retries not as configured"
