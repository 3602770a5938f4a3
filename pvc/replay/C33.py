import stubs  # noqa
import json, random, threading
import numpy as np
from types import SimpleNamespace as NS
import demo_lib.fpga as fpga
from C30 import SlowEvent
RULE = "the real LossFPGA against a fake broker and accelerator (reply during publish, from another thread, or missing; several calls, replies left over from before), and real sample sets of 1..9 samples, ranks 1-3, int and float: one description per call and its own loss, errors for missing replies, every sample and target once and in order in the exported set; non-trivial: more than one call or sample"


def cases(rng, tier):
    for k in range(260 if tier == "quick" else 2500):
        if k % 2:
            yield {"what": "loss", "calls": [[rng.choice(["sync", "sync", "thread", "none"]), rng.choice([0, 1, -3, 0.25, 1e-9, rng.uniform(0, 5)])] for _ in range(rng.choice([1, 1, 2, 3, 4]))],
                   "stale": rng.choice([None, None, 777.0, 0]), "same": rng.random() < .3, "slow": rng.random() < .6}
        else:
            yield {"what": "set", "n": rng.choice([1, 1, 2, 3, 5, 9]), "rx": rng.choice([1, 2, 2, 3]), "ry": rng.choice([1, 2, 2, 3]), "dtype": rng.choice(["float64", "float32", "int8", "uint8"]), "order": rng.choice(["C", "C", "F", "slice"]), "seed": rng.randrange(10 ** 6)}


def trivial(c):
    return len(c.get("calls", range(c.get("n", 0)))) < 2


class Broker:
    def __init__(self):
        self.cb, self.topics, self.sent, self.mode, self.value, self.threads = {}, [], [], "sync", None, []

    def subscribe(self, topic, qos=0):
        self.topics += [topic] if isinstance(topic, str) else [t[0] for t in topic]

    def message_callback_add(self, topic, f):
        self.cb[topic] = f

    def answer(self, v):
        if "loss" in self.topics and "loss" in self.cb:
            self.cb["loss"](self, None, NS(topic="loss", payload=json.dumps({"loss": v}).encode()))

    def publish(self, topic, payload=None, qos=0, retain=False):
        self.sent.append((topic, json.loads(payload)))
        if topic != "mod":
            return
        if self.mode == "sync":
            self.answer(self.value)
        elif self.mode == "thread":
            t = threading.Timer(.003, self.answer, (self.value,))
            self.threads.append(t)
            t.start()


def run(c):
    if c["what"] == "set":
        return sample_set(c)
    T = NS(**{k: getattr(threading, k) for k in dir(threading) if not k.startswith("__")})
    T.Event = SlowEvent if c["slow"] else threading.Event
    fpga.threading = T
    b = Broker()
    f = fpga.LossFPGA(b, "loss", "mod", 0, .02 if any(m == "none" for m, _ in c["calls"]) else 60)
    if any(m == "none" for m, _ in c["calls"]):         # short time-out: no race with a thread
        c = dict(c, calls=[["sync" if m == "thread" else m, v] for m, v in c["calls"]])
    if "loss" not in b.topics or "loss" not in b.cb:
        return "the loss topic is not subscribed to"
    if c["stale"] is not None:
        b.answer(c["stale"])
    for n, (mode, v) in enumerate(c["calls"]):
        b.sent, b.mode, b.value = [], mode, v
        schema = {"network": [n if not c["same"] else 0, {"x": [1.5, None, "y"]}]}
        try:
            r = f(NS(schema=schema))
        except Exception as ex:
            r = ex
        for t in b.threads:
            t.join()
        if b.sent != [("mod", schema)]:
            return f"call {n} of {c['calls']}: messages {b.sent}, expected the network's description once"
        if mode == "none":
            if not isinstance(r, Exception):
                return f"call {n} of {c['calls']}: never answered, yet the loss is {r!r}"
        elif isinstance(r, Exception):
            return f"call {n} of {c['calls']}: answered {v}, yet it raises {r!r}"
        elif not isinstance(r, float) or r != v:
            return f"call {n} of {c['calls']}: the loss is {r!r}, reported was {v!r}"


def rows(kv, x, ident, what):
    if set(kv) != {"id", "shape", "tensor"} or kv["id"] != ident:
        return f"{what}: fields {sorted(kv)}, id {kv.get('id')!r}"
    want = x.reshape(len(x), -1)
    if kv["shape"] != list(want.shape) or kv["tensor"] != want.flatten().tolist():
        return f"{what}: shape {kv['shape']} values {kv['tensor'][:8]}, the array's {list(want.shape)}, {want.flatten().tolist()[:8]}"


def sample_set(c):
    rng = np.random.RandomState(c["seed"])
    x, y = ((rng.randint(0, 100, size=s) if dt.endswith("int8") else rng.randn(*s)).astype(dt) for s, dt in
            (((c["n"],) + tuple(rng.randint(1, 4, size=r - 1)), d) for r, d in ((c["rx"], c["dtype"]), (c["ry"], "float64"))))
    if c["order"] == "F":           # the same values, stored column by column
        x, y = np.asfortranarray(x), np.asfortranarray(y)
    elif c["order"] == "slice":     # a view
        x, y = np.repeat(x, 2, axis=0)[::2], y[::-1]
    keep = x.copy(), y.copy()
    io = fpga.InputOutput.from_numpy("set", x, y)
    d = json.loads(io.as_json())
    if set(d) != {"input", "output"}:
        return f"the sample set has {sorted(d)}"
    e = (rows(d["input"], keep[0], "set", "inputs") or rows(d["output"], keep[1], "set", "targets")
         or rows(json.loads(fpga.Input.from_numpy("a", x).as_json()), keep[0], "a", "input") or rows(json.loads(json.dumps(fpga.Output.from_numpy("b", y).as_kv())), keep[1], "b", "output"))
    if e:
        return e
    if not ((x == keep[0]).all() and (y == keep[1]).all()):
        return "the arrays changed"
    r = fpga.Output.from_kv(d["output"]).as_numpy()
    if r.shape != (c["n"], y.size // c["n"]) or not (r == y.reshape(c["n"], -1)).all():
        return f"an output of shape {y.shape} is read back as {r.shape}"
