import stubs  # noqa
import json, logging, random, threading, time
import numpy as np
from types import SimpleNamespace as NS
import demo_lib.fpga as fpga
logging.getLogger("demo_lib.fpga").addHandler(logging.NullHandler())
logging.getLogger("demo_lib.fpga").propagate = False
RULE = "the real InferFPGAMQTT against a fake broker and accelerator (reply during publish, from another thread, or missing), data sets of 0..max*5+1 samples around multiples of the maximum batch, ranks 1-3, int and float samples, several calls on one object, a reply left over from before: messages hold every sample once, in order, no more than the maximum each, model first; one result per sample in order; non-trivial: more than one message"


def cases(rng, tier):
    for _ in range(150 if tier == "quick" else 1500):
        M = rng.choice([1, 1, 2, 3, 4, 5, 7, 8, 16, 33])
        calls = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.randint(0, 5)
            N = max(0, rng.choice([k * M, k * M + 1, k * M - 1, k * M + M // 2, rng.randint(0, 5 * M + 1)]))
            calls.append([N, rng.choice(["sync", "sync", "thread"]), rng.choice([None] * 6 + [0, 1, 2, 9])])
        if any(d is not None for *_, d in calls):        # short time-out: no race with a thread
            calls = [[n, "sync", d] for n, _, d in calls]
        yield {"max": M, "calls": calls, "rank": rng.choice([1, 2, 2, 3]), "dtype": rng.choice(["float64", "float32", "int8"]), "m": rng.choice([1, 1, 2, 3]),
               "stale": rng.random() < .3, "seed": rng.randrange(10 ** 6)}


def trivial(c):
    return all(n <= c["max"] for n, *_ in c["calls"])


class SlowEvent(threading.Event().__class__):
    """the waiting thread runs before the notifying one goes on"""

    def set(self):
        super().set()
        if threading.current_thread() is not threading.main_thread():
            time.sleep(.01)


class Broker:
    def __init__(self, m):
        self.m, self.cb, self.topics, self.sent, self.mode, self.drop, self.threads, self.bad = m, {}, [], [], "sync", None, [], None

    def subscribe(self, topic, qos=0):
        self.topics += [topic] if isinstance(topic, str) else [t[0] for t in topic]

    def message_callback_add(self, topic, f):
        self.cb[topic] = f

    def result(self, row):
        return [float(np.dot(row, np.arange(1, len(row) + 1))) * (j + 1) + j for j in range(self.m)]

    def answer(self, rows):
        kv = {"id": "0", "shape": [len(rows), self.m], "tensor": [v for r in rows for v in self.result(r)]}
        if "res" in self.topics and "res" in self.cb:
            self.cb["res"](self, None, NS(topic="res", payload=json.dumps(kv).encode()))

    def publish(self, topic, payload=None, qos=0, retain=False):
        self.sent.append((topic, json.loads(payload)))
        if topic != "inf":
            return
        kv = self.sent[-1][1]["input"]
        k = sum(t == "inf" for t, _ in self.sent) - 1
        if k == self.drop:
            return
        rows = np.array(kv["tensor"], dtype=float).reshape(kv["shape"])
        if self.mode == "sync":
            self.answer(rows)
        else:
            t = threading.Timer(.003, self.answer, (rows,))
            self.threads.append(t)
            t.start()


def run(c):
    rng = np.random.RandomState(c["seed"])
    b = Broker(c["m"])
    T = NS(**{k: getattr(threading, k) for k in dir(threading) if not k.startswith("__")})
    T.Event = SlowEvent if c["seed"] % 3 else threading.Event
    fpga.threading = T
    f = fpga.InferFPGAMQTT(mqtt_client=b, result_topic="res", model_topic="mod", infer_topic="inf", max_batch_size=c["max"], qos=0,
                      timeout=.05 if any(d is not None for *_, d in c["calls"]) else 60)
    if "res" not in b.topics or "res" not in b.cb:
        return "the result topic is not subscribed to"
    if c["stale"]:
        b.answer(np.full((3, 2), 777.))
    for n, (N, mode, drop) in enumerate(c["calls"]):
        shape = (N,) + tuple(rng.randint(1, 4, size=c["rank"] - 1))
        x = (rng.randint(-100, 100, size=shape) if c["dtype"] == "int8" else rng.randn(*shape)).astype(c["dtype"])
        rows = x.reshape(N, -1).astype(float) if N else np.zeros((0, 1))
        b.sent, b.mode, b.drop, b.threads = [], mode, drop, []
        keep = x.copy()
        schema = {"network": [n, "x"]}
        r = f(NS(schema=schema), x)
        for t in b.threads:
            t.join()
        ctx = f"call {n}: {N} samples, maximum batch {c['max']}, shape {shape}"
        if not (x == keep).all():
            return f"{ctx}: the samples changed"
        if [t for t, _ in b.sent][:1] != ["mod"] or b.sent[0][1] != schema or any(t != "inf" for t, _ in b.sent[1:]):
            return f"{ctx}: messages {[t for t, _ in b.sent]}, the model is expected once and first"
        got = []
        for t, d in b.sent[1:]:
            kv = d["input"]
            if kv["shape"][0] > c["max"]:
                return f"{ctx}: a message holds {kv['shape'][0]} samples"
            if kv["shape"][0] < 1 or kv["shape"][1] != rows.shape[1] or len(kv["tensor"]) != kv["shape"][0] * kv["shape"][1]:
                return f"{ctx}: a message has shape {kv['shape']} and {len(kv['tensor'])} values"
            got += [kv["tensor"][k * rows.shape[1]:(k + 1) * rows.shape[1]] for k in range(kv["shape"][0])]
        lost = drop is not None and drop < len(b.sent) - 1
        want = rows.tolist()
        if lost:
            want = want[:len(got)]
        if got != want:
            k = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
            return f"{ctx}: {len(got)} samples were sent, sample {k} as {got[k] if k < len(got) else None}, expected {want[k] if k < len(want) else None}"
        if lost:
            if r is not None:
                return f"{ctx}: message {drop} was never answered, yet there is a result of {len(r)} rows"
            continue
        if r is None:
            return f"{ctx}: no result"
        res = np.array([b.result(v) for v in rows]).reshape(N, -1) if N else np.zeros((0, 1))
        r = np.asarray(r)
        if len(r) != N or (N and (r.shape != res.shape or not (r == res).all())):
            return f"{ctx}: result of shape {r.shape}, expected {res.shape}" + (f", first wrong row {next((k for k in range(N) if r.shape == res.shape and (r[k] != res[k]).any()), None)}" if N else "")
    return None
