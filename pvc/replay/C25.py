import qubolib as Q
from rc import *
import random, hashlib
from itcl_quantization import Quantization
import itcl_quantizer.tensor_extractor.tensor as tm
import itcl_quantizer.equalizers.adaround.annealer as an
import itcl_quantizer.equalizers.adaround.adaround as ar
import itcl_quantizer.tensor_extractor.keras.layers.keras_lstm as lm
import itcl_quantizer.tensor_extractor.keras.layers.keras_dense as km
RULE = "the real annealer (over a stand-in of simanneal) on random policies of 1-4 dimensions and random losses (negative, zero, tied), its descent alone and driven through AdaRound, the dense and LSTM layers and AdaroundNet on real tensors: policies of the tensors' shape with zeros and ones, the loss not above the start, the first policies untouched, every tensor left with its own policy; solver samples must be decoded variable by variable; non-trivial: more than one element"


def cases(rng, tier):
    for _ in range(900 if tier == "quick" else 5000):
        what = rng.choice(["descent", "descent", "anneal", "round", "dense", "lstm", "net", "decode", "decode", "row", "other"])
        c = {"what": what, "seed": rng.randrange(10 ** 6), "levels": rng.choice([[0, 1], [0.0, 0.5, 2], [-3, -1, 0, 4], [1, 2, 3, 4, 5, 6, 7, 8, 9], [.25, 0.0], [2.0, 2.0, 1.5]]),
             "retries": rng.choice([0, 1, 2, 3, 20]), "steps": rng.choice([0, 1, 10, 60]), "first": rng.random() < .55}
        if what in ("decode", "row"):
            c["q"] = Q.case(rng)
        else:
            c["shapes"] = [[rng.randint(1, 3) for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(1, 3))]
        yield c


def trivial(c):
    return "shapes" in c and all(np.prod(s) == 1 for s in c["shapes"])


def loss_fn(c, start):
    z = b"".join(np.asarray(p, dtype="int64").tobytes() for p in start)
    low = sorted(c["levels"])

    def f(ps):
        b = b"".join(np.asarray(p, dtype="int64").tobytes() for p in ps)
        if b == z and c["first"]:
            return low[0] if 0 not in low else 0.0
        return c["levels"][hashlib.md5(b + str(c["seed"]).encode()).digest()[0] % len(c["levels"])]
    return f


def valid(ps, shapes):
    if len(ps) != len(shapes):
        return f"{len(ps)} policies for {len(shapes)} tensors"
    for k, (p, s) in enumerate(zip(ps, shapes)):
        p = np.asarray(p)
        if list(p.shape) != list(s):
            return f"policy {k} has the shape {p.shape}, the tensor {s}"
        if not np.all((p == 0) | (p == 1)):
            return f"policy {k} holds {p.tolist()}"


def quiet(f, *a):
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


def annealer(c):
    return an.RoundingAnnealer(t_min=.1, t_max=10, updates=0, steps=c["steps"], max_retries=c["retries"])


class Node:
    def __init__(self, p, lut=None):
        self.rounding_policy, self.LUT, self.name = p, lut, "n"


def run(c):
    random.seed(c["seed"])
    rs = np.random.RandomState(c["seed"])
    if c["what"] == "decode":
        if Q.near_integer(c["q"]):
            return None
        log, pol = Q.search(c["q"])
        m, n = len(c["q"]["w"]), len(c["q"]["w"][0])
        e = valid(pol, [[m, n], [m]])
        if e:
            return e
        pick = Q.Sampler.pick
        for l in range(m):
            for i in range(n):
                if pol[0][l][i] != pick(l * n + i + 1):
                    return f"weight {l},{i} was rounded with {pol[0][l][i]}, its variable {l * n + i + 1} is {pick(l * n + i + 1)}"
            if pol[1][l] != pick(n * m + 1 + l):
                return f"bias {l} was rounded with {pol[1][l]}, its variable {n * m + 1 + l} is {pick(n * m + 1 + l)}"
        return None
    if c["what"] == "row":
        m, n = len(c["q"]["w"]), len(c["q"]["w"][0])
        s = rs.randint(0, 2, n + 1).astype("int8")
        o = object.__new__(Q.am.ADAInt)
        o.input, o.bias = np.array(c["q"]["x"]), np.array(c["q"]["b"])
        l = rs.randint(m)
        for name, f, arg in (("free", lambda K, B: Q.fm.Tensor_Redondeo(Q.Result(None, s), K, B, l, n), 0), ("free2", lambda K, B: Q.fm.Tensor_Redondeo2(s, K, B, l, n), 0),
                             ("ADAInt", lambda K, B: o.tensor_redondeo(Q.Result(None, s), K, B, l), 0), ("ADAInt2", lambda K, B: o.tensor_redondeo2(s, K, B, l), 0)):
            K, B = np.full((m, n), 7.0), np.full(m, 7.0)
            k, b = quiet(f, K, B)
            if list(k) != list(s[:n]) or b != s[n] or list(K[l]) != list(s[:n]) or B[l] != s[n] or np.any(np.delete(K, l, 0) != 7) or np.any(np.delete(B, l) != 7):
                return f"{name}: the sample {s.tolist()} of output {l} was decoded as {np.asarray(k).tolist()}, {b} and stored as {K.tolist()}, {B.tolist()}"
        return None
    start = [rs.randint(0, 2, s) for s in c["shapes"]]
    keep = [p.copy() for p in start]
    f = loss_fn(c, start)
    if c["what"] in ("descent", "anneal"):
        a = annealer(c)
        a.set_cost_fn(f)
        a.set_initial_neigh(start)
        e0 = f(start)
        if c["what"] == "descent":
            got, e = quiet(a._to_minima, list(a.state), e0)
        else:
            got, e = quiet(a.optimize)
            if [np.array_equal(x, y) for x, y in zip(start, keep)].count(False):
                return "the tensors' own policies were changed"
        bad = valid(got, c["shapes"])
        if bad:
            return bad
        if f(got) > e0:
            return f"the search started with the loss {e0} and ended with {f(got)}"
        if e != f(got):
            return f"the search reports the loss {e}, its policies have {f(got)}"
        return None
    if c["what"] == "other":
        ts = [Node(p) for p in start]
        o = Q.qm.QUBOAnnealer()
        quiet(ar.AdaRound(o, lambda: 0.0, object(), object(), None).round, ts)
        return None if all(t.rounding_policy is p for t, p in zip(ts, start)) else "the policies of a layer that is not dense were changed"
    if c["what"] in ("round", "net"):
        ts = [tm.NodeTensorBase(0.1, 3, "t", Quantization("int8")).with_tensor(rs.uniform(-2, 2, s)) for s in c["shapes"]]
        for t, p in zip(ts, start):
            t.rounding_policy = p
        loss = lambda: f([t.rounding_policy for t in ts])
        e0, made = loss(), []

        def factory():
            made.append(annealer(c))
            return made[-1]
        if c["what"] == "round":
            quiet(ar.AdaRound(factory(), loss, object(), object(), None).round, ts)
        else:
            class Lay:
                def __init__(self, t): self.t = t

                def adaround(self, fac, r, cost):
                    ar.AdaRound(fac(), cost, self, r, None).round([self.t])
            res = [type("R", (), {"layer": Lay(t)})() for t in ts]
            net = type("Net", (), {"as_quant_results": lambda self: res, "as_sequential_network": lambda self: None})()
            quiet(ar.AdaroundNet(net, lambda n: loss(), factory).round)
            if len(made) != len(ts):
                return f"{len(made)} searches for {len(ts)} layers"
        if c["what"] == "round":
            bad = valid([t.rounding_policy for t in ts], c["shapes"])
        else:
            bad = valid([t.rounding_policy for t in ts], c["shapes"])
        if bad:
            return bad
        if loss() > e0:
            return f"rounding started with the loss {e0} and left the tensors with {loss()}"
        return None
    # layers with recording optimisers
    lstm = c["what"] == "lstm"
    ins = [Node(i) for i in range(40 if lstm else 3)]
    table = Node(50) if c["first"] else None
    act = None if lstm else Node(49, table) if c["retries"] else None
    O = lambda **k: type("O", (), k)()
    res = O(operators=[O(inputs=list(ins), outputs=[Node(48)])] + ([O(inputs=[act], outputs=[Node(47)])] if act else []))
    lay = object.__new__(lm.KerasLSTM if lstm else km.KerasDense)
    lay._last_float_input = "data"
    if lstm:
        want = [ins[getattr(lm.LSTMInputs, n + "_" + g)] for n in ("KERNEL", "RECURRENT", "BIAS") for g in ("CELL", "FORGET", "INPUT", "OUTPUT")]
    else:
        want = ins[1:] + ([table] if act and table else [])
    firsts = [n.rounding_policy for n in want]
    every = ins + [n for n in (act, table) if n]
    kept = {id(n): n.rounding_policy for n in every}
    seen = {}

    class Opt(ar.IRoundOptimizer):
        def set_cost_fn(self, g): seen["f"] = g; return self
        def set_layer(self, l): seen["layer"] = l; return self
        def set_input_data(self, d): seen["data"] = d; return self
        def set_initial_neigh(self, n): seen["n"] = list(n); return self

        def optimize(self):
            t = [1000 + k for k in seen["n"]]
            seen["tried"] = seen["f"](t)
            seen["f"]([3000 + k for k in seen["n"]])
            return [2000 + k for k in seen["n"]], 0.0
    cost = lambda: sorted(n.rounding_policy for n in want)
    lay.adaround(Opt, res, cost)
    if sorted(seen["n"]) != sorted(firsts):
        return f"the {c['what']} layer searches the policies {seen['n']} instead of {firsts}"
    if not lstm and (seen["n"][:2] != [1, 2] or seen["data"] != "data"):
        return f"the dense layer searches {seen['n']} with the input {seen['data']!r}"
    if seen["layer"] is not lay or seen["tried"] != sorted(1000 + k for k in firsts):
        return f"the loss was taken with the policies {seen['tried']}"
    for n in every:
        i = kept[id(n)]
        if n.rounding_policy != (2000 + i if i in firsts else i):
            return f"tensor {i} was left with the policy {n.rounding_policy}"
