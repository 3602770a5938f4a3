import stubs
import contextlib, io, itertools, os, tempfile
from rc import *
import itcl_quantizer.equalizers.adaround.qubo as qm
import itcl_quantizer.equalizers.adaround.qubocalculation as fm
import itcl_quantizer.equalizers.adaround.Calculationsint as am
ACT = {"linear": lambda x: x, "relu": lambda x: np.maximum(x, 0), "tanh": np.tanh}


class BQM:
    def __init__(self, *a, **k):
        kw = dict(zip(("linear", "quadratic", "offset", "vartype"), a))
        kw.update(k)
        if len(a) == 3 and "vartype" not in k:
            kw["vartype"], kw["offset"] = kw["offset"], 0.0
        self.lin = dict(kw.get("linear") or {})
        self.terms = dict(kw["quadratic"])
        self.offset = kw.get("offset") or 0.0
        self.binary = kw.get("vartype") == "BINARY"
        self.variables = []
        for u in itertools.chain(self.lin, *self.terms):
            if u not in self.variables:
                self.variables.append(u)

    from_qubo = classmethod(lambda cls, Q, offset=0.0: cls({}, Q, offset, "BINARY"))

    def value(self, z):
        return self.offset + sum(b * z[u] for u, b in self.lin.items()) + sum(b * z[u] * z[v] for (u, v), b in self.terms.items())


class Result:
    def __init__(self, order, row):
        self.variables = order
        self.record = type("Rec", (), {})()
        self.record.sample = np.array([row], dtype="int8")


class Sampler:
    log, pick = [], None

    def __init__(self, *a, **k): pass

    def sample(self, p, **k):
        z = {v: self.pick(v) for v in p.variables}
        self.log.append((p, z))
        return Result(p.variables, [z[v] for v in p.variables])

    def sample_qubo(self, Q, **k): return self.sample(BQM.from_qubo(Q), **k)
    def samples(self): return iter([{}])
    def data(self): return iter([type("D", (), {"energy": 0.0})()])


class Exact:
    def sample(self, p): return Sampler()


class Node:
    def __init__(self, s, z): self.scale, self.zero_point, self.name = s, z, "node"


def case(rng):
    n, m, N = rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 5)
    r = lambda k: [round(rng.uniform(-k, k), 5) for _ in range(1)][0]
    return {"w": [[r(2) for _ in range(n)] for _ in range(m)], "b": [r(1) for _ in range(m)],
            "x": [[0.0 if rng.random() < .15 else r(3) for _ in range(n)] for _ in range(N)],
            "sw": rng.choice([.5, .11, .03]), "sx": rng.choice([1.0, .25, .07]), "zx": rng.choice([0, 0, 5, -128]),
            "act": rng.choice(["linear", "linear", "relu", "tanh"]), "bits": rng.randrange(2 ** 20)}


def search(c):
    """runs the real search; -> (list of (form, chosen), policies)"""
    w, b, x = (np.array(c[k], dtype="float64") for k in "wbx")
    m, n = w.shape
    dm = type("dimod", (), {"BINARY": "BINARY", "SPIN": "SPIN", "BinaryQuadraticModel": BQM, "BQM": BQM, "ExactSolver": Exact})
    for mod in (fm, am):
        mod.dimod = dm
        mod.neal = type("neal", (), {"SimulatedAnnealingSampler": Sampler})
    Sampler.log = []
    Sampler.pick = staticmethod(lambda v: (c["bits"] >> (v % 20)) & 1)
    op = type("Op", (), {})()
    op.inputs = [Node(c["sx"], c["zx"]), Node(c["sw"], 0), Node(c["sx"] * c["sw"], 0)]
    res = type("Q", (), {})()
    res.operators, res.input_data = [op], ACT[c["act"]](x @ w.T + b)
    a = qm.QUBOAnnealer()
    a.set_layer(type("Layer", (), {"get_weights": lambda self: (w, b)})())
    a.set_quant_results(res)
    a.set_input_data(x)
    a.set_initial_neigh([np.zeros((m, n), dtype="int64"), np.zeros(m, dtype="int64")])
    here = os.getcwd()
    with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):
        os.chdir(d)
        try:
            pol = a._qubo_dense(a._round_policy)
        finally:
            os.chdir(here)
    return Sampler.log, pol


def near_integer(c):
    w, b, x = (np.array(c[k], dtype="float64") for k in "wbx")
    t = lambda v, o: np.min(np.abs(v - np.round(v - o) - o))
    return min(t(w / c["sw"], 0), t(b / (c["sw"] * c["sx"]), 0), t(x / c["sx"], .5)) < 1e-6


def mse(c, l, z, y):
    w, b, x = (np.array(c[k], dtype="float64") for k in "wbx")
    xr = np.rint(x / c["sx"]) * c["sx"]
    s = c["sw"] * c["sx"]
    out = x @ w[l] + b[l]
    got = xr @ (c["sw"] * (np.floor(w[l] / c["sw"]) + np.array(z))) + s * (np.floor(b[l] / s) + y)
    return float(np.mean((out - got) ** 2)), float(np.max(out ** 2) + np.max(got ** 2)) + 1
