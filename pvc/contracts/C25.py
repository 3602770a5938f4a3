"""C25: rounding search returns valid decisions and never worsens the loss."""
import types
from .common import *
from pvc import loader as L_
from pvc.loader import LoopSpec, LOOP_SPECS
from . import C24

AN = "itcl_quantizer.equalizers.adaround.annealer"
AR = "itcl_quantizer.equalizers.adaround.adaround"
QB = "itcl_quantizer.equalizers.adaround.qubo"


def eng():
    return E.ENG


class Base:
    """simanneal.Annealer: anneal() ends in the best state it met, with that state's energy"""

    def __init__(self, *a, **k): pass

    def anneal(self):
        self.state = list(self.found)
        return list(self.found), self.found_energy


def annealer(ld):
    m = types.ModuleType("simanneal")
    m.Annealer = Base
    ld.modules["simanneal"] = m
    return ld.load(AN)


class Retry(LoopSpec):
    """drawing again: no state is kept between the draws"""

    def havoc(self, i, fr):
        return {}


class Seen:
    """an arbitrary set of earlier draws"""

    def __init__(self):
        self.size = new_int("seen", 0)

    def __contains__(self, k):
        return eng().branch(z3.Bool(eng().fresh_name("drawn_before")))

    def __len__(self):
        return self.size

    def add(self, k): pass
    def clear(self): pass
    def copy(self): return self


def policies(ranks):
    return [new_array(f"p{k}", tuple(new_int(f"d{k}_{j}", 1) for j in range(r)), "int64", 0, 1) for k, r in enumerate(ranks)]


def move(ranks):
    def h(en, ld):
        random_module(ld)
        m = annealer(ld)
        a = m.RoundingAnnealer()
        ps = policies(ranks)
        a.set_initial_neigh(ps)
        en.prove("the search starts from the tensors' policies", len(a.state) == len(ps))
        for k, (p, s) in enumerate(zip(ps, a.state)):
            same_shape(en, f"start {k}: shape", s, p)
            i = tuple(fresh_index(0, d) for d in p.shape_)
            en.prove(f"start {k}: decisions", s.at(*i) == p.at(*i))
            en.prove(f"start {k}: the tensor's own array is not shared", s is not p)
        old = a.state
        keep = list(old)
        snaps = [s.snapshot() for s in keep]
        a._past_permutations = Seen()
        a._max_permutations = new_int("max_permutations", 0)
        f = lambda site, seq, fr: Retry() if seq is None else None
        f.whiles = True
        LOOP_SPECS.append(f)
        en.cover("precondition")
        a.move()
        en.cover("moved")
        new = a.state
        en.prove("one policy per tensor", isinstance(new, list) and len(new) == len(keep))
        en.prove("the previous list is not changed", len(old) == len(keep) and all(x is y for x, y in zip(old, keep)))
        for k, (p, s) in enumerate(zip(ps, new)):
            same_shape(en, f"policy {k} keeps the tensor's shape", s, p)
            if not isinstance(s, SArr):
                continue
            i = tuple(fresh_index(0, d) for d in p.shape_)
            en.prove(f"policy {k} holds zeros and ones", z3.Or(s.at(*i) == 0, s.at(*i) == 1))
            en.prove(f"policy {k} is an integer array", kind(s.t) == "i")
            j = tuple(fresh_index(0, d) for d in p.shape_)
            en.prove(f"previous policy {k} is not changed", keep[k].at(*j) == snaps[k](j))
    return h


class Tok:
    """a policy as the descent sees it: valid or not, told apart by an id"""

    def __init__(self, i):
        self.i = i


class Descent(LoopSpec):
    """the best policies found so far have the best loss, not above the first"""
    owns = ("self",)

    def __init__(self, k, E, a):
        self.k, self.E, self.a = k, E, a

    def toks(self):
        return [Tok(new_int("policy").e) for _ in range(self.k)]

    def entry(self, fr):
        # the loop's own variables by their values at entry, whatever their names
        self.e0 = rv(fr["initial_energy"])
        self.best = [v for v in self.loop.assigned if isinstance(fr.get(v), list)]
        self.loss = [v for v in self.loop.assigned if isinstance(fr.get(v), (Sym, float)) and kind(T.sym(fr[v]).t) == "f"]
        self.count = [v for v in self.loop.assigned if v in fr and v not in self.best + self.loss]
        if len(self.best) != 1 or len(self.loss) != 1:
            raise E.Unsupported("the descent does not keep one list of policies and one loss")

    def havoc(self, i, fr):
        en = eng()
        ini = fr["initial_neigh"]
        # either the start itself or something found with its loss
        if en.choose(2, "improved") == 0:
            b, e = list(ini), self.e0
        else:
            b = self.toks()
            e = self.E(*[t.i for t in b])
            en.assume(e < self.e0)
        self.a.state = self.toks()
        self.a._past_permutations = Seen()
        return {self.best[0]: b, self.loss[0]: Sym(e, "pyfloat"), **{v: new_int(v, 0) for v in self.count}}

    def check(self, i, fr):
        en = eng()
        best = fr.get(self.best[0])
        if not en.prove("the best policies are policies that were tried", isinstance(best, list) and len(best) == self.k and all(isinstance(t, Tok) for t in best)):
            return
        b, e = self.E(*[t.i for t in best]), rv(fr[self.loss[0]])
        start = all(x is y for x, y in zip(best, fr["initial_neigh"]))
        en.prove("the best loss is the loss of the best policies", z3.Or(e == b, z3.And(start, e == self.e0)))
        en.prove("the best loss is not above the first", e <= self.e0)


def rv(v):
    return toreal(T.sym(v).e)


def descent(k, whole):
    def h(en, ld):
        random_module(ld)
        m = annealer(ld)
        Ef = z3.Function("loss", *([z3.IntSort()] * k), z3.RealSort())
        a = object.__new__(m.RoundingAnnealer)
        a.updates = a.steps = 1
        a.Tmax, a.Tmin = 1, 0
        a._past_permutations = Seen()
        a._max_permutations = new_int("max_permutations", 0)
        a._max_retires = new_int("max_retries", 0)
        start = [Tok(new_int("policy").e) for _ in range(k)]

        def mv():
            # contract of move: new policies in a new list
            if en.choose(2, "move") == 0:
                a.state = [Tok(new_int("policy").e) for _ in range(k)]
        a.move = mv
        a.energy_fn = lambda neigh: Sym(Ef(*[t.i for t in neigh]), "pyfloat")
        f = lambda site, seq, fr: Descent(k, Ef, a) if seq is None and "initial_neigh" in fr else None
        f.whiles = True
        LOOP_SPECS.append(f)
        e0 = Ef(*[t.i for t in start])
        en.cover("precondition")
        if whole:
            a.found, a.found_energy = start, Sym(e0, "pyfloat")
            best, be = a.optimize()
        else:
            a.state = list(start)
            best, be = a._to_minima(start, Sym(e0, "pyfloat"))
        en.cover("ended")
        ok = isinstance(best, list) and len(best) == k and all(isinstance(t, Tok) for t in best)
        if en.prove("policies are returned", ok):
            b = Ef(*[t.i for t in best])
            en.prove("the loss of the returned policies is not above the first", b <= e0)
            en.prove("the returned loss is theirs", rv(be) == b)
    return h


# ---------------------------------------------------------------- driving a layer
class Tensor:
    def __init__(self, name, p):
        self.name, self.log, self._p = name, [], p

    @property
    def rounding_policy(self):
        return self._p

    @rounding_policy.setter
    def rounding_policy(self, p):
        self._p = p


def drive(k, returned):
    """AdaRound.round leaves every tensor with the policy the search returned for it"""
    def h(en, ld):
        m = ld.load(AR)
        ts = [Tensor(f"t{j}", Tok(j)) for j in range(k)]
        first = [t.rounding_policy for t in ts]
        found = [Tok(100 + j) for j in range(k)]
        calls = {}

        def cost():
            # the loss of what the tensors hold now
            return tuple(t.rounding_policy.i for t in ts)

        class Opt:
            def set_cost_fn(self, f): self.f = f; return self
            def set_layer(self, l): calls["layer"] = l; return self
            def set_quant_results(self, r): calls["results"] = r; return self
            def set_input_data(self, d): calls["data"] = d; return self

            def set_initial_neigh(self, n):
                calls["first"] = list(n)
                return self

            def optimize(self):
                trial = [Tok(50 + j) for j in range(k)]
                calls["trial"] = self.f(trial)
                calls["again"] = self.f(found)
                calls["other"] = self.f(trial)
                return (found if returned == "all" else found[:1] if returned == "some" else []), 0.0
        lay, res, data = object(), object(), new_array("input", (new_int("N", 1), new_int("n", 1)), "float64")
        en.cover("precondition")
        o = m.AdaRound(Opt(), cost, lay, res, data)
        out = o.round(ts)
        en.prove("the search starts from the tensors' policies", len(calls["first"]) == k and all(x is y for x, y in zip(calls["first"], first)))
        en.prove("the loss is taken with the tried policies in place", calls["trial"] == tuple(50 + j for j in range(k)) and calls["again"] == tuple(100 + j for j in range(k)))
        en.prove("the search sees the layer, its results and its input", calls["layer"] is lay and calls["results"] is res and calls["data"] is data)
        n = {"all": k, "some": 1, "none": 0}[returned]
        en.prove("every tensor has the policy returned for it", all(ts[j].rounding_policy is found[j] for j in range(n)))
        en.prove("the tensors are returned", list(out) == ts)
    return h


class Node:
    """a quantised tensor of an operator"""

    def __init__(self, t, lut=None):
        self.rounding_policy, self.LUT, self.name = t, lut, "node"


class Recorder:
    """an optimiser that returns other decisions for everything it is given"""

    def __init__(self, en, loss, nodes):
        self.en, self.loss, self.nodes, self.seen = en, loss, nodes, {}

    def set_cost_fn(self, f): self.f = f; return self
    def set_layer(self, l): self.seen["layer"] = l; return self
    def set_quant_results(self, r): self.seen["results"] = r; return self
    def set_input_data(self, d): self.seen["data"] = d; return self

    def set_initial_neigh(self, n):
        self.first = list(n)
        return self

    def optimize(self):
        trial = [Tok(1000 + k) for k in range(len(self.first))]
        e = self.f(trial)
        self.en.prove("the loss is taken with the tried policies in place", e == self.loss() and
                      all(any(n.rounding_policy is t for n in self.nodes) for t in trial))
        self.found = [Tok(2000 + k) for k in range(len(self.first))]
        return self.found, 0.0


def layer_nodes(kind_):
    x = Node(Tok(0))
    if kind_ == "lstm":
        w = [Node(Tok(k)) for k in range(1, 40)]
        return [x] + w, None, None
    k, b = Node(Tok(1)), Node(Tok(2))
    if kind_ == "dense":
        return [x, k, b], None, None
    t = Node(Tok(3))
    return [x, k, b], Node(Tok(4), t if kind_ == "dense+table" else None), t


def layer(kind_):
    """the layers hand their weights, biases and table to the search and leave them with its result"""
    def h(en, ld):
        types_ = lambda **k: type("O", (), k)()
        ins, act, table = layer_nodes(kind_)
        if kind_ == "lstm":
            m = ld.load("itcl_quantizer.tensor_extractor.keras.layers.keras_lstm")
            o = object.__new__(m.KerasLSTM)
            names = [n + "_" + g for n in ("KERNEL", "RECURRENT", "BIAS") for g in ("CELL", "FORGET", "INPUT", "OUTPUT")]
            idx = [getattr(m.LSTMInputs, n) for n in names]
            idx = [int(getattr(i, "value", i)) for i in idx]
            en.prove("twelve different tensors", len(set(idx)) == 12)
            want = [ins[i] for i in idx]
        else:
            m = ld.load("itcl_quantizer.tensor_extractor.keras.layers.keras_dense")
            o = object.__new__(m.KerasDense)
            o._last_float_input = data = new_array("input", (new_int("N", 1), new_int("n", 1)), "float64")
            want = ins[1:3] + ([table] if kind_ == "dense+table" else [])
        ops = [types_(inputs=list(ins), outputs=[Node(Tok(9))])]
        if act is not None:
            ops.append(types_(inputs=[act], outputs=[Node(Tok(8))]))
        res = types_(operators=ops)
        every = ins + ([act, table] if act is not None else [])
        kept = {id(n): n.rounding_policy for n in every}
        firsts = [n.rounding_policy for n in want]
        loss = lambda: tuple(n.rounding_policy.i for n in every)
        made = []

        def factory():
            made.append(Recorder(en, loss, every))
            return made[-1]
        en.cover("precondition")
        o.adaround(factory, res, loss)
        en.cover("searched")
        r = made[0]
        en.prove("one search", len(made) == 1)
        en.prove("the search gets each of the layer's rounded tensors once", len(r.first) == len(want) and {id(p) for p in r.first} == {id(p) for p in firsts})
        if kind_ != "lstm":
            en.prove("weights and bias come first, in this order", r.first[0] is firsts[0] and r.first[1] is firsts[1])
            en.prove("the search gets the layer's float input", r.seen["data"] is data)
        en.prove("the search gets the layer and its results", r.seen["layer"] is o and r.seen["results"] is res)
        if len(r.first) == len(want):
            back = {id(p): q for p, q in zip(r.first, r.found)}
            en.prove("every tensor ends with the policy found for it", all(n.rounding_policy is back.get(id(f)) for n, f in zip(want, firsts)))
        en.prove("no other tensor is changed", all(n.rounding_policy is kept[id(n)] for n in every if not any(n is w for w in want)))
        en.prove("the layer's tensors are not replaced", len(ops[0].inputs) == len(ins) and all(a is b for a, b in zip(ops[0].inputs, ins)))
    return h


def net(k):
    """every layer is searched once, in order, against the loss of the network as it is"""
    def h(en, ld):
        m = ld.load(AR)
        log = []

        class Lay:
            def adaround(self, f, r, c):
                log.append((self, f, r, c))
        res = [type("R", (), {"layer": Lay()})() for _ in range(k)]

        class Net:
            state = 0
            as_quant_results = lambda self: list(res)
            as_sequential_network = lambda self: self.state
        nn, fac = Net(), lambda: None
        en.cover("precondition")
        m.AdaroundNet(nn, lambda n: ("loss", n), fac).round()
        en.prove("each layer once, in order", len(log) == k and all(a is r.layer and b is fac and c is r for (a, b, c, _), r in zip(log, res)))
        for j, (_, _, _, c) in enumerate(log):
            nn.state = 7 + j
            en.prove("the loss is that of the network at that time", c() == ("loss", 7 + j))
    return h


def decode(form):
    """one row of the result per output: inputs in order, then the bias"""
    def h(en, ld):
        n, mm = new_int("inputs", 1), new_int("outputs", 1)
        l = Sym(fresh_index(0, mm, "l"), "pyint")
        K, B = new_array("kernel", (mm, n), "float64"), new_array("bias", (mm,), "float64")
        K.tag = B.tag = None
        f0, g0 = K.snapshot(), B.snapshot()
        s = new_array("sample", (n + 1,), "int8", 0, 1)
        free = form.startswith("free")
        if free:
            m = ld.load(C24.FREE)
        else:
            m = ld.load(C24.ADA)
            o = object.__new__(m.ADAInt)
            o.input, o.bias = new_array("input", (new_int("N", 1), n), "float64"), new_array("b", (mm,), "float64")
        en.cover("precondition")
        if form == "free":
            k, b = m.Tensor_Redondeo(C24.Sample(s), K, B, l, n)
        elif form == "free2":
            k, b = m.Tensor_Redondeo2(s, K, B, l, n)
        elif form == "ADAInt":
            k, b = o.tensor_redondeo(C24.Sample(s), K, B, l)
        else:
            k, b = o.tensor_redondeo2(s, K, B, l)
        i, r = fresh_index(0, n, "i"), fresh_index(0, mm, "r")
        en.prove("kernel row: the variables of the inputs, in order", toreal(T.sym(k[Sym(i, "pyint")]).e) == z3.ToReal(s.at(i)))
        en.prove("bias: the last variable", rv(b) == z3.ToReal(s.at(n.e)))
        en.prove("kernel row stored", toreal(K.at(l.e, i)) == z3.ToReal(s.at(i)))
        en.prove("bias stored", toreal(B.at(l.e)) == z3.ToReal(s.at(n.e)))
        en.assume(r != l.e)
        en.prove("other rows untouched", z3.And(K.at(r, i) == f0((r, i)), B.at(r) == g0((r,))))
    return h


def dispatch(dense):
    """only dense layers are searched; the others keep their policies"""
    def h(en, ld):
        q = ld.load(QB)
        kd = types.ModuleType("kd")
        class KerasDense: pass
        kd.KerasDense = KerasDense
        ld.modules["itcl_quantizer.tensor_extractor.keras.layers.keras_dense"] = kd
        a = q.QUBOAnnealer()
        a._qubo_dense = lambda t: ["searched", t]
        p = [object(), object()]
        a.set_layer(KerasDense() if dense else object()).set_quant_results(object())
        a.set_initial_neigh(p)
        en.cover("precondition")
        r, c = a.optimize()
        en.prove("result", r[0] == "searched" and r[1] is p if dense else list(r) == [])
    return h


RANKS = [(1,), (2, 1), (2,), (3, 1), (2, 1, 1), (4,), (2, 2, 1, 1)]
HARNESSES = [(f"move[{','.join(map(str, r))}]", move(r)) for r in RANKS]
HARNESSES += [(f"descent[{k}]", descent(k, False)) for k in (1, 2, 3)] + [(f"annealing[{k}]", descent(k, True)) for k in (1, 2, 3)]
HARNESSES += [(f"drive[{k},{r}]", drive(k, r)) for k in (1, 2, 3) for r in ("all", "some", "none")]
HARNESSES += [(f"layer[{k}]", layer(k)) for k in ("dense", "dense+activation", "dense+table", "lstm")] + [(f"network[{k}]", net(k)) for k in (1, 2, 3)]
HARNESSES += [(f"decode[{f}]", decode(f)) for f in ("free", "free2", "ADAInt", "ADAInt2")]
HARNESSES += [(f"dispatch[{d}]", dispatch(d)) for d in (True, False)]
HARNESSES += [("decoding of the search", C24.search)] + [(f"joined[{f}]", C24.union(f)) for f in ("free", "ADAInt")]
TRUSTED = ["simanneal.Annealer.anneal returns the best state it met and that state's energy", "random.randrange(a, b) returns an integer of [a, b)",
           "a sampler returns one column per variable, in the order in which the form names them"]
