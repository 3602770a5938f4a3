"""C26: parameter equalisation keeps the best parameters found.

The tensors are a family of arbitrary size; the loss is an uninterpreted function of
everything the network sees of them: parameters, the parameters they were last
requantised with, and those their hooks were last called with."""
import types
from .common import *
from pvc import loader as L_
from pvc.loader import LoopSpec, LOOP_SPECS, LazySeq

PE = "itcl_quantizer.equalizers.param_equalizer."
I, Rl = z3.IntSort(), z3.RealSort()
AR, AI = z3.ArraySort(I, Rl), z3.ArraySort(I, I)
KINDS = (AR, AI, AR, AI, AR, AI)            # scale, zero point; requantised; hooks
LO, HI = z3.Function("code_min", I, I), z3.Function("code_max", I, I)
LOSS = z3.Function("loss", *KINDS, Rl)


def eng():
    return E.ENG


def fresh(name):
    return z3.Const(eng().fresh_name(name + "_s"), AR), z3.Const(eng().fresh_name(name + "_z"), AI)


class Fams(SList):
    """tensors 0..n-1; net: the family the network holds (hooks of copies act on it)"""

    def __init__(self, n, s, z, net=None):
        SList.__init__(self, n, lambda i: Probe(self, i))
        self.s, self.z, self.es, self.ez = s, z, s, z
        self.net = net or self
        if net is None:
            self.hs, self.hz = s, z

    def __deepcopy__(self, memo):
        c = Fams(self.n, self.s, self.z, self.net)
        c.es, c.ez = self.es, self.ez
        return c

    def state(self):
        return (self.s, self.z, self.es, self.ez, self.net.hs, self.net.hz)

    def put(self, s, z, requantize=True):
        """contract of an update of every tensor"""
        self.s, self.z = s, z
        if requantize:
            self.es, self.ez = s, z
        self.net.hs, self.net.hz = s, z


def now(net):
    return LOSS(*net.state())


def ideal(s, z):
    return LOSS(s, z, s, z, s, z)


class Quant:
    def __init__(self, i): self.i = i

    def min_value(self):
        eng().assume(LO(self.i) < HI(self.i))
        return Sym(LO(self.i), "pyint")

    def max_value(self):
        self.min_value()
        return Sym(HI(self.i), "pyint")


class Probe:
    """a tensor: positive scale and zero point of its type, proved whenever they are set"""

    def __init__(self, fam, i):
        self.fam, self.i, self.quant, self.name = fam, z3.simplify(ix(i)), Quant(z3.simplify(ix(i))), "tensor"

    @property
    def scale(self):
        v = z3.Select(self.fam.s, self.i)
        eng().assume(v > 0)
        return Sym(v, "pyfloat")

    @property
    def zero_point(self):
        v = z3.Select(self.fam.z, self.i)
        eng().assume(z3.And(LO(self.i) < HI(self.i), v >= LO(self.i), v <= HI(self.i)))
        return Sym(v, "pyint")

    def update_quant_parameters(self, scale, zero_point, requantize=True):
        en, f, i = eng(), self.fam, self.i
        s, z = T.sym(scale), T.sym(zero_point)
        en.prove("every scale tried is positive", toreal(s.e) > 0)
        en.prove("every zero point tried is an integer", kind(z.t) == "i")
        en.prove("every zero point tried is a code of its tensor", z3.And(toreal(z.e) >= z3.ToReal(LO(i)), toreal(z.e) <= z3.ToReal(HI(i))))
        zi = z.e if z.e.is_int() else z3.ToInt(z.e)
        f.s, f.z = z3.Store(f.s, i, toreal(s.e)), z3.Store(f.z, i, zi)
        if requantize is True or (isinstance(requantize, Sym) and en.branch(requantize.e)):
            f.es, f.ez = z3.Store(f.es, i, toreal(s.e)), z3.Store(f.ez, i, zi)
        f.net.hs, f.net.hz = z3.Store(f.net.hs, i, toreal(s.e)), z3.Store(f.net.hz, i, zi)

    def __deepcopy__(self, memo):
        raise Unsupported("copy of a single tensor of the family")


def family(en, name="p"):
    n = new_int("tensors", 1)
    return Fams(n, *fresh(name))


def load(ld, leaf):
    random_module(ld)
    m = types.ModuleType("simanneal")
    m.Annealer = Base
    ld.modules["simanneal"] = m
    return ld.load(PE + leaf)


def bare(ld):
    m = load(ld, "abstract_param_optimizer")

    class Opt(m.AbstractParamOptimizer):
        def optimize(self):
            return self.state, 0.0
    return Opt()


# ---------------------------------------------------------------- one tensor
def eq_scale(t):
    def h(en, ld):
        o = bare(ld)
        s = new_real("scale", t=t, pos=True)
        en.cover("precondition")
        r = o._eq_scale(s)
        en.cover("tweaked")
        en.prove("the tweaked scale is positive", toreal(T.sym(r).e) > 0)
    return h


def eq_zp(t):
    def h(en, ld):
        o = bare(ld)
        q = ld.load("itcl_quantization").Quantization(t)
        lo, hi = tlimits(t)
        z = new_int("zero_point", lo, hi)
        en.cover("precondition")
        r = T.sym(o._eq_zp(z, q))
        en.prove("the tweaked zero point is an integer", kind(r.t) == "i")
        en.prove("the tweaked zero point is a code of the type", z3.And(r.e >= lo, r.e <= hi))
    return h


# ---------------------------------------------------------------- all tensors
def probes(seq):
    """the families a loop runs over"""
    if not isinstance(seq, (SList, LazySeq)):
        return None
    flat = lambda e: [y for x in e for y in flat(x)] if isinstance(e, (tuple, list)) else [e]
    f = [x.fam for x in flat([seq.get(z3.Int("probe"))]) if isinstance(x, Probe)]
    return f or None


class Tweak(LoopSpec):
    """tensors before i: tweaked, requantised, hooks called; the others as before"""

    def __init__(self, fam):
        self.f, self.owns = fam, ("self", "tensors", "state")

    def entry(self, fr):
        self.old = self.f.state()

    def set(self, v):
        f = self.f
        f.s, f.z, f.es, f.ez, f.net.hs, f.net.hz = v

    def havoc(self, i, fr):
        j = z3.Int("j")
        A = fresh("tweaked")
        if self.loop.phase == "done":
            self.set(A * 3)
        else:
            self.set([z3.Lambda([j], z3.If(j < i, z3.Select(a, j), z3.Select(o, j))) for a, o in zip(A * 3, self.old)])
        return {}

    def check(self, i, fr):
        en, f = eng(), self.f
        j = fresh_index(0, f.n, "j")
        at = lambda a: z3.simplify(z3.Select(a, j))
        v = f.state()
        en.prove("tweaked tensors are requantised with their parameters", z3.Implies(j < i, z3.And(at(v[2]) == at(v[0]), at(v[3]) == at(v[1]))))
        en.prove("hooks of tweaked tensors see their parameters", z3.Implies(j < i, z3.And(at(v[4]) == at(v[0]), at(v[5]) == at(v[1]))))
        en.prove("tensors not reached keep everything", z3.Implies(j >= i, z3.And(*[at(a) == at(b) for a, b in zip(v, self.old)])))


class Copy(LoopSpec):
    """tensors before i of `to` have the parameters of `src`; the others as before"""

    def __init__(self, to, src, rq):
        self.to, self.src, self.rq, self.owns = to, src, rq, ("self", "to", "from_")

    def entry(self, fr):
        self.old, self.olds = self.to.state(), self.src.state()

    def want(self, i):
        j = z3.Int("j")
        mix = lambda a, o: z3.Lambda([j], z3.If(j < i, z3.Select(a, j), z3.Select(o, j)))
        s, z = self.olds[0], self.olds[1]
        new = (s, z) + ((s, z) if self.rq else (None, None)) + (s, z)
        return [o if a is None else mix(a, o) for a, o in zip(new, self.old)]

    def havoc(self, i, fr):
        f = self.to
        f.s, f.z, f.es, f.ez, f.net.hs, f.net.hz = self.want(i)
        return {}

    def check(self, i, fr):
        en = eng()
        j = fresh_index(0, self.to.n, "j")
        at = lambda a: z3.simplify(z3.Select(a, j))
        w = self.want(i)
        for k, name in enumerate(("scale", "zero point", "requantised scale", "requantised zero point", "hooks: scale", "hooks: zero point")):
            en.prove(f"copied tensors, {name}", at(self.to.state()[k]) == at(w[k]))
        en.prove("the source is not changed", z3.And(at(self.src.s) == at(self.olds[0]), at(self.src.z) == at(self.olds[1])))


def move(en, ld):
    o = bare(ld)
    f = family(en)
    o.set_initial_neigh(f)
    LOOP_SPECS.append(lambda site, seq, fr: Tweak(f) if probes(seq) == [f] else None)
    en.cover("precondition")
    o.move()
    en.cover("moved")
    en.prove("the network's tensors are tweaked by reference", o.state is f)
    j = fresh_index(0, f.n, "j")
    at = lambda a: z3.Select(a, j)
    en.prove("every tensor is requantised, its hooks are called", z3.And(at(f.es) == at(f.s), at(f.ez) == at(f.z), at(f.hs) == at(f.s), at(f.hz) == at(f.z)))


def copying(rq, back):
    """copy(to, from_): the network's tensors get the parameters of a copy, or the other way round"""
    def h(en, ld):
        o = bare(ld)
        net = family(en)
        net.es, net.ez = fresh("eff")
        other = Fams(net.n, *fresh("q"), net=net)
        to, src = (net, other) if back else (other, net)
        LOOP_SPECS.append(lambda site, seq, fr: Copy(to, src, rq) if probes(seq) in ([to, src], [src, to]) else None)
        old = to.state()
        en.cover("precondition")
        o.copy(to, src, requantize=rq)
        en.cover("copied")
        j = fresh_index(0, net.n, "j")
        at = lambda a: z3.simplify(z3.Select(a, j))
        en.prove("parameters copied", z3.And(at(to.s) == at(src.s), at(to.z) == at(src.z)))
        if rq:
            en.prove("requantised with them", z3.And(at(to.es) == at(src.s), at(to.ez) == at(src.z)))
        else:
            en.prove("requantisation deferred", z3.And(at(to.es) == at(old[2]), at(to.ez) == at(old[3])))
        en.prove("hooks see them", z3.And(at(net.hs) == at(src.s), at(net.hz) == at(src.z)))
    return h


# ---------------------------------------------------------------- the searches
class Ghost:
    """the loss of the network as it is, and the least one observed"""

    def __init__(self, net):
        self.net, self.low, self.count = net, None, 0

    def __call__(self):
        v = now(self.net)
        self.low = v if self.low is None else z3.If(v < self.low, v, self.low)
        self.count += 1
        return Sym(v, "pyfloat")


def contracts(o, net):
    """move and copy by their contracts (proved above)"""
    def mv():
        if not isinstance(o.state, Fams):
            raise Unsupported("move of other tensors")
        o.state.put(*fresh("tried"))

    def cp(to, from_, requantize=True):
        if not isinstance(to, Fams) or not isinstance(from_, Fams):
            raise Unsupported("copy of other tensors")
        to.put(from_.s, from_.z, requantize)
    o.move, o.copy = mv, cp


class Search(LoopSpec):
    """best holds parameters observed with the best loss, the least observed so far"""
    owns = ("self",)

    def __init__(self, net, ghost, e0):
        self.net, self.g, self.e0 = net, ghost, e0

    def entry(self, fr):
        self.best = [v for v in fr if isinstance(fr[v], Fams) and fr[v] is not self.net]
        self.loss = [v for v in self.loop.assigned if isinstance(fr.get(v), (Sym, float)) and kind(T.sym(fr[v]).t) == "f"]
        self.count = [v for v in self.loop.assigned if v in fr and v not in self.loss and v not in self.best]
        if len(self.best) != 1 or len(self.loss) != 1:
            raise Unsupported("the search does not keep one copy of the tensors and one loss")

    def havoc(self, i, fr):
        en = eng()
        b = fr[self.best[0]]
        s, z = fresh("best")
        en.assume(ideal(s, z) <= self.e0)
        self.g.low = ideal(s, z)
        b.s, b.z = s, z
        b.es, b.ez = fresh("stale")
        self.net.s, self.net.z = s, z
        self.net.es, self.net.ez = fresh("stale")
        self.net.hs, self.net.hz = s, z
        return {self.loss[0]: Sym(ideal(s, z), "pyfloat"), self.best[0]: b, **{v: new_int(v, 0) for v in self.count}}

    def check(self, i, fr):
        en = eng()
        b = fr[self.best[0]]
        e = toreal(T.sym(fr[self.loss[0]]).e)
        en.prove("the best loss is that of the best parameters", e == ideal(b.s, b.z))
        en.prove("the best loss is the least observed", e == self.g.low)
        en.prove("the best loss is not above the first", e <= self.e0)
        en.prove("the search continues from the best parameters", z3.And(self.net.s == b.s, self.net.z == b.z))


def ended(en, o, net, ghost, e0, cost):
    en.cover("ended")
    en.prove("the first loss was observed", ghost.count > 0)
    en.prove("the network's loss is the least observed", now(net) == ghost.low)
    en.prove("the network's loss is not above the first", now(net) <= e0)
    en.prove("the loss returned is the network's", toreal(T.sym(cost).e) == now(net))
    en.prove("the tensors are requantised with their parameters", now(net) == ideal(net.s, net.z))


def start(en, o):
    net = family(en)
    g = Ghost(net)
    e0 = now(net)
    contracts(o, net)
    o.set_cost_fn(g)
    o.set_initial_neigh(net)
    en.prove("handing over the tensors does not change them", now(net) == e0)
    return net, g, e0


def bfs(en, ld):
    m = load(ld, "bfs_equalizer")
    o = m.BFSEqualizer(new_int("max_retries", 0))
    net, g, e0 = start(en, o)
    f = lambda site, seq, fr: Search(net, g, e0) if seq is None else None
    f.whiles = True
    LOOP_SPECS.append(f)
    en.cover("precondition")
    r, cost = o.optimize()
    ended(en, o, net, g, e0, cost)


class Base:
    """simanneal.Annealer.anneal, after any number of its steps: it saves and restores deep
    copies of the state, and ends in the best one it saved"""

    def __init__(self, *a, **k): pass

    def copy_state(self, s):
        import copy
        return copy.deepcopy(s)

    def anneal(self):
        en = eng()
        net, e0 = self.net, self.e0
        E0 = toreal(T.sym(self.energy()).e)
        en.prove("the energy is the network's loss", E0 == now(net))
        prev, best, bestE = self.copy_state(self.state), self.copy_state(self.state), E0
        if en.choose(2, "steps") == 1:
            # an arbitrary later step: previous and best are states saved with their energies
            prev.s, prev.z = fresh("previous")
            prevE = ideal(prev.s, prev.z)
            best.s, best.z = fresh("best")
            bestE = ideal(best.s, best.z)
            en.assume(z3.And(bestE <= E0, bestE <= prevE))
            self.g.low = bestE
            net.put(prev.s, prev.z)
            if self.state is not net:
                st = self.state
                if isinstance(st, Fams):
                    st.put(prev.s, prev.z)
            d = self.move()
            en.prove("the energy is computed after a move", d is None)
            st = self.state
            En = toreal(T.sym(self.energy()).e)
            en.prove("the energy is the loss of the state", En == ideal(st.s, st.z))
            if en.choose(2, "accepted") == 1:
                en.assume(En > bestE)
                self.state = self.copy_state(prev)
                st = self.state
                en.prove("a rejected state is restored", z3.And(st.s == prev.s, st.z == prev.z))
                en.prove("a restored state has its loss", now(net) == prevE)
            else:
                if en.branch(En < bestE):
                    best, bestE = self.copy_state(self.state), En
        self.state = self.copy_state(best)
        self.best_state, self.best_energy = best, Sym(bestE, "pyfloat")
        return best, self.best_energy


def anneal(en, ld):
    m = load(ld, "annealer")
    o = m.ParamEqAnnealer()
    net, g, e0 = start(en, o)
    o.net, o.g, o.e0 = net, g, e0
    en.cover("precondition")
    r, cost = o.optimize()
    ended(en, o, net, g, e0, cost)


# ---------------------------------------------------------------- layers and networks
class Node:
    pass


class Opt:
    """an optimiser by its contract: the loss never goes up"""

    def __init__(self, en, world):
        self.en, self.w = en, world

    def set_cost_fn(self, f):
        self.f = f
        return self

    def set_initial_neigh(self, t):
        self.t = list(t)
        return self

    def optimize(self):
        en, w = self.en, self.w
        e = toreal(T.sym(self.f()).e)
        en.prove("the search minimises the loss of the network as it is", e == w.loss.e)
        n = new_real("loss")
        en.assume(n.e <= w.loss.e)
        w.loss = n
        w.log.append(self)
        return self.t, n


class World:
    def __init__(self):
        self.loss, self.log = new_real("loss"), []


def dense(ops, bundle):
    def h(en, ld):
        m = ld.load("itcl_quantizer.tensor_extractor.keras.layers.keras_dense")
        o = object.__new__(m.KerasDense)
        n = [Node() for _ in range(6)]
        O = lambda **k: type("O", (), k)()
        act = [O(inputs=[n[3]], outputs=[n[4]])] if ops == 2 else []
        res = O(operators=[O(inputs=[n[0], n[1], n[2]], outputs=[n[3]])] + act)
        w = World()
        e0 = w.loss.e
        mine = [x for x in n[1:5]]
        en.cover("precondition")
        if bundle:
            b = ld.load("itcl_quantizer.equalizers.eq_bundler").NodeBundler()
            first = Node()
            b.add_nodes(first)
            o.param_equalizer_bundle(b, res)
            got = list(b.nodes)
            en.prove("tensors bundled before stay", got[0] is first)
            got = got[1:]
        else:
            o.param_equalizer(lambda: Opt(en, w), res, lambda: w.loss)
            got = [t for p in w.log for t in p.t]
        en.prove("the layer's own tensors are equalised", len(got) > 0 and all(any(t is x for x in mine) for t in got))
        en.prove("never the bias, whose scale follows the others", not any(t is n[2] for t in got))
        en.prove("the loss is not above the first", w.loss.e <= e0)
    return h


def network(k, full):
    def h(en, ld):
        m = load(ld, "param_equalizer")
        w = World()
        e0 = w.loss.e
        seen = []

        class Lay:
            def __init__(self, j):
                self.nodes = [Node() for _ in range(2)]

            def param_equalizer(self, f, r, c):
                seen.append(r)
                f().set_cost_fn(c).set_initial_neigh(self.nodes).optimize()

            def param_equalizer_bundle(self, b, r):
                seen.append(r)
                b.add_nodes(*self.nodes)
        res = [type("R", (), {"layer": Lay(j)})() for j in range(k)]

        class Net:
            as_quant_results = lambda self: res
            as_sequential_network = lambda self: self
        net = Net()

        def loss(x):
            en.prove("the loss is taken of the network", x is net)
            return w.loss
        en.cover("precondition")
        (m.ParamEqualizerFullNet if full else m.ParamEqualizerNet)(net, loss, lambda: Opt(en, w)).equalize()
        en.prove("every layer takes part once", len(seen) == k and all(any(s is r for s in seen) for r in res))
        got = [t for p in w.log for t in p.t]
        every = [t for r in res for t in r.layer.nodes]
        en.prove("every tensor is equalised", len(got) == len(every) and all(any(t is g for g in got) for t in every))
        en.prove("the loss is not above the first", w.loss.e <= e0)
    return h


HARNESSES = [(f"scale[{t}]", eq_scale(t)) for t in ("pyfloat", "float64")]
HARNESSES += [(f"zero point[{t}]", eq_zp(t)) for t in KEYTYPES]
HARNESSES += [("move", move)] + [(f"copy[{'requantised' if r else 'deferred'},{'to' if b else 'from'} the network]", copying(r, b)) for r in (True, False) for b in (True, False)]
HARNESSES += [("best first search", bfs), ("annealing", anneal)]
HARNESSES += [(f"dense[{k},{'bundle' if b else 'alone'}]", dense(k, b)) for k in (1, 2) for b in (True, False)]
HARNESSES += [(f"network[{k},{'at once' if f else 'layer by layer'}]", network(k, f)) for k in (1, 2, 3) for f in (True, False)]
TRUSTED = ["simanneal.Annealer.anneal accepts, rejects and saves deep copies of the state and ends in the best one it saved",
           "two families of tensors with equal parameters at every index are equal (extensionality), a loss that depends on nothing but the network",
           "random() returns a number of [0, 1)", "10 ** floor(log10(x)) <= x < 10 ** (floor(log10(x)) + 1) for x > 0"]
