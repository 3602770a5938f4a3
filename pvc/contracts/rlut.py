"""Ghost view and loop contracts of the reduced activation table.

For a table T of n entries:  R(i) = index of the run of equal entries holding
the last of the first i entries (R(0)=0), st(k) = first position of run k,
rho(j) = R(j+1) = run of position j.  Definitions (recursive over i):
   R(0)=0, st(0)=0;  T(i) = T(st(R(i)))  ->  R(i+1)=R(i)
                     T(i) # T(st(R(i)))  ->  R(i+1)=R(i)+1, st(R(i+1))=i
"""
from .common import *
from pvc.loader import LoopSpec, LOOP_SPECS, SRange


class Ghost:
    def __init__(self, seq, n):
        en = E.ENG
        u = en.fresh_name("g")
        self.seq, self.n = seq, ix(n)
        self.R = z3.Function(f"R_{u}", z3.IntSort(), z3.IntSort())
        self.st = z3.Function(f"st_{u}", z3.IntSort(), z3.IntSort())
        self.end = None
        en.assume(z3.And(self.R(0) == 0, self.st(0) == 0))
        en.scratch.setdefault("ghosts", []).append(self)

    def T(self, j):
        return T.sym(self.seq(j)).e

    def define(self, i):
        """ghost definition of step i -> i+1"""
        R, st = self.R, self.st
        same = self.T(i) == self.T(st(R(i)))
        E.ENG.assume(z3.Implies(z3.And(i >= 0, i < self.n), z3.If(same, R(i + 1) == R(i), z3.And(R(i + 1) == R(i) + 1, st(R(i) + 1) == i))))

    def lemma(self, i, k=None, j=None):
        """instances of the inductive lemma (proved by `lemma` harnesses) at prefix i"""
        R, st = self.R, self.st
        en = E.ENG
        ok = z3.And(i >= 0, i <= self.n)
        en.assume(z3.Implies(ok, z3.And(R(i) >= 0, z3.Or(i == 0, R(i) < i), st(R(i)) >= 0, st(R(i)) <= i, z3.Or(i == 0, st(R(i)) < i))))
        if k is not None:
            en.assume(z3.Implies(z3.And(ok, k >= 0, k < R(i)), z3.And(st(k) < st(k + 1), st(k) >= 0, st(k + 1) <= st(R(i)))))
        if j is not None:
            r = R(j + 1)
            en.assume(z3.Implies(z3.And(ok, j >= 0, j < i), z3.And(r >= 0, r <= R(i), st(r) <= j, self.T(j) == self.T(st(r)),
                                                                  z3.Implies(r < R(i), j < st(r + 1)))))
            if k is not None:
                # strict monotony of run starts between the runs k and rho(j)
                en.assume(z3.Implies(z3.And(ok, k >= 0, j >= 0, j < i, r + 1 <= k, k <= R(i)), st(r + 1) <= st(k)))
                en.assume(z3.Implies(z3.And(ok, k >= 0, j >= 0, j < i, k + 1 <= r), st(k + 1) <= st(r)))

    def count(self, i, k):
        return z3.If(k < self.R(i), self.st(k + 1) - self.st(k), i - self.st(self.R(i)))

    def bound(self, k):
        """end of the k-th pruned interval"""
        return z3.If(k < self.R(self.end), self.st(k + 1), self.end)


def lemma_harness(part):
    def h(en, ld):
        I = z3.IntSort()
        T_, R, st = z3.Function("T", I, I), z3.Function("R", I, I), z3.Function("st", I, I)
        n, i = z3.Ints("n i")
        k, k2, j = z3.Ints("k k2 j")

        def inv(i):
            return [z3.And(R(i) >= 0, z3.Or(i == 0, R(i) < i)),
                    z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= R(i)), z3.And(st(k) >= 0, z3.Or(i == 0, st(k) < i))), patterns=[st(k)]),
                    z3.ForAll([k, k2], z3.Implies(z3.And(k >= 0, k < k2, k2 <= R(i)), st(k) < st(k2)), patterns=[z3.MultiPattern(st(k), st(k2))]),
                    z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), z3.And(R(j + 1) >= 0, R(j + 1) <= R(i), st(R(j + 1)) <= j,
                                                                         T_(j) == T_(st(R(j + 1))), z3.Implies(R(j + 1) < R(i), j < st(R(j + 1) + 1)))),
                              patterns=[R(j + 1)])]
        base = z3.And(R(0) == 0, st(0) == 0)
        s = z3.Solver()
        s.set("timeout", 20000)
        names = ["run index in range", "run starts in range", "run starts strictly increase", "every entry equals its run start"]
        for q, nm in enumerate(names):
            s.push()
            if part == "base":
                s.add(base, i == 0, z3.Not(inv(i)[q]))
            else:
                same = T_(i) == T_(st(R(i)))
                s.add(base, i >= 0, z3.If(same, R(i + 1) == R(i), z3.And(R(i + 1) == R(i) + 1, st(R(i) + 1) == i)))
                s.add(*inv(i))
                s.add(z3.Not(inv(i + 1)[q]))
            r = s.check()
            s.pop()
            en.prove(f"{part}: {nm}", r == z3.unsat, detail=str(r))
    return h


def find_list(frame, cond):
    c = [k for k, v in frame.items() if isinstance(v, (list, SList)) and cond(v)]
    return c[0] if len(c) == 1 else None


class Count(LoopSpec):
    def __init__(self, seq, n, var):
        self.g = Ghost(lambda j: seq.get(j), n)
        self.var = var

    def entry(self, frame):
        self.g.lemma(z3.IntVal(0))

    def havoc(self, i, frame):
        g = self.g
        g.lemma(i)
        g.define(i)
        g.lemma(z3.simplify(i + 1))
        g.end = i
        v = SList(z3.simplify(g.R(i) + 1), lambda k: (Sym(g.T(g.st(k)), "pyint"), Sym(g.count(i, k), "pyint")))
        v.tag = ("counter", g, i)
        return {self.var: v}

    def check(self, i, frame):
        g, en = self.g, E.ENG
        v = frame[self.var]
        n = len(v) if isinstance(v, list) else v.n
        en.prove("one counter entry per run", ix(n) == g.R(i) + 1)
        k = fresh_index(0, g.R(i) + 1, "k")
        g.lemma(i, k)
        if not z3.is_int_value(i):
            g.lemma(z3.simplify(i - 1), k)
        val, cnt = L.Helpers.getitem(v, Sym(k, "pyint"))
        en.prove("counter entry holds the run's value", T.sym(val).e == g.T(g.st(k)))
        en.prove("counter entry holds the run's length so far", T.sym(cnt).e == g.count(i, k))


class Intervals(LoopSpec):
    def __init__(self, seq, var):
        _, self.g, self.end = seq.tag
        self.var = var
        self.cont = seq

    def make(self, i):
        g = self.g
        v = SList(i, lambda k: (Sym(g.bound(k), "pyint"), Sym(g.T(g.st(k)), "pyint")))
        v.tag = ("intervals", g)
        return v

    def havoc(self, i, frame):
        self.g.end = self.end
        self.g.lemma(self.end, i)
        self.g.lemma(self.end, z3.simplify(i - 1))
        return {self.var: self.make(i)}

    def check(self, i, frame):
        en, g = E.ENG, self.g
        v = frame[self.var]
        en.prove("one interval per processed run", ix(len(v) if isinstance(v, list) else v.n) == i)
        if z3.is_int_value(i) and i.as_long() == 0:
            return
        k = fresh_index(0, i, "k")
        t = L.Helpers.getitem(v, Sym(k, "pyint"))
        en.prove("interval ends where the run ends", T.sym(t[0]).e == g.bound(k))
        en.prove("interval holds the run's value", T.sym(t[1]).e == g.T(g.st(k)))


class Flip(LoopSpec):
    """in-place adjustment of the tail intervals"""

    def __init__(self, var, v):
        self.var, self.v = var, v
        self.g = v.tag[1]
        self.get0, self.n0 = v._get, v.n
        self.get = self.get0

    def elem(self, k, i):
        a = self.get0(k)
        N = self.g.n
        return (Sym(z3.If(k < i, N - T.sym(a[0]).e, T.sym(a[0]).e), "pyint"), a[1])

    def havoc(self, i, frame):
        v = frame[self.var]
        v.become(self.n0, lambda k: self.elem(k, i))
        v.tag = ("intervals", self.g)
        return {}

    def check(self, i, frame):
        en = E.ENG
        v = frame[self.var]
        k = fresh_index(0, self.n0, "k")
        t, w = v.get(k), self.elem(k, i)
        en.prove("adjusted offsets count from the end of the table", T.sym(t[0]).e == w[0].e)
        en.prove("adjusted intervals keep their values", T.sym(t[1]).e == T.sym(w[1]).e)
        en.prove("number of intervals kept", ix(v.n) == ix(self.n0))


class Search(LoopSpec):
    """look-up among the intervals: every interval before the current one failed the test"""

    def __init__(self, seq, side, index, g):
        self.seq, self.side, self.index, self.g = seq, side, index, g

    def prev(self, i):
        off = T.sym(self.seq.get(z3.simplify(i - 1))[0]).e
        x = ix(self.index)
        return z3.Implies(i >= 1, x >= off) if self.side == "left" else z3.Implies(i >= 1, x < off)

    def havoc(self, i, frame):
        g, en = self.g, E.ENG
        j = en.scratch["position"](self.side)
        for k in (i, z3.simplify(i - 1)):
            g.lemma(g.end, k, j)
        en.assume(self.prev(i))
        return {}

    def check(self, i, frame):
        E.ENG.prove("earlier intervals do not hold the index", self.prev(i))


def resolver(site, seq, frame):
    en = E.ENG
    if "lut.py" not in site:
        return None
    if isinstance(seq, SList) and isinstance(seq.tag, tuple) and seq.tag[0] == "counter":
        v = find_list(frame, lambda x: isinstance(x, list) and not x)
        return Intervals(seq, v) if v else None
    for side in ("left", "right"):
        ts = en.scratch.get("tuples", {}).get(side)
        if ts is not None and seq is ts:
            return Search(seq, side, en.scratch["index"], en.scratch[side + "_ghost"])
    if isinstance(seq, SList):
        v = find_list(frame, lambda x: isinstance(x, list) and len(x) == 1 and isinstance(x[0], tuple) and len(x[0]) == 2 and x[0][1] == 0)
        if v:
            return Count(seq, seq.n, v)
    if isinstance(seq, SRange):
        v = find_list(frame, lambda x: isinstance(x, SList) and isinstance(x.tag, tuple) and x.tag[0] == "intervals")
        if v and seq.lo == 0 and en.must(ix(seq.n) == ix(frame[v].n)):
            return Flip(v, frame[v])
    return None


def sum_hint(x, n):
    """telescoping: the run lengths of the first i entries add up to i (lemma: partial sums are the run starts)"""
    en = E.ENG
    for g in en.scratch.get("ghosts", []):
        if g.end is None:
            continue
        if not en.must(ix(n) == g.R(g.end) + 1):
            continue
        k = fresh_index(0, ix(n), "k")
        g.lemma(g.end, k)
        if en.must(T.sym(x.get(k)).e == g.count(g.end, k)):
            # induction: S(0)=0=st(0); S(k+1)=S(k)+count(k)=st(k+1); last: st(R)+end-st(R)=end
            en.prove("partial sums of the run lengths are the run starts",
                     z3.And(g.st(0) == 0, z3.Implies(k < g.R(g.end), g.st(k) + g.count(g.end, k) == g.st(k + 1)),
                            g.st(g.R(g.end)) + g.count(g.end, g.R(g.end)) == g.end))
            return Sym(g.end, "pyint")
    return None


def build(en, ld, asym, depth):
    """a reduced table of an arbitrary full table"""
    m = ld.load("itcl_quantization.quantization.lut")
    LOOP_SPECS.append(resolver)
    en.scratch["sum_hints"] = [sum_hint]
    N = new_int("n", 1)
    tf = z3.Function("table", z3.IntSort(), z3.IntSort())
    T_ = SList(N, lambda j: Sym(tf(j), "pyint"))
    d = new_int("depth", 0) if depth is None else depth
    en.cover("precondition")
    r = m.ReducedLUT(T_, d, new_int("min_reduce", 0), asym)
    return m, r, N, tf, T_


def ghosts_for(en, r, N, asym):
    """bind the head and tail ghosts to the object's interval lists"""
    gs = [g for g in en.scratch.get("ghosts", []) if g.end is not None]
    if gs:
        en.scratch["left_ghost"] = gs[0]
    if len(gs) > 1:
        en.scratch["right_ghost"] = gs[1]
    for g in gs:
        g.lemma(g.end)


def prep(en, r, N, x):
    """ghost instances needed to index r at x (x None: at the index a loop or comprehension binds)"""
    en.scratch["index"] = x
    en.scratch["tuples"] = {"left": r.left_tuples, "right": r.right_tuples}
    if x is None:
        return
    en.scratch["position"] = lambda side: x.e if side == "left" else z3.simplify(ix(N) - 1 - x.e)
    for side in ("left", "right"):
        g = en.scratch.get(side + "_ghost")
        if g is not None:
            j = en.scratch["position"](side)
            g.lemma(g.end, None, j)
            last = g.R(g.end)
            g.lemma(g.end, last, j)


def at(en, r, N, x):
    """contract of indexing at x"""
    prep(en, r, N, x)
    return r[x]
