"""C24: the rounding QUBO encodes the squared output error of the layer.

Every helper is proved against the coefficient it contributes, for every number
of samples, inputs and outputs; _qubo_dense over those contracts hands the solver,
for every output, exactly the form with these coefficients.  That this form is
the mean squared error up to a constant is the theorem of lemmas/qubo.lean."""
from .common import *
from pvc import loader as L_
from pvc.arrays import SMap, Fam, sum_term, sum_instances, sum_body, bound_index
from pvc.loader import LoopSpec, LOOP_SPECS

FREE = "itcl_quantizer.equalizers.adaround.qubocalculation"
ADA = "itcl_quantizer.equalizers.adaround.Calculationsint"
QB = "itcl_quantizer.equalizers.adaround.qubo"


def eng():
    return E.ENG


class World:
    """one layer and data set: x rounded inputs [N,n], d residuals [N,m], scales"""

    def __init__(self, en):
        self.N, self.n, self.m = new_int("samples", 1), new_int("inputs", 1), new_int("outputs", 1)
        self.l = Sym(fresh_index(0, self.m, "l"), "pyint")
        self.x = new_array("xr", (self.N, self.n), "float64")
        self.d = new_array("d", (self.N, self.m), "float64")
        self.sw, self.sx, self.sb = (new_real(k, pos=True) for k in ("kernel_scale", "input_scale", "bias_scale"))
        self.sums, self.fams = {}, {}

    # coefficients -------------------------------------------------------
    def c(self):
        p = self.sw.e * self.sx.e
        return p * p * (z3.RealVal(1) / z3.ToReal(self.N.e))

    def r(self):
        return self.sb.e / (self.sw.e * self.sx.e)

    def total(self, name, body, *idx):
        k = (name,) + tuple(i.get_id() for i in idx)
        if k not in self.sums:
            self.sums[k] = (sum_term(body, self.N, True), idx)
        return self.sums[k][0]

    def diag(self, l, i):
        return self.total("diag", lambda s: self.c() * (self.x.at(s, i) * (self.x.at(s, i) - 2 * self.d.at(s, l))), l, i)

    def cross(self, i, j):
        return self.total("cross", lambda s: self.c() * (self.x.at(s, i) * self.x.at(s, j)), i, j)

    def bias(self, l):
        return self.total("bias", lambda s: self.c() * (self.r() * (self.r() - 2 * self.d.at(s, l))), l)

    def mix(self, i):
        return self.total("mix", lambda s: self.c() * (self.r() * self.x.at(s, i)), i)

    def row(self, which, l):
        """contents of the scratch array"""
        c, x, d = self.c, self.x, self.d
        if which == 1:
            return lambda s, k: c() * (x.at(s, k) * (x.at(s, k) - 2 * d.at(s, l)))
        if which == 4:
            return lambda s, k: c() * (self.r() * x.at(s, k))

        def f(s, k):
            i, j = A.unflat(k, (self.n, self.n))
            return z3.If(i == j, z3.RealVal(0), x.at(s, i) * x.at(s, j))
        return f

    def flat_lemma(self, en, i, j):
        """row and column of flat index j + i*n"""
        n = self.n.e
        by_lemma(en, "flat index", [n >= 1, i >= 0, j >= 0, j < n], z3.And(T.floordiv_pos(j + i * n, n) == i, n * T.floordiv_pos(j + i * n, n) == n * i))

    # variables: 1-based, output l's inputs then, after all of them, the biases
    def kvar(self, l, i): return l * self.n.e + i + 1
    def bvar(self, l): return self.m.e * self.n.e + 1 + l

    def inp(self, v): return z3.And(v >= 0, v < self.n.e)

    def families(self, which, l):
        k = (which, l.get_id())
        if k not in self.fams:
            self.fams[k] = (self._families(which, l), l)
        return self.fams[k][0]

    def _families(self, which, l):
        K = lambda a, b: (Sym(a, "pyint"), Sym(b, "pyint"))
        F = {1: [Fam(1, lambda v: self.inp(v[0]), lambda v: K(self.kvar(l, v[0]), self.kvar(l, v[0])), lambda v: self.diag(l, v[0]), "diagonal")],
             2: [Fam(2, lambda v: z3.And(self.inp(v[0]), self.inp(v[1]), v[0] != v[1]), lambda v: K(self.kvar(l, v[0]), self.kvar(l, v[1])), lambda v: self.cross(v[0], v[1]), "pair")],
             3: [Fam(0, lambda v: z3.BoolVal(True), lambda v: K(self.bvar(l), self.bvar(l)), lambda v: self.bias(l), "bias")],
             4: [Fam(1, lambda v: self.inp(v[0]), lambda v: K(self.kvar(l, v[0]), self.bvar(l)), lambda v: self.mix(v[0]), "input-bias"),
                 Fam(1, lambda v: self.inp(v[0]), lambda v: K(self.bvar(l), self.kvar(l, v[0])), lambda v: self.mix(v[0]), "bias-input")]}
        for f in F[which]:
            f.W, f.at = self, l
            f.which, f.always = which, which in (1, 3)
            f.inv = (lambda l: lambda key: {1: lambda: [key[0] - l * self.n.e - 1], 2: lambda: [key[0] - l * self.n.e - 1, key[1] - l * self.n.e - 1],
                                            3: lambda: [], 4: lambda: None}[which]())(l)
        if which == 4:
            F[4][0].inv = lambda key: [key[0] - l * self.n.e - 1]
            F[4][1].inv = lambda key: [key[1] - l * self.n.e - 1]
        return F[which]


def zkey(k):
    if not (isinstance(k, tuple) and len(k) == 2):
        raise Unsupported("dictionary key is not a pair")
    return tuple(ix(x) for x in k)


DBG = 0


def rv(v):
    return toreal(T.sym(v).e) if not z3.is_expr(v) else toreal(v)


def sum_ext(en, a, b):
    """lemma: sums over the same range with equal summands are equal"""
    (ba, na), k = sum_body(a, CK), None
    bb, nb = sum_body(b, CK)
    if not A.dim_eq(na, nb):
        return
    k = bound_index("ke")
    ba, bb = z3.substitute(ba, (CK, k)), z3.substitute(bb, (CK, k))
    with en.scope():
        en.assume(z3.And(k >= 0, k < ix(na)))
        g = toreal(ba) == toreal(bb)
        ok = en.entails(g, 3000) or en._solve(g, g, 8000)[0] == "discharged"
        if DBG: print("EXT", ok, z3.simplify(ba), "\n   ", z3.simplify(bb))
    if ok:
        en.assume(toreal(a) == toreal(b))
        en.trust("finite sums with equal summands are equal (induction on the number of summands)")


def sum_zero(en, app, cond):
    """lemma: under cond every summand is zero, so is the sum"""
    b, n = sum_body(app, CK)
    k = bound_index("kz")
    b = z3.substitute(b, (CK, k))
    with en.scope():
        en.assume(z3.And(cond, k >= 0, k < ix(n)))
        ok = en.entails(toreal(b) == 0, 3000) or en._solve(b, toreal(b) == 0, 8000)[0] == "discharged"
    if ok:
        en.assume(z3.Implies(cond, toreal(app) == 0))
        en.trust("finite sums with equal summands are equal (induction on the number of summands)")


def fact_sums(en):
    """sums the path knows something about"""
    seen, out = set(), []
    for f in en.facts:
        for a in sum_instances(f):
            if a.get_id() not in seen:
                seen.add(a.get_id())
                out.append(a)
    return out


CK = z3.Int("ck!ext")


def equal(en, name, a, b):
    """a == b, with sums compared summand by summand"""
    a, b = rv(a), rv(b)
    if not en.entails(a == b, 4000):
        sa, sb = sum_instances(a), sum_instances(b)
        for p in sa:
            for q in sb:
                if p.decl().name() != q.decl().name() and len(sa) * len(sb) <= 16:
                    sum_ext(en, p, q)
    if DBG: print("EQ", name, z3.simplify(a), "\n  ==", z3.simplify(b))
    return en.prove(name, a == b)


def entries_are(en, name, D, fams, limit=None, order=False):
    """the dictionary holds exactly the coefficients of the families (a missing entry is
    a zero one); limit: (position, bound) restricts the families to v[position] < bound"""
    if isinstance(D, dict):
        m = SMap()
        m.update(D)
        D = m
    if not isinstance(D, SMap):
        en.prove(name, False, detail=f"not a dictionary: {type(D).__name__}")
        return

    def guard(f, v):
        g = f.guard(v)
        return z3.And(g, limit(f, v)) if limit else g
    for e in D.entries:
        if getattr(e, "spec", None) is not None and any(e.spec is f for f in fams):
            if limit is not None or e.lim is not None:
                v = [z3.Int(en.fresh_name("v")) for _ in range(e.k)]
                en.prove(f"{name}: entries", z3.Implies(e.guard(v), guard(e.spec, v)))
            continue
        v = [z3.Int(en.fresh_name("v")) for _ in range(e.k)]
        for t in v:
            en.index_vars[t.get_id()] = t
        with en.scope():
            en.assume(e.guard(v))
            key, val = zkey(e.key(v)), rv(e.val(v))
            done = False
            for f in fams:
                w = [z3.simplify(t) for t in f.inv(key)]
                k2 = zkey(f.key(w))
                if f.which == 2:
                    for a in sum_instances(val):
                        sum_zero(en, a, w[0] == w[1])
                if f.which == 2 and en.entails(z3.And(w[0] >= 0, w[1] >= 0, w[1] < f.W.n.e), 1000):
                    f.W.flat_lemma(en, w[0], w[1])
                if en.entails(z3.And(guard(f, w), k2[0] == key[0], k2[1] == key[1]), 2000):
                    equal(en, f"{name}: coefficient of an entry ({f.name})", val, f.val(w))
                    done = True
                    break
            if not done:
                goals = []
                for a in sum_instances(val):
                    for f in fams:
                        if f.which == 2:
                            sum_zero(en, a, f.inv(key)[0] == f.inv(key)[1])
                for f in fams:
                    w = [z3.simplify(t) for t in f.inv(key)]
                    k2 = zkey(f.key(w))
                    goals.append(z3.And(guard(f, w), k2[0] == key[0], k2[1] == key[1]))
                en.prove(f"{name}: every entry is a term of the form", z3.Or(*goals))
    for f in fams:
        v = [z3.Int(en.fresh_name("v")) for _ in range(f.k)]
        for t in v:
            en.index_vars[t.get_id()] = t
        with en.scope():
            en.assume(guard(f, v))
            key = zkey(f.key(v))
            alts = []
            for e in D.entries:
                if getattr(e, "spec", None) is f:
                    alts.append(e.guard(v))
                elif getattr(e, "spec", None) is None:
                    if e.k and e.k != f.k:
                        continue
                    k2 = zkey(e.key(v[:e.k]))
                    alts.append(z3.And(e.guard(v[:e.k]), k2[0] == key[0], k2[1] == key[1]))
            if not f.always:
                alts.append(f.val(v) == 0)
            en.prove(f"{name}: no term is missing ({f.name})", z3.Or(*alts) if alts else z3.BoolVal(False))


def restrict(f, lim):
    """the entries of a family written so far (a zero coefficient may be left out)"""
    g = (lambda v: z3.And(f.guard(v), lim(f, v) if lim else z3.BoolVal(True))) if f.always else \
        (lambda v: z3.And(f.guard(v), lim(f, v) if lim else z3.BoolVal(True), f.val(v) != 0))
    r = Fam(f.k, g, f.key, lambda v: Sym(f.val(v), "float64"), f.name)
    r.spec, r.lim = f, lim
    return r


def with_guard(en, g, a, b):
    """a == b under g, summand by summand"""
    (ba, na), (bb, nb) = sum_body(a, CK), sum_body(b, CK)
    if not A.dim_eq(na, nb):
        return
    k = bound_index("ke")
    goal = z3.substitute(toreal(ba), (CK, k)) == z3.substitute(toreal(bb), (CK, k))
    with en.scope():
        en.assume(z3.And(g, k >= 0, k < ix(na)))
        ok = en.entails(goal, 3000) or en._solve(goal, goal, 4000)[0] == "discharged"
    if ok:
        en.assume(z3.Implies(g, toreal(a) == toreal(b)))


class Fill(LoopSpec):
    """a loop over the inputs writing the terms of the families in order of their first
    (outer loop) and second (inner loop) variable"""

    def __init__(self, var, D, fams, fixed=()):
        self.var, self.D, self.fams, self.fixed = var, D, fams, fixed
        self.owns = (var,)
        self.base = list(D.entries)

    def lim(self, i):
        p = len(self.fixed)
        fx = self.fixed
        return lambda f, v: z3.And(*[v[k] == fx[k] for k in range(p)], v[p] < i) if f.k > p else z3.BoolVal(True)

    def entry(self, fr):
        if self.base and not all(getattr(e, "spec", None) is not None for e in self.base):
            raise Unsupported("dictionary not empty at the start of the loop")

    def havoc(self, i, fr):
        self.now = self.base + [restrict(f, self.lim(i)) for f in self.fams]
        fr[self.var].entries = list(self.now)
        return {}

    def check(self, i, fr):
        en = eng()
        D = fr[self.var]
        if self.loop.phase == "entry":
            return
        new = SMap(D.entries[len(self.base):])
        if [id(e) for e in D.entries[:len(self.base)]] != [id(e) for e in self.base]:
            raise Unsupported("earlier entries changed")
        w = [z3.simplify(t) for t in list(self.fixed) + [self.loop.i]]
        for f in self.fams:
            if f.k == len(w):
                if f.which == 2:
                    f.W.flat_lemma(en, *w)
                for a in sum_instances(f.val(w)):
                    for b in fact_sums(en):
                        if a.decl().name() != b.decl().name():
                            with_guard(en, f.guard(w), a, b)
        entries_are(en, "terms written", new, self.fams, self.lim(i))


class Rows(LoopSpec):
    """a loop over the samples giving row s of the scratch array its value"""

    def __init__(self, var, arr, want, late=None):
        self.var, self.arr, self.want, self.late = var, arr, want, late or {}
        self.old = arr.snapshot()
        self.owns = (var,)
        self.after_n = None

    def form(self, i):
        old, want = self.old, self.want
        if i is self.n or z3.is_true(z3.simplify(i == self.n)):
            return lambda idx: want(*idx)
        return lambda idx: z3.If(idx[0] < i, want(*idx), old(idx))

    def havoc(self, i, fr):
        self.arr.fn = self.form(i)
        out = {}
        if i is self.n or z3.is_true(z3.simplify(i == self.n)):
            for k, f in self.late.items():
                if k in self.loop.assigned:
                    out[k] = f()
        return out

    def check(self, i, fr):
        en = eng()
        if self.loop.phase == "entry":
            return
        a = fr[self.var]
        if a is not self.arr:
            raise Unsupported("scratch array replaced")
        s, k = fresh_index(0, self.n, "s"), fresh_index(0, a.shape_[1], "k")
        w = self.form(i)
        equal(en, "row of the samples so far", a.at(s, k), w((s, k)))


class SumRows(Rows):
    """... and a running value computed from the whole scratch array"""

    def __init__(self, var, arr, W, l, which):
        super().__init__(var, arr, W.row(which, l))
        self.W = W

    def value(self, i, k):
        f = self.form(i)
        return sum_term(lambda s: self.W.c() * f((s, k)), self.W.N, True)

    def havoc(self, i, fr):
        out = super().havoc(i, fr)
        if self.loop.phase == "done":
            for v in self.loop.assigned:
                if v not in fr and v not in ("M", "s"):
                    out[v] = SArr((self.W.n * self.W.n,), "float64", lambda idx: self.value(self.n, idx[0]))
                    out[v].tag = "sum"
        return out

    def check(self, i, fr):
        super().check(i, fr)
        if self.loop.phase == "entry":
            return
        en = eng()
        for v in self.loop.assigned:
            if v in ("M", "s") or v not in fr or not isinstance(fr[v], SArr) or len(fr[v].shape_) != 1:
                continue
            k = fresh_index(0, fr[v].shape_[0], "k")
            equal(en, "sum over the samples so far", fr[v].at(k), self.value(i, k))


def resolver(W, l, which, place):
    """loop contracts of a helper, by what the loop ranges over"""
    state = {"fill": None}

    def f(site, seq, fr):
        n = ix(L_.seq_len(seq))
        en = eng()
        maps = {k: v for k, v in fr.items() if isinstance(v, SMap)}
        arrs = {k: v for k, v in fr.items() if isinstance(v, SArr) and v.base is None and v.shape_ and not isinstance(v.shape_, OShape)
                and len(v.shape_) == 2 and v.tag is None}
        if n.eq(W.N.e) and len(arrs) == 1:
            (k, a), = arrs.items()
            return SumRows(k, a, W, l, which) if which == 2 else Rows(k, a, W.row(which, l))
        if n.eq(W.n.e) and len(maps) == 1:
            (k, D), = maps.items()
            outer = state["fill"]
            if outer is not None and getattr(outer, "loop", None) is not None and outer.loop.phase == "run":
                return Fill(k, D, outer.fams, (outer.loop.i,))
            s = Fill(k, D, W.families(which, l))
            state["fill"] = s
            return s
    return f


class FakeSelf:
    pass


def helper(which, form, again=False):
    def h(en, ld):
        W = World(en)
        l = W.l.e
        D = SMap()
        if form == "free":
            m = ld.load(FREE)
            sc = {1: lambda: new_array("scratch", (W.N, W.n), "float64"), 2: lambda: new_array("scratch", (W.N, W.n * W.n), "float64"),
                  3: lambda: new_array("scratch", (W.N, 1), "float64"), 4: lambda: new_array("scratch", (W.N, W.n), "float64")}[which]()
            sc.tag = None
            call = {1: lambda: m.Bterm1_Calculation_Subespacio(D, sc, W.x, W.d, W.l, W.n, W.N, W.sw, W.sx),
                    2: lambda: m.Bterm2_Calculation_Subespacio(D, sc, W.x, W.l, W.n, W.N, W.sw, W.sx),
                    3: lambda: m.Bterm3_Calculation_Subespacio(D, sc, W.d, W.l, W.n, W.m, W.sb, W.sx, W.sw, W.N),
                    4: lambda: m.Bterm4_Calculation_Subespacio(D, sc, W.x, W.l, W.n, W.m, W.sb, W.sx, W.sw, W.N)}[which]
        else:
            m = ld.load(ADA)
            o = ada(ld, W)
            call = {1: lambda: o.bterm1_calculation_subespacio(D, W.l), 2: lambda: o.bterm2_calculation_subespacio(D, W.l),
                    3: lambda: o.bterm3_calculation_subespacio(D, W.l), 4: lambda: o.bterm4_calculation_subespacio(D, W.l)}[which]
        LOOP_SPECS.append(resolver(W, l, which, form))
        en.cover("precondition")
        r = call()
        en.cover("returned")
        out, vec = r if which in (2, 4) else (r, None)
        en.prove("the filled dictionary is returned", out is D)
        entries_are(en, "form", out, W.families(which, l))
        if vec is not None:
            i, j = fresh_index(0, W.n, "i"), fresh_index(0, W.n, "j")
            if which == 2:
                W.flat_lemma(en, i, j)
                en.assume(i != j)
                equal(en, "returned sums", T.sym(vec[Sym(z3.simplify(j + i * W.n.e), "pyint")]).e, W.cross(i, j))
            else:
                equal(en, "returned sums", T.sym(vec[Sym(i, "pyint")]).e, W.mix(i))
    return h


def ada(ld, W):
    m = ld.load(ADA)
    o = object.__new__(m.ADAInt)
    o.input, o.kernel = new_array("input", (W.N, W.n), "float64"), new_array("kernel", (W.m, W.n), "float64")
    o.bias, o.output = new_array("bias", (W.m,), "float64"), new_array("output", (W.N, W.m), "float64")
    o.input_scale, o.kernel_scale, o.bias_scale = W.sx, W.sw, W.sb
    o.input_round_calculation, o.dterm_calculation = (lambda: W.x), (lambda: W.d)
    return o


# ---------------------------------------------------------------- residuals
def half_even(t):
    return T.half_even(t)


def rounding(form):
    def h(en, ld):
        N, n = new_int("samples", 1), new_int("inputs", 1)
        inp, s = new_array("input", (N, n), "float64"), new_real("input_scale", pos=True)
        if form == "free":
            en.cover("precondition")
            r = ld.load(FREE).Input_Round_Calculation(inp, s)
        else:
            o = object.__new__(ld.load(ADA).ADAInt)
            o.input, o.input_scale = inp, s
            en.cover("precondition")
            r = o.input_round_calculation()
        f0 = inp.snapshot()
        same_shape(en, "one rounded input per input", r, inp)
        i = tuple(fresh_index(0, d) for d in inp.shape_)
        c, t = rv(scalar_or_el(r, *i)), inp.at(*i) / s.e
        en.prove("rounded input is an integer", z3.ToReal(z3.ToInt(c)) == c)
        en.prove("rounded input is nearest to input / scale", z3.And(c - t <= z3.Q(1, 2), t - c <= z3.Q(1, 2)))
        unchanged(en, "input untouched", inp, f0)
    return h


def residual(form):
    """d[s,l] = out/(sw sx) - r floor(b/(sw sx)) - sum_i floor(w/sw) x[s,i]"""
    def h(en, ld):
        N, n, m = new_int("samples", 1), new_int("inputs", 1), new_int("outputs", 1)
        x, out = new_array("xr", (N, n), "float64"), new_array("output", (N, m), "float64")
        w, b = new_array("kernel", (m, n), "float64"), new_array("bias", (m,), "float64")
        sw, sx, sb = (new_real(k, pos=True) for k in ("kernel_scale", "input_scale", "bias_scale"))
        if form == "free":
            en.cover("precondition")
            d = ld.load(FREE).dterm_Calculation(b, w, x, out, sw, sx, sb)
        else:
            o = object.__new__(ld.load(ADA).ADAInt)
            o.input, o.kernel, o.bias, o.output = new_array("input", (N, n), "float64"), w, b, out
            o.input_scale, o.kernel_scale, o.bias_scale = sx, sw, sb
            o.input_round_calculation = lambda: x
            en.cover("precondition")
            d = o.dterm_calculation()
        same_shape(en, "one residual per sample and output", d, out)
        s, l = fresh_index(0, N, "s"), fresh_index(0, m, "l")
        p = sw.e * sx.e
        want = out.at(s, l) / p - (sb.e / p) * z3.ToReal(z3.ToInt(b.at(l) / p)) \
            - sum_term(lambda i: z3.ToReal(z3.ToInt(w.at(l, i) / sw.e)) * x.at(s, i), n, True)
        equal(en, "residual of the rounded-down weights", T.sym(d.el(s, l)).e, want)
    return h


# ---------------------------------------------------------------- repeated blocks
def token2(W):
    def at(idx):
        i, j = A.unflat(idx[0], (W.n, W.n))
        return z3.If(i == j, z3.RealVal(0), W.cross(i, j))
    a = SArr((W.n * W.n,), "float64", at)
    a.tag = "cross sums"
    return a


def token4(W):
    a = SArr((W.n,), "float64", lambda idx: W.mix(idx[0]))
    a.tag = "mixed sums"
    return a


def repeated(which, form):
    def h(en, ld):
        W = World(en)
        l, D = W.l.e, SMap()
        if form == "free":
            m = ld.load(FREE)
            call = (lambda: m.Bterm_Calculation_Vuelta(token2(W), D, W.n, W.l)) if which == 2 else \
                (lambda: m.Bterm_Calculation_Vuelta4(D, token4(W), W.n, W.m, W.l))
        else:
            o = ada(ld, W)
            call = (lambda: o.bterm2_calculation_repeticion(token2(W), D, W.l)) if which == 2 else \
                (lambda: o.bterm4_calculation_repeticion(D, token4(W), W.l))
        LOOP_SPECS.append(resolver(W, l, which, form))
        en.cover("precondition")
        out = call()
        en.cover("returned")
        en.prove("the filled dictionary is returned", out is D)
        entries_are(en, "form", out, W.families(which, l))
    return h


def union(form):
    """joining dictionaries with different keys keeps every entry"""
    def h(en, ld):
        W = World(en)
        l = W.l.e
        ds = [SMap([restrict(f, None) for f in W.families(k, l)]) for k in (1, 2, 3, 4)]
        target = SMap()
        en.cover("precondition")
        if form == "free":
            r = ld.load(FREE).Unir_Diccionarios(*ds, target)
        else:
            r = ada(ld, W).unir_diccionarios(*ds, target)
        whole(en, W, l, r, "joined form")
    return h


def whole(en, W, l, D, name):
    fams = [f for k in (1, 2, 3, 4) for f in W.families(k, l)]
    # kernel and bias variables are different variables (so no entry replaces another family's)
    v = fresh_index(0, W.n, "v")
    en.prove(name + ": kernel and bias variables differ", W.kvar(l, v) != W.bvar(l)) if lem_index(en, W, l, v) else None
    entries_are(en, name, D, fams)
    if isinstance(D, SMap):
        first = D.entries[0] if D.entries else None
        en.prove(name + ": variables appear in the order of the inputs, the bias after them",
                 first is not None and getattr(first, "spec", None) is W.families(1, l)[0])


def lem_index(en, W, l, i):
    n, m = W.n.e, W.m.e
    by_lemma(en, "block of an output", [n >= 1, l >= 0, l < m, i >= 0, i < n], l * n + i + 1 < m * n + 1 + l)
    return True


# ---------------------------------------------------------------- the search
class Sample:
    def __init__(self, arr):
        self.record = type("R", (), {})()
        self.record.sample = [arr]


class Outer(LoopSpec):
    """the loop over the outputs: the rows of the outputs done so far are decoded"""

    def __init__(self, W, S, arrs):
        self.W, self.S = W, S
        self.arrs = arrs
        self.owns = tuple(k for k in arrs) + ("M", "DiccionarioT", "Bterm1", "Bterm2", "Bterm3", "Bterm4", "AdaInt")

    def closed(self, i, rank, old):
        W, S = self.W, self.S
        if rank == 2:
            return lambda idx: z3.If(idx[0] < i, S(idx[0], idx[1]), old(idx))
        return lambda idx: z3.If(idx[0] < i, S(idx[0], W.n.e), old(idx))

    def entry(self, fr):
        self.old = {k: a.snapshot() for k, a in self.arrs.items()}

    def havoc(self, i, fr):
        en, W = eng(), self.W
        for k, a in self.arrs.items():
            a.fn = self.closed(i, len(a.shape_), self.old[k])
        out = {}
        if isinstance(fr.get("DiccionarioT"), (dict, SMap)):
            out["DiccionarioT"] = Sink()
        later = True
        if self.loop.phase == "run":
            later = en.choose(2, "first output") == 1
            en.assume(i >= 1 if later else i == 0)
        if later:
            for v in self.loop.assigned:
                if v.lower() == "bt2":
                    out[v] = W.tok2
                if v.lower() == "bt4":
                    out[v] = W.tok4
        return out

    def check(self, i, fr):
        en, W = eng(), self.W
        if self.loop.phase == "entry":
            return
        for v in self.loop.assigned:
            if v.lower() == "bt2" and v in fr:
                en.prove("block sums kept", fr[v] is W.tok2)
            if v.lower() == "bt4" and v in fr:
                en.prove("mixed sums kept", fr[v] is W.tok4)
        for k, a in self.arrs.items():
            if fr.get(k) is not a:
                raise Unsupported("result array replaced")
            l, j = fresh_index(0, W.m, "l"), fresh_index(0, W.n, "j")
            idx = (l, j) if len(a.shape_) == 2 else (l,)
            en.prove("every variable decoded to the element it stands for", a.at(*idx) == self.closed(i, len(a.shape_), self.old[k])(idx))


class Sink:
    def update(self, o): pass


def search(en, ld):
    W = World(en)
    q = ld.load(QB)
    W.tok2, W.tok4 = token2(W), token4(W)
    S = z3.Function("solution", z3.IntSort(), z3.IntSort(), z3.RealSort())
    inp = new_array("input", (W.N, W.n), "float64")
    kernel, bias = new_array("kernel", (W.m, W.n), "float64"), new_array("bias", (W.m,), "float64")
    act = new_array("after_activation", (W.N, W.m), "float64")
    en.assume(W.sb.e == W.sx.e * W.sw.e)          # postcondition of the layer's quantisation (C23)
    target = lambda s, l: sum_term(lambda i: inp.at(s, i) * kernel.at(l, i), W.n, True) + bias.at(l)

    def same(name, a, want, shape):
        i = tuple(fresh_index(0, d) for d in shape)
        if not isinstance(a, SArr) or len(a.shape_) != len(shape):
            en.prove(name, False)
            return
        equal(en, name, a.at(*i), want(*i))

    def eq(name, a, b):
        en.prove(name, toreal(T.sym(a).e) == toreal(b.e))

    def args(name, **kw):
        for k, (a, b) in kw.items():
            if isinstance(b, SArr):
                en.prove(f"{name}: {k}", a is b)
            else:
                eq(f"{name}: {k}", a, b)

    def fill(D, which, l):
        if isinstance(D, dict) and not D or isinstance(D, SMap) and not D.entries:
            return SMap([restrict(f, None) for f in W.families(which, ix(l))])
        if isinstance(D, SMap) and all(e.spec in W.families(which, ix(l)) for e in D.entries if hasattr(e, "spec")):
            return SMap([restrict(f, None) for f in W.families(which, ix(l))])
        en.prove("terms are written into an empty dictionary", False)
        return SMap()

    def join(d1, d2, d3, d4, D):
        if isinstance(D, Sink):
            return D
        r = SMap() if isinstance(D, dict) and not D else D
        if not isinstance(r, SMap):
            raise Unsupported("joined into a filled dictionary")
        for d in (d1, d2, d3, d4):
            r.update(d)
        return r

    def solve(D, *a):
        # which output: from the family written
        l = None
        for e in (D.entries if isinstance(D, SMap) else ()):
            if getattr(e, "spec", None) is not None and e.spec.which == 1:
                l = e.spec.at
                break
        if l is None:
            en.prove("the solver is given the form of an output", False)
            l = z3.IntVal(0)
        whole(en, W, l, D, "form given to the solver")
        return Sample(SArr((W.n + 1,), "float64", lambda idx: S(l, idx[0])))

    def Round(i, s):
        same("rounded: the inputs", i, lambda a, b: inp.at(a, b), (W.N, W.n))
        eq("rounded: input scale", s, W.sx)
        return W.x

    def Dterm(b, k, x, o, sw, sx, sb):
        same("residual: bias", b, lambda a: bias.at(a), (W.m,))
        same("residual: kernel", k, lambda a, c: kernel.at(a, c), (W.m, W.n))
        same("residual: output of the layer", o, target, (W.N, W.m))
        args("residual", x=(x, W.x), sw=(sw, W.sw), sx=(sx, W.sx), sb=(sb, W.sb))
        return W.d

    def B1(D, t, x, d, l, n, N, sw, sx):
        args("diagonal", x=(x, W.x), d=(d, W.d), n=(n, W.n), N=(N, W.N), sw=(sw, W.sw), sx=(sx, W.sx))
        return fill(D, 1, l)

    def B2(D, t, x, l, n, N, sw, sx):
        args("pairs", x=(x, W.x), n=(n, W.n), N=(N, W.N), sw=(sw, W.sw), sx=(sx, W.sx))
        return fill(D, 2, l), W.tok2

    def V2(t, D, n, l):
        args("pairs", t=(t, W.tok2), n=(n, W.n))
        return fill(D, 2, l)

    def B3(D, t, d, l, n, m, sb, sx, sw, N):
        args("bias", d=(d, W.d), n=(n, W.n), m=(m, W.m), N=(N, W.N), sw=(sw, W.sw), sx=(sx, W.sx), sb=(sb, W.sb))
        return fill(D, 3, l)

    def B4(D, t, x, l, n, m, sb, sx, sw, N):
        args("mixed", x=(x, W.x), n=(n, W.n), m=(m, W.m), N=(N, W.N), sw=(sw, W.sw), sx=(sx, W.sx), sb=(sb, W.sb))
        return fill(D, 4, l), W.tok4

    def V4(D, t, n, m, l):
        args("mixed", t=(t, W.tok4), n=(n, W.n), m=(m, W.m))
        return fill(D, 4, l)

    real = ld.load(ADA).ADAInt

    class Ada:
        def __init__(self, i, k, b, o, sx, sw, sb):
            Round(i, sx)
            Dterm(b, k, W.x, o, sw, sx, sb)
            self.input, self.bias = inp, bias

        input_dimension = lambda self: W.n
        output_dimension = lambda self: W.m
        numero_datasets = lambda self: W.N
        bterm1_calculation_subespacio = lambda self, D, l: fill(D, 1, l)
        bterm2_calculation_subespacio = lambda self, D, l: (fill(D, 2, l), W.tok2)
        bterm2_calculation_repeticion = lambda self, t, D, l: V2(t, D, W.n, l)
        bterm3_calculation_subespacio = lambda self, D, l: fill(D, 3, l)
        bterm4_calculation_subespacio = lambda self, D, l: (fill(D, 4, l), W.tok4)
        bterm4_calculation_repeticion = lambda self, D, t, l: V4(D, t, W.n, W.m, l)
        unir_diccionarios = lambda self, *a: join(*a)
        matrix_calculation = lambda self, *a: None
        quantum_annealing = lambda self, D: solve(D)
        tensor_redondeo = real.tensor_redondeo
        tensor_redondeo2 = real.tensor_redondeo2

    for k, v in dict(ADAInt=Ada, Input_Round_Calculation=Round, dterm_Calculation=Dterm, Bterm1_Calculation_Subespacio=B1,
                     Bterm2_Calculation_Subespacio=B2, Bterm3_Calculation_Subespacio=B3, Bterm4_Calculation_Subespacio=B4,
                     Bterm_Calculation_Vuelta=V2, Bterm_Calculation_Vuelta4=V4, Unir_Diccionarios=join,
                     Matrix_Calculation=lambda *a: None, Quantum_annealing_simulator=solve).items():
        if not hasattr(q, k):
            raise Unsupported(f"{k} is not used any more")
        setattr(q, k, v)
    mk = lambda s: type("N", (), {"scale": s, "zero_point": new_int("zp"), "name": "node"})()
    op = type("Op", (), {})()
    op.inputs = [mk(W.sx), mk(W.sw), mk(W.sb)]
    res = type("Q", (), {})()
    res.operators, res.input_data = [op], act
    lay = type("Layer", (), {"get_weights": lambda self: (kernel, bias)})()
    a = q.QUBOAnnealer()
    a.set_layer(lay)
    a.set_quant_results(res)
    a.set_input_data(inp)
    a.set_initial_neigh([new_array("k0", (W.m, W.n), "int64"), new_array("b0", (W.m,), "int64")])

    def f(site, seq, fr):
        if ix(L_.seq_len(seq)).eq(W.m.e):
            arrs = {k: v for k, v in fr.items() if k in ("Redondeo_Kernel", "Redondeo_Bias")}
            return Outer(W, S, arrs)
    LOOP_SPECS.append(f)
    en.cover("precondition")
    r = a._qubo_dense(a._round_policy)
    en.cover("returned")
    ok = isinstance(r, (list, tuple)) and len(r) == 2 and all(isinstance(x, SArr) for x in r)
    if not en.prove("a kernel and a bias policy", ok):
        return
    l, i = fresh_index(0, W.m, "l"), fresh_index(0, W.n, "i")
    same_shape(en, "kernel policy has the kernel's shape", r[0], kernel)
    same_shape(en, "bias policy has the bias's shape", r[1], bias)
    en.prove("kernel decisions are the solution's", r[0].at(l, i) == S(l, i))
    en.prove("bias decisions are the solution's", r[1].at(l) == S(l, W.n.e))


# ---------------------------------------------------------------- the solver
def solver(form):
    """the form given is what is sampled, with no further terms, over 0/1 variables"""
    def h(en, ld):
        m = ld.load(FREE if form == "free" else ADA)
        seen = {}
        D = SMap()
        result = object()

        class BQM:
            def __init__(self, *a, **k):
                names = ("linear", "quadratic", "offset", "vartype")
                kw = dict(zip(names, a))
                kw.update(k)
                if len(a) == 3 and "vartype" not in k:
                    kw["vartype"], kw["offset"] = kw["offset"], 0.0
                seen.setdefault("made", []).append(self)
                self.kw = kw

            @classmethod
            def from_qubo(cls, Q, offset=0.0):
                return cls({}, Q, offset, dimod.BINARY)

        class Sampler:
            def __init__(self, *a, **k): pass

            def sample(self, p, **k):
                if k.get("num_reads") is not None and form == "x":
                    raise Unsupported("reads")
                seen.setdefault("sampled", []).append(p)
                return result

            def sample_qubo(self, Q, **k):
                return self.sample(BQM({}, Q, 0.0, dimod.BINARY), **k)

        class Exact:
            def sample(self, p):
                r = type("R", (), {})()
                r.samples = lambda: iter([{}])
                r.data = lambda: iter([type("D", (), {"energy": 0.0})()])
                return r
        dimod = type("dimod", (), {"BINARY": "BINARY", "SPIN": "SPIN", "BinaryQuadraticModel": BQM, "BQM": BQM, "ExactSolver": Exact})
        m.dimod = dimod
        m.neal = type("neal", (), {"SimulatedAnnealingSampler": Sampler})
        en.cover("precondition")
        if form == "free":
            r = m.Quantum_annealing_simulator(D, new_int("l", 0))
        else:
            r = object.__new__(m.ADAInt).quantum_annealing(D)
        ok = len(seen.get("sampled", [])) == 1
        if not en.prove("one form is sampled", ok):
            return
        kw = seen["sampled"][0].kw
        en.prove("the form's terms are the dictionary", kw.get("quadratic") is D)
        en.prove("no further linear terms", kw.get("linear") in ({}, None))
        en.prove("the variables are 0/1", kw.get("vartype") in ("BINARY", {0, 1}, frozenset({0, 1})))
        en.prove("the solver's samples are returned", r is result)
    return h


def theorem(en, ld):
    """lemmas/qubo.lean: the form with these coefficients is the mean squared error up to a constant"""
    import os
    import subprocess
    import time
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lemmas", "qubo.lean")
    en.cover("precondition")
    t = time.time()
    try:
        r = subprocess.run(["lean", p], capture_output=True, text=True, timeout=240, cwd="/tmp")
        out = r.stdout + r.stderr
    except (OSError, subprocess.TimeoutExpired) as e:
        out, r = str(e), None
    ok = r is not None and r.returncode == 0 and "sorry" not in out and "error" not in out and \
        "'qubo_mse' depends on axioms: [propext, Classical.choice, Quot.sound]" in out
    en.prove("qubo_mse (Lean kernel)", ok, detail=out[:500])
    en.obligations[-1].backend = "lean"
    en.obligations[-1].time = time.time() - t


def small(n, m, N):
    """the whole search on a layer of fixed size, all data, scales 1/2 and 1/4"""
    def h(en, ld):
        q = ld.load(QB)
        forms = []
        F = z3.Q
        sx, sw = 0.25, 0.5
        inp, kernel, bias = new_array("input", (N, n), "float64"), new_array("kernel", (m, n), "float64"), new_array("bias", (m,), "float64")

        def solve(D, *a):
            l = len(forms)
            forms.append(dict(D))
            return Sample(as_array([0] * (n + 1)))
        q.Quantum_annealing_simulator = solve
        q.Matrix_Calculation = lambda *a: None

        class Ada:
            def __init__(self, *a): pass

            def __getattr__(self, k):
                if k == "tensor_redondeo":
                    return lambda *a: (as_array([0] * n), 0)
                if k in ("bterm2_calculation_subespacio", "bterm4_calculation_subespacio"):
                    return lambda *a: ({}, None)
                return lambda *a: {}
        q.ADAInt = Ada
        mk = lambda s: type("N", (), {"scale": s, "zero_point": 3, "name": "node"})()
        op = type("Op", (), {})()
        op.inputs = [mk(sx), mk(sw), mk(sx * sw)]
        res = type("Q", (), {})()
        res.operators, res.input_data = [op], new_array("after_activation", (N, m), "float64")
        a = q.QUBOAnnealer()
        a.set_layer(type("Layer", (), {"get_weights": lambda self: (kernel, bias)})())
        a.set_quant_results(res)
        a.set_input_data(inp)
        a.set_initial_neigh([new_array("k0", (m, n), "int64"), new_array("b0", (m,), "int64")])
        en.cover("precondition")
        a._qubo_dense(a._round_policy)
        en.prove("one form per output", len(forms) == m)
        fl = lambda t: z3.ToReal(z3.ToInt(t))
        X = [[z3.ToReal(T.half_even(inp.at(s, i) / F(1, 4))) for i in range(n)] for s in range(N)]
        import itertools
        for l in range(min(m, len(forms))):
            def mse(z):
                tot = z3.RealVal(0)
                for s in range(N):
                    out = bias.at(l)
                    for i in range(n):
                        out = out + inp.at(s, i) * kernel.at(l, i)
                    got = F(1, 8) * (fl(bias.at(l) / F(1, 8)) + z[n])
                    for i in range(n):
                        got = got + F(1, 2) * (fl(kernel.at(l, i) / F(1, 2)) + z[i]) * (F(1, 4) * X[s][i])
                    tot = tot + (out - got) * (out - got) * F(1, N)
                return tot
            var = {l * n + i + 1: i for i in range(n)}
            var[n * m + 1 + l] = n
            for z in itertools.product((0, 1), repeat=n + 1):
                v = z3.RealVal(0)
                for (p, r), c in forms[l].items():
                    p, r = int(T.concrete(p) if isinstance(p, Sym) else p), int(T.concrete(r) if isinstance(r, Sym) else r)
                    v = v + rv(c) * z[var[p]] * z[var[r]]
                g = v - mse(z) + mse((0,) * (n + 1))
                en.prove(f"form of output {l} at {z} is the error up to the constant", z3.simplify(g, som=True) == 0)
    return h


HARNESSES = [(f"coefficients[{w},{f}]", helper(w, f)) for w in (1, 2, 3, 4) for f in ("free", "ADAInt")]
HARNESSES += [(f"{n}[{f}]", g(f)) for f in ("free", "ADAInt") for n, g in (("rounded inputs", rounding), ("residuals", residual), ("joined", union))]
HARNESSES += [(f"repeated[{w},{f}]", repeated(w, f)) for w in (2, 4) for f in ("free", "ADAInt")]
HARNESSES += [("search", search)]
HARNESSES += [(f"solver[{f}]", solver(f)) for f in ("free", "ADAInt")] + [("theorem", theorem)]
HARNESSES += [(f"small[{n},{m},{N}]", small(n, m, N), {"standin": f"{n} inputs, {m} outputs, {N} samples, scales 1/4 and 1/2, every real data set"}) for n, m, N in ((2, 2, 2), (3, 1, 2))]
TRUSTED = ["dimod.BinaryQuadraticModel: value of a form is the sum of coefficient * product of its two variables, variables in order of first appearance",
           "a sampler returns one column per variable, in the order of the form's variables", "floats are mathematical reals",
           "finite sums with equal summands are equal", "np.savetxt dumps of the matrix are not part of the result"]
