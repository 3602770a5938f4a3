"""C22: quantisation parameters cover the data and represent zero.

Distribution.quantize is proved over an arbitrary data range; that the range
covers the data is proved over the contracts of np.sort, searchsorted and
np.histogram (below), for the constructed distribution and for every slice of an
arbitrary one."""
from .common import *
from pvc import loader as L_
from pvc.loader import LoopSpec, LOOP_SPECS

DM = "itcl_quantizer.quantizer.distributions.distribution"
QM = "itcl_quantization"


# ---------------------------------------------------------------- parameters
def rhe(t):
    f = z3.ToInt(t)
    d = t - z3.ToReal(f)
    return z3.If(d < z3.Q(1, 2), f, z3.If(d > z3.Q(1, 2), f + 1, z3.If(f % 2 == 0, f, f + 1)))


def quant(en, ld):
    for m in ("itcl_quantization.quantization", "itcl_quantization"):
        try:
            return ld.load(m).Quantization
        except AttributeError:
            continue


def params(tname, mode):
    def h(en, ld):
        dm = ld.load(DM)
        lo, hi = tlimits(tname)
        d = object.__new__(dm.Distribution)
        gmin, gmax = new_real("data_min"), new_real("data_max")
        en.assume(gmin.e <= gmax.e)
        mn = z3.If(gmin.e < 0, gmin.e, z3.RealVal(0))
        mx = z3.If(gmax.e > 0, gmax.e, z3.RealVal(0))
        d.get_min, d.get_max = (lambda: gmin), (lambda: gmax)
        sym = "symmetric" in mode
        zeros = "zeros" in mode
        ql, qh = (max(lo, -hi) if sym else lo), hi
        D = qh - ql
        forced = "zp" in mode
        kw = {}
        zf = None
        if forced:
            zf = 0 if "zp0" in mode else new_int("forced_zp", lo, hi)
            kw["force_zp"] = zf
        if "force_s" in mode:
            kw["force_s"] = sf = new_real("forced_scale", pos=True)
        if sym:
            kw["symmetric"] = True
        if forced and lo == 0:
            en.assume(gmin.e >= 0)
        if zeros:
            en.assume(z3.And(gmin.e == 0, gmax.e == 0))
        else:
            # ghosts: the extended range is [u*s, (u+D)*s] with s > 0
            s0, u = new_real("step", pos=True), new_real("start")
            en.assume(z3.And(u.e <= 0, u.e >= -D, mn == u.e * s0.e, mx == (u.e + D) * s0.e))
        q = quant(en, ld)(tname)
        en.cover("precondition")
        s, z = d.quantize(q, **kw)
        s, z = T.sym(s), T.sym(z)
        en.prove("the scale is positive", toreal(s.e) > 0)
        en.prove("the zero point is an integer", kind(z.t) == "i")
        en.prove("the zero point is a code of the type", z3.And(z.e >= lo, z.e <= hi))
        if forced:
            en.prove("the forced zero point is used", z.e == T.sym(zf).e)
        if "force_s" in mode:
            en.prove("the forced scale is used", toreal(s.e) == toreal(sf.e))
            return
        if forced and "zp0" not in mode:
            return
        if zeros:
            return
        # coverage of both ends; a value in between lies between their codes
        if not forced:
            if not en.prove("scale of the whole range", toreal(s.e) == s0.e):
                return
            zu = define(en, "zp_exact", z3.RealVal(ql) - u.e)
            en.prove("zero point nearest to its exact place", z3.And(toreal(z.e) - zu <= z3.Q(1, 2), zu - toreal(z.e) <= z3.Q(1, 2)))
            t = new_real("t").e
            en.assume(z3.And(t >= u.e, t <= u.e + D))       # x = t * scale
            c = define(en, "code", clipz(nearest_up(t + toreal(z.e)), lo, hi))
            e = t - (toreal(c) - toreal(z.e))
            en.prove("every value of the range is represented within one step", z3.And(e <= 1, e >= -1))
        else:
            m = z3.If(-mn > mx, -mn, mx)
            n = new_real("t").e                       # x = t * scale, |x| <= max(|min|, |max|)
            x = n * toreal(s.e)
            en.assume(z3.And(x <= mx, x >= mn))
            k = hi if sym else max(-lo, hi)
            if not en.prove("scale of the larger end", toreal(s.e) * k == m):
                return
            mulmono(en, k, n, toreal(s.e))
            mulmono(en, n, -k, toreal(s.e))
            en.assume(z3.Implies(z3.And(n > k, toreal(s.e) > 0), n * toreal(s.e) > k * toreal(s.e)))
            en.assume(z3.Implies(z3.And(n < -k, toreal(s.e) > 0), n * toreal(s.e) < -k * toreal(s.e)))
            if lo == 0:
                en.assume(z3.Implies(z3.And(n < 0, toreal(s.e) > 0), n * toreal(s.e) < 0))
            c = clipz(nearest_up(n), lo, hi)
            en.prove("every value of the range is represented within one step", z3.And(n - toreal(c) <= 1, toreal(c) - n <= 1))
    return h


# ---------------------------------------------------------------- the range covers the data
class World:
    """one data set: sorted values S[0..n), histogram with edges E[0..B] and the number
    c(k) of values below edge k"""

    def __init__(self, en, n, B, parent=None):
        I, R = z3.IntSort(), z3.RealSort()
        u = en.fresh_name("w")
        self.S, self.E, self.c = z3.Function(f"S_{u}", I, R), z3.Function(f"E_{u}", I, R), z3.Function(f"c_{u}", I, I)
        self.en, self.n, self.B = en, ix(n), None if B is None else ix(B)
        self.si, self.ei = [], []
        self.parent = parent
        if parent:
            w, off = parent
            self.S = lambda i: w.S(z3.simplify(off + i))

    def grow(self, lst, i, facts):
        i = z3.simplify(i)
        if any(i.eq(j) for j in lst):
            return
        lst.append(i)
        facts(i)

    def s_at(self, i):
        def facts(i):
            a = lambda *f: [self.en.assume(x) for x in f]
            if self.parent:
                self.parent[0].s_at(self.parent[1] + i)
            for j in self.si:
                a(z3.Implies(z3.And(i <= j, 0 <= i, j < self.n), self.S(i) <= self.S(j)), z3.Implies(z3.And(j <= i, 0 <= j, i < self.n), self.S(j) <= self.S(i)))
            for k in self.ei:
                self.cross(i, k)
            if self.B is not None:
                a(z3.Implies(z3.And(0 <= i, i < self.n), z3.And(self.E(z3.IntVal(0)) <= self.S(i), self.S(i) <= self.E(self.B))))
        self.grow(self.si, i, facts)
        return self.S(z3.simplify(i))

    def cross(self, i, k):
        self.en.assume(z3.Implies(z3.And(0 <= i, i < self.n, 0 <= k, k < self.B), (self.S(i) < self.E(k)) == (i < self.c(k))))

    def e_at(self, k):
        def facts(k):
            a = lambda *f: [self.en.assume(x) for x in f]
            for j in self.ei:
                a(z3.Implies(k < j, self.E(k) < self.E(j)), z3.Implies(j < k, self.E(j) < self.E(k)),
                  z3.Implies(k <= j, self.c(k) <= self.c(j)), z3.Implies(j <= k, self.c(j) <= self.c(k)))
            a(self.c(k) >= 0, self.c(k) <= self.n, z3.Implies(k == 0, self.c(k) == 0), z3.Implies(k == self.B, self.c(k) == self.n))
            for i in self.si:
                self.cross(i, k)
        self.grow(self.ei, k, facts)
        return self.E(z3.simplify(k))

    def edge_facts(self, k):
        self.e_at(k)
        self.s_at(self.c(z3.simplify(k)))
        self.s_at(self.c(z3.simplify(k)) - 1)

    def hist(self, k):
        self.edge_facts(k)
        self.edge_facts(k + 1)
        return self.c(z3.simplify(k + 1)) - self.c(z3.simplify(k))

    def datum(self, x):
        """the sorted array holds every datum"""
        p = new_int("place").e
        self.en.assume(z3.And(p >= 0, p < self.n))
        self.s_at(p)
        self.en.assume(self.S(p) == x)
        return p


class Sorted(SArr):
    """the sorted data or a contiguous part of it"""

    def __init__(self, w, off, n):
        super().__init__((dim(n),), "float64", lambda idx: w.s_at(z3.simplify(ix(off) + idx[0])))
        self.__dict__.update(w=w, off=ix(off))

    def copy(self, *a, **k):
        return Sorted(self.w, self.off, self.shape_[0])

    __deepcopy__ = __copy__ = lambda self, memo=None: self.copy()

    def flatten(self, *a):
        return self.copy()

    def searchsorted(self, v, side="left", sorter=None):
        if side not in ("left", "right") or sorter is not None:
            raise Unsupported("searchsorted variant")
        en, n = self.w.en, ix(self.shape_[0])
        r = new_int("found").e
        v = toreal(T.sym(v).e)
        en.assume(z3.And(r >= 0, r <= n))
        below = (lambda s: s < v) if side == "left" else (lambda s: s <= v)
        self.w.s_at(self.off + r)
        self.w.s_at(self.off + r - 1)
        for i in list(self.w.si):
            j = i - self.off
            en.assume(z3.Implies(z3.And(j >= 0, j < n), below(self.w.S(i)) == (j < r)))
        return Sym(r, "int64")

    def __getitem__(self, key):
        if isinstance(key, slice) and key.step is None:
            s, l, _ = A.slice_bounds(key, self.shape_[0])
            return Sorted(self.w, z3.simplify(self.off + ix(s)), l)
        return super().__getitem__(key)


class NP:
    """numpy with the contracts of sort and histogram"""

    def __init__(self, np_, en):
        self.np_, self.en, self.made = np_, en, []

    def __getattr__(self, n):
        return getattr(self.np_, n)

    def array(self, a, *x, **k):
        return a.copy() if isinstance(a, Sorted) and not x and not k else self.np_.array(a, *x, **k)

    asarray = array

    def world(self, a):
        for src, w in self.made:
            if src is a:
                return w

    def sort(self, a, axis=-1):
        if isinstance(a, Sorted):
            w = World(self.en, a.shape_[0], None, (a.w, a.off))
            self.made.append(w)
            return Sorted(w, 0, a.shape_[0])
        a = as_array(a)
        if isinstance(a.shape_, OShape) or len(a.shape_) != 1:
            raise Unsupported("sort along one axis of several")
        n = a.shape_[0]
        w = World(self.en, n, None)
        w.src = a
        self.made.append(w)
        return Sorted(w, 0, n)

    def histogram(self, a, bins=10, range=None, weights=None, density=None):
        if range is not None or weights is not None or density:
            raise Unsupported("histogram variant")
        if isinstance(bins, (list, SList, SArr)):
            raise Unsupported("histogram with given edges")
        n = a.size
        if not self.made or isinstance(a, Sorted) != bool(self.made[-1].parent):
            raise Unsupported("histogram of other data than those sorted last")
        en, w = self.en, self.made[-1]
        B = w.B = ix(bins)
        w.ei = []
        for i in list(w.si):
            w.en.assume(z3.Implies(z3.And(0 <= i, i < w.n), z3.And(w.E(z3.IntVal(0)) <= w.S(i), w.S(i) <= w.E(B))))
        edges = SArr((dim(z3.simplify(B + 1)),), "float64", lambda idx: w.e_at(idx[0]))
        return SArr((dim(B),), "int64", lambda idx: w.hist(idx[0])), edges


def covered(en, d, x, what):
    a, b = T.sym(d.get_min()), T.sym(d.get_max())
    en.prove(f"{what}: not above the datum", toreal(a.e) <= x)
    en.prove(f"{what}: not below the datum", toreal(b.e) >= x)


def constructed(rank, bins):
    def h(en, ld):
        dm = ld.load(DM)
        dm.np = np = NP(ld.load(DM).np, en)
        if rank == "any":
            X = new_array("x", OShape("S"), "float64")
            n = X.shape_.size
            en.assume(ix(n) >= 1)
            i = (fresh_index(0, n),)
        else:
            X = new_array("x", tuple(new_int(f"n{k}", 1) for k in range(rank)), "float64")
            i = tuple(fresh_index(0, k) for k in X.shape_)
        kw = {} if bins is None else {"bins": new_int("bins", 1) if bins == "any" else bins}
        en.cover("precondition")
        d = dm.Distribution(X, **kw)
        w = np.made[0]
        # the sorted array is sorted from all of the data
        j = fresh_index(0, ix(w.n))
        src = w.src
        en.prove("all data are sorted", ix(w.n) == ix(X.size))
        x = toreal(X.at(*i))
        w.datum(x)
        covered(en, d, x, "range of the data")
        en.prove("number of bins", ix(dm.Distribution.__len__(d)) == ix(kw.get("bins", 512) if not isinstance(kw.get("bins"), Sym) else kw["bins"].e))
    return h


class Clone(LoopSpec):
    """after k edges: the last edge not above the start / stop among them (or the first / the end)"""

    def __init__(self, w, B):
        self.w, self.B = w, B

    def inv(self, m, M, i, key):
        w = self.w
        for t in (m, M):
            w.edge_facts(t)
            w.edge_facts(t + 1)
        a, b = toreal(T.sym(key.start).e), toreal(T.sym(key.stop).e)
        ind = []
        for e in [x for x in list(w.ei)]:
            ind += [z3.Implies(z3.And(e < i, e >= 0, w.E(e) <= a), e <= m), z3.Implies(z3.And(e < i, e >= 0, w.E(e) <= b), e <= M)]
        return [m >= 0, m <= z3.If(i > 0, i - 1, 0), z3.Or(m == 0, w.E(m) <= a),
                z3.Or(M == self.B, z3.And(M >= 0, M < i, w.E(M) <= b))], ind

    def havoc(self, i, fr):
        if set(self.loop.assigned) - {"i", "edge", "min_bin_idx", "max_bin_idx"}:
            raise Unsupported("loop over the edges keeps more state: " + ", ".join(self.loop.assigned))
        m, M = new_int("min_idx"), new_int("max_idx")
        x, y = self.inv(m.e, M.e, i, fr["key"])
        eng().assume(z3.And(*x, *y))
        return {"min_bin_idx": m, "max_bin_idx": M}

    def check(self, i, fr):
        en = eng()
        m, M = T.sym(fr["min_bin_idx"]).e, T.sym(fr["max_bin_idx"]).e
        k = new_int("edge_index").e
        self.w.edge_facts(k)
        x, y = self.inv(m, M, i, fr["key"])
        en.prove("edge loop: indices in range", z3.And(*x))
        en.prove("edge loop: last edges not above the ends", z3.And(*y))


def sliced(kind_, chain=False):
    def h(en, ld):
        dm = ld.load(DM)
        dm.np = np = NP(ld.load(DM).np, en)
        n, B = new_int("n", 1), new_int("bins", 1)
        w = World(en, n.e, B.e)
        # canonical state: a part [e0, e0+B] of the edges of the histogram
        d = object.__new__(dm.Distribution)
        d._sorted_a = Sorted(w, 0, n)
        edges = SList(z3.simplify(B.e + 1), lambda i: Sym(w.e_at(i), "pyfloat"))
        d._bin_edges = edges
        d._histogram = SList(B, lambda i: Sym(w.hist(i), "pyint"))
        d._bin_size = Sym(w.e_at(z3.IntVal(1)) - w.e_at(z3.IntVal(0)), "pyfloat")
        d._include_partial_bins = True
        setattr(d, "_Distribution__range", None)
        setattr(d, "_Distribution__weights", None)
        for k in (z3.IntVal(0), B.e - 1, B.e):
            w.edge_facts(k)
        a, b = new_real("start"), new_real("stop")
        x = new_real("x").e
        if kind_ == "both":
            en.assume(a.e <= b.e)
            key, inside = slice(a, b), z3.And(x >= a.e, x <= b.e)
        elif kind_ == "from":
            key, inside = slice(a, None), x >= a.e
        elif kind_ == "from0":
            key, inside = slice(0, None), x >= 0
        elif kind_ == "0to6":
            key, inside = slice(0, 6), z3.And(x >= 0, x <= 6)
        else:
            key, inside = slice(None, b), x <= b.e
        p = w.datum(x)
        LOOP_SPECS.append(lambda site, seq, frame: Clone(w, B.e))
        en.cover("precondition")
        r = d[key]
        en.cover("sliced")
        a, b = T.sym(r.get_min()), T.sym(r.get_max())
        en.prove("range of the slice: ordered", toreal(a.e) <= toreal(b.e))
        en.assume(inside)
        if np.made:
            # narrow slice: a histogram of the values between the ends
            v = np.made[-1]
            j = z3.simplify(p - v.parent[1])
            en.prove("narrow slice: holds the datum", z3.And(j >= 0, j < v.n))
            v.s_at(j)
        en.prove("range of the slice: not above the datum", toreal(a.e) <= x)
        en.prove("range of the slice: not below the datum", toreal(b.e) >= x)
    return h


def eng():
    from pvc.engine import eng as g
    return g()


ALLT = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int4", "uint4", "int24", "int2", "uint1", "int6", "uint12", "int1"]
MODES = ["plain", "zeros", "zp0", "zp0 symmetric", "zp any", "zp any symmetric", "force_s", "zp0 force_s", "zeros zp0", "zeros zp any symmetric", "symmetric", "symmetric zeros"]
HARNESSES = [(f"quantize[{t},{m}]", params(t, m)) for t in ALLT for m in MODES if not (t == "int1" and "symmetric" in m)]
HARNESSES += [(f"constructed[{r},{b}]", constructed(r, b)) for r in (1, 2, "any") for b in (None, "any", 1)]
HARNESSES += [(f"sliced[{k}]", sliced(k)) for k in ("both", "from", "from0", "0to6", "to")]
TRUSTED = ["np.sort: the sorted array holds every datum and is ascending", "np.histogram (bins given as a number): ascending edges from not above the least to not below the greatest value, every bin counts the values between its edges (the last one includes its upper edge)",
           "ndarray.searchsorted: number of entries below (left) / not above (right) the value", "floats are mathematical reals"]
