"""numpy shim: the numpy operations used by /repo, over symbolic values.
Trusted contracts on numpy (each cross-checked concretely by pvc/selftest.py)."""
import builtins as _b
import sys
import types
import z3
import numpy as _np
from . import engine as E
from . import terms as T
from .engine import Unsupported
from .terms import Sym, kind, INTW, limits, dtname, toreal
from .arrays import *          # noqa
from .arrays import SArr, SList, SRange, OShape, as_array, ewise, umap, broadcast, dim, ix, eng, \
    sum_term, value_based, is0d, tname, bound_index, scope, fresh_index, dim_eq, norm_index, merge


class DT:
    """dtype / scalar type object (np.int8, np.dtype('int8'))"""
    _reg = {}

    def __init__(self, name):
        self.name = name
        self.__name__ = name
        self.kind = {"i": "i", "u": "u", "f": "f", "b": "b"}[kind(name)]
        self.itemsize = _np.dtype(name).itemsize
        self.str = _np.dtype(name).str
        self.type = self

    @staticmethod
    def get(name):
        if name not in DT._reg:
            DT._reg[name] = DT(name)
        return DT._reg[name]

    def __call__(self, x=0):
        if isinstance(x, SArr):
            return x.astype(self.name)
        if isinstance(x, (list, tuple, SList, SRange)):
            return as_array(x).astype(self.name)
        return T.cast(Sym(*T.lift(x)), self.name)

    def __eq__(self, o):
        try:
            return self.name == dtname(o)
        except BaseException:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"dtype('{self.name}')"

    def __str__(self):
        return self.name

    def __or__(self, o):
        return object

    __ror__ = __or__

    def __instancecheck__(self, x):
        return isinstance(x, Sym) and x.t == self.name


class IInfo:
    def __init__(self, dt):
        if isinstance(dt, DT):
            n = dt.name
        elif isinstance(dt, str):
            n = dtname(dt)
        elif isinstance(dt, type) and issubclass(dt, _np.integer):
            n = _np.dtype(dt).name
        elif getattr(dt, "py_dtype", None) or dt in (int,):
            n = "int64"
        else:
            raise ValueError(f"Invalid integer data type {dt!r}.")
        if n not in INTW:
            raise ValueError(f"Invalid integer data type {dt!r}.")
        self.min, self.max = limits(n)
        self.bits = INTW[n][0]


class FInfo:
    def __init__(self, dt):
        n = dtname(dt)
        f = _np.finfo(n)
        self.min, self.max, self.eps, self.tiny = float(f.min), float(f.max), float(f.eps), float(f.tiny)


class AnyType:
    """np.integer, np.floating ... for isinstance/issubclass"""

    def __init__(self, name, kinds):
        self.__name__ = name
        self.kinds = kinds

    def __or__(self, o): return object
    __ror__ = __or__
    def __call__(self, *a): raise Unsupported("abstract numpy type called")


def _kw(k, ok=(), out=None):
    """keyword arguments without a model are refused, never ignored"""
    if out is not None:
        raise Unsupported("out= argument")
    for n, v in k.items():
        if n not in ok and v is not None:
            raise Unsupported(f"keyword argument {n}")


def _sl(x):
    return x if isinstance(x, (Sym, SArr)) else (Sym(*T.lift(x)) if T.lift(x) is not None else as_array(x))


def np_scalar(s):
    """python scalar result -> numpy scalar type"""
    return Sym(T.cast(s, T.PYNP[s.t]).e, T.PYNP[s.t]) if s.t in T.PYNP else s


def array(x, dtype=None, copy=True, ndmin=0, **k):
    _kw(k, ("order", "subok"))
    a = as_array(x, dtname(dtype) if isinstance(x, SList) and dtype is not None and kind(dtname(dtype)) == "f" else None)
    a = SArr(a.shape_, a.t, a.snapshot())
    if dtype is not None:
        # numpy: explicit integer dtype with python ints out of range raises OverflowError
        t = dtname(dtype)
        a = a.astype(t)
    while ndmin and a.ndim < ndmin:
        a = a.reshape((1,) + a.shape_)
    return a


def asarray(x, dtype=None):
    if isinstance(x, SArr) and (dtype is None or dtname(dtype) == x.t):
        return x
    return array(x, dtype)


def _float_t(x):
    t = tname(x)
    return t if kind(t) == "f" else "float64"


def _fmap(x, f, keepint=False):
    x = _sl(x)
    t = _float_t(x)
    return umap(np_scalar(x) if isinstance(x, Sym) else x, lambda s: Sym(f(toreal(s.e)), t), t)


def floor(x):
    return _fmap(x, lambda e: toreal(T.floor_(e)))


def ceil(x):
    return _fmap(x, lambda e: -toreal(T.floor_(-e)))


def trunc(x):
    return _fmap(x, lambda e: toreal(T.trunc_(e)))


fix = trunc


def rint(x):
    return _fmap(x, lambda e: toreal(T.half_even(e)))


def round(x, decimals=0, out=None):
    _kw({}, (), out)
    d = T.concrete(decimals)
    if d != 0:
        raise Unsupported("np.round with decimals")
    x = _sl(x)
    if kind(x.t) in "iub":
        return x if isinstance(x, SArr) else np_scalar(x)
    return rint(x)


around = round
round_ = round


def _minmax(op, a, b):
    a, b = _sl(a), _sl(b)
    t = _rt(a, b)
    A, B = as_array(a), as_array(b)
    sh, ma, mb = broadcast(A.shape_, B.shape_)
    fa, fb, ta, tb = A.snapshot(), B.snapshot(), A.t, B.t

    def fn(idx):
        x = T.cast(Sym(fa(ma(idx)), ta), t).e
        y = T.cast(Sym(fb(mb(idx)), tb), t).e
        return z3.If(x >= y, x, y) if op == "max" else z3.If(x <= y, x, y)
    if sh == ():
        return Sym(fn(()), t)
    return SArr(sh, t, fn)


def _rt(a, b):
    a0, b0 = is0d(a), is0d(b)
    if a0 == b0:
        return T.promote(tname(a), tname(b))
    arr, sc = (b, a) if a0 else (a, b)
    return value_based(arr.t, sc)


def maximum(a, b, out=None):
    _kw({}, (), out)
    return _minmax("max", a, b)
def minimum(a, b, out=None):
    _kw({}, (), out)
    return _minmax("min", a, b)


fmax, fmin = maximum, minimum


def clip(x, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    """np.clip = minimum(maximum(x, lo), hi)"""
    _kw(k, ("casting",), out)
    a_min, a_max = (a_min if a_min is not None else min), (a_max if a_max is not None else max)
    x = _sl(x)
    r = x
    if isinstance(r, Sym):
        r = np_scalar(r)
    if a_min is not None:
        r = maximum(r, a_min)
    if a_max is not None:
        r = minimum(r, a_max)
    return r


def abs(x):
    x = _sl(x)
    return umap(np_scalar(x) if isinstance(x, Sym) else x, lambda s: _b.abs(s))


absolute = fabs = abs


def exp(x):
    x = _sl(x)
    return umap(x, lambda s: T.f_exp(s, _float_t(x)), _float_t(x))


def tanh(x):
    x = _sl(x)
    return umap(x, lambda s: T.f_tanh(s, _float_t(x)), _float_t(x))


def _uf(name, ax=None):
    def f(x):
        x = _sl(x)
        t = _float_t(x)
        return umap(x, lambda s: T.uf1(name, s, ax, t), t)
    return f




def log10(x):
    x = _sl(x)
    t = _float_t(x)
    return umap(x, lambda s: T.f_log10(s, t), t)


log2 = _uf("log2")
log = _uf("log")
cosh = _uf("cosh")
sinh = _uf("sinh")
sin = _uf("sin")
cos = _uf("cos")
sqrt = _uf("sqrt", lambda e, v: [v >= 0, z3.Implies(e >= 0, v * v == e)])


def square(x):
    x = _sl(x)
    return x * x


def power(a, b): return _sl(a) ** b
def add(a, b, dtype=None, out=None):
    _kw({}, (), out)
    return _dt(ewise("+", _sl(a), _sl(b)), a, b, dtype, "+")
def subtract(a, b, dtype=None, out=None):
    _kw({}, (), out)
    return _dt(ewise("-", _sl(a), _sl(b)), a, b, dtype, "-")
def multiply(a, b, dtype=None, out=None):
    _kw({}, (), out)
    return _dt(ewise("*", _sl(a), _sl(b)), a, b, dtype, "*")


def _dt(r, a, b, dtype, op):
    if dtype is None:
        return r
    t = dtname(dtype)
    return ewise(op, _sl(a).astype(t), _sl(b).astype(t))


def divide(a, b): return ewise("/", np_(a), np_(b))
true_divide = divide
def floor_divide(a, b): return ewise("//", np_(a), np_(b))
def mod(a, b): return ewise("%", np_(a), np_(b))
def negative(a): return -_sl(a)
def right_shift(a, b): return ewise(">>", np_(a), np_(b))
def left_shift(a, b): return ewise("<<", np_(a), np_(b))
def logical_and(a, b): return ewise("&", _sl(a).astype("bool"), _sl(b).astype("bool"))
def logical_or(a, b): return ewise("|", _sl(a).astype("bool"), _sl(b).astype("bool"))
def logical_not(a): return ~(_sl(a).astype("bool"))
def greater(a, b): return ewise(">", np_(a), np_(b))
def less(a, b): return ewise("<", np_(a), np_(b))
def greater_equal(a, b): return ewise(">=", np_(a), np_(b))
def less_equal(a, b): return ewise("<=", np_(a), np_(b))
def equal(a, b): return ewise("==", np_(a), np_(b))
def not_equal(a, b): return ewise("!=", np_(a), np_(b))
remainder = mod


def np_(x):
    x = _sl(x)
    return np_scalar(x) if isinstance(x, Sym) else x


def where(c, a=None, b=None):
    if a is None:
        raise Unsupported("np.where with one argument")
    c, a, b = _sl(c), _sl(a), _sl(b)
    t = _rt(a, b)
    C, A, B = as_array(c), as_array(a), as_array(b)
    sh, m1, m2 = broadcast(A.shape_, B.shape_)
    sh2, m3, m4 = broadcast(C.shape_, sh)
    fc, fa, fb = C.snapshot(), A.snapshot(), B.snapshot()
    tc, ta, tb = C.t, A.t, B.t

    def fn(idx):
        cond = T.truth(Sym(fc(m3(idx)), tc))
        j = m4(idx)
        return z3.If(cond, T.cast(Sym(fa(m1(j)), ta), t).e, T.cast(Sym(fb(m2(j)), tb), t).e)
    return SArr(sh2, t, fn)


def heaviside(x, h):
    return where(ewise("<", np_(x), Sym(z3.IntVal(0), "pyint")), 0.0, where(ewise("==", np_(x), Sym(z3.IntVal(0), "pyint")), h, 1.0))


def sign(x):
    x = _sl(x)
    return umap(x, lambda s: Sym(z3.If(s.e > 0, 1, z3.If(s.e < 0, -1, 0)) if s.e.is_int() else
                                 z3.If(s.e > 0, z3.RealVal(1), z3.If(s.e < 0, z3.RealVal(-1), z3.RealVal(0))), s.t))


# ---------------------------------------------------------------- reductions
def _axis(a, axis):
    n = a.ndim
    return axis % n if axis is not None else None


def _sum_t(t):
    k = kind(t)
    if k in "bi":
        return "int64" if t == "bool" or INTW[t][0] < 64 else t
    if k == "u":
        return "uint64" if INTW[t][0] < 64 else t
    return t


def sum(x, axis=None, keepdims=False, dtype=None, **k):
    _kw(k)
    x = as_array(x)
    t = dtname(dtype) if dtype is not None else _sum_t(x.t)
    f, tx = x.snapshot(), x.t
    real = kind(t) == "f"
    g = lambda idx: T.cast(Sym(f(idx), tx), t).e

    def stored(e):
        return T.wrap(e, t).e if not real else T.fround(e, t)
    if isinstance(x.shape_, OShape):
        if axis is not None:
            raise Unsupported("axis of an arbitrary shape")
        return Sym(stored(sum_term(lambda i: g((i,)), x.shape_.size, real)), t)
    n = x.ndim
    if isinstance(axis, (tuple, list)):
        axes = sorted(a % n for a in axis)
    elif axis is None:
        axes = list(range(n))
    else:
        axes = [int(T.concrete(axis)) % n]
    keep = [i for i in range(n) if i not in axes]

    def fn(idx):
        full = [None] * n
        if keepdims:
            for i in keep:
                full[i] = idx[i]
        else:
            for j, i in enumerate(keep):
                full[i] = idx[j]

        def rec(left, cur):
            if not left:
                return g(tuple(cur))
            a = left[0]

            def body(k):
                c = list(cur)
                c[a] = k
                return rec(left[1:], c)
            return sum_term(body, x.shape_[a], real)
        return stored(rec(axes, full))
    shape = tuple((1 if i in axes else x.shape_[i]) for i in range(n)) if keepdims else tuple(x.shape_[i] for i in keep)
    if shape == ():
        return Sym(fn(()), t)
    return SArr(shape, t, fn)


def mean(x, axis=None, keepdims=False, **k):
    _kw(k)
    x = as_array(x)
    s = sum(x.astype("float64") if kind(x.t) != "f" else x, axis=axis, keepdims=keepdims)
    if isinstance(x.shape_, OShape) or axis is None:
        n = x.size
    else:
        axes = [axis] if not isinstance(axis, (tuple, list)) else axis
        n = 1
        for a in axes:
            n = n * x.shape_[int(T.concrete(a)) % x.ndim]
    return s / n


average = mean


def _extreme(x, axis, keepdims, ismax):
    """maximum/minimum reduction: uninterpreted value with bound + attained facts"""
    if isinstance(x, (list, tuple)) and x and not isinstance(x, SArr) and _b.all(T.lift(v) is not None for v in x):
        r = x[0]
        for v in x[1:]:
            r = maximum(r, v) if ismax else minimum(r, v)
        return _sl(r)
    x = as_array(x)
    f, t = x.snapshot(), x.t
    en = eng()
    if isinstance(x.shape_, OShape) or (axis is None and x.ndim == 1) or x.ndim == 1:
        n = x.shape_.size if isinstance(x.shape_, OShape) else x.shape_[0]
        if isinstance(n, int):
            if n == 0:
                raise ValueError("zero-size array to reduction operation")
            if n <= 64:
                r = f((z3.IntVal(0),))
                for i in range(1, n):
                    v = f((z3.IntVal(i),))
                    r = z3.If(v > r, v, r) if ismax else z3.If(v < r, v, r)
                return Sym(r, t)
        elif not en.must(ix(n) >= 1) and en.branch(ix(n) < 1):
            raise ValueError("zero-size array to reduction operation")
        r = Sym(_ext_value(lambda k: f((k,)), n, ismax, t), t)
        if keepdims and isinstance(x.shape_, tuple):
            return SArr((1,), t, lambda idx: r.e)
        return r
    if axis is None:
        return _extreme(x.reshape(-1), None, False, ismax)
    a = int(T.concrete(axis)) % x.ndim
    n = x.shape_[a]

    def fn(idx):
        def body(k):
            if keepdims:
                c = list(idx)
                c[a] = k
            else:
                c = list(idx[:a]) + [k] + list(idx[a:])
            return f(tuple(c))
        return _ext_value(body, n, ismax, t)
    shape = tuple((1 if i == a else d) for i, d in enumerate(x.shape_)) if keepdims else \
        tuple(d for i, d in enumerate(x.shape_) if i != a)
    return SArr(shape, t, fn)


def _ext_value(body, n, ismax, t):
    en = eng()
    if isinstance(n, int) and n <= 64:
        r = body(z3.IntVal(0))
        for i in range(1, n):
            v = body(z3.IntVal(i))
            r = z3.If(v > r, v, r) if ismax else z3.If(v < r, v, r)
        return r
    k = bound_index("m")
    with scope(k >= 0, k < ix(n)):
        b = in_term(lambda: body(k))
    from .arrays import free_index_vars, CANON, contains_var
    canon = z3.substitute(z3.simplify(b), (k, CANON))
    free = [v for v in free_index_vars(canon, en)]
    ren = [(v, z3.Int(f"free_{j}")) for j, v in enumerate(free)]
    c2 = z3.substitute(canon, *ren) if ren else canon
    key = ("ext", ismax, c2.sexpr(), str(n if isinstance(n, int) else n.e))
    reg = en.scratch.setdefault("ext", {})
    if key not in reg:
        nm = f"{'Max' if ismax else 'Min'}{len(reg)}"
        srt = b.sort()
        F = z3.Function(nm, *([z3.IntSort()] * len(free)), srt)
        W = z3.Function(nm + "_arg", *([z3.IntSort()] * len(free)), z3.IntSort())
        reg[key] = (F, W)
    F, W = reg[key]
    v, w = F(*free), W(*free)
    seen = en.scratch.setdefault("ext_inst", {})
    if v.get_id() not in seen:
        seen[v.get_id()] = v
        en.assume(z3.And(w >= 0, w < ix(n)))
        en.assume(v == z3.substitute(b, (k, w)))
        en.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ix(n)), (b <= v) if ismax else (b >= v))))
        en.scratch.setdefault("ext_bodies", []).append((v, b, k, n, ismax))
    return v


def max(x, axis=None, keepdims=False, **k):
    _kw(k)
    return _extreme(x, axis, keepdims, True)
def min(x, axis=None, keepdims=False, **k):
    _kw(k)
    return _extreme(x, axis, keepdims, False)


amax, amin = max, min


def _quant(x, isany):
    x = _sl(x)
    if isinstance(x, Sym):
        return Sym(T.truth(x), "bool")
    f, t = x.snapshot(), x.t
    en = eng()
    sh = x.shape_
    dims = [sh.size] if isinstance(sh, OShape) else list(sh)
    if _b.all(isinstance(d, int) for d in dims):
        import itertools
        tot = 1
        for d in dims:
            tot *= d
        if tot <= 256:
            cs = [T.truth(Sym(f(tuple(z3.IntVal(i) for i in c)), t)) for c in itertools.product(*[range(d) for d in dims])]
            return Sym(z3.Or(*cs) if isany else z3.And(*cs), "bool")
    ks = [bound_index("q") for _ in dims]
    rng = z3.And(*[z3.And(k >= 0, k < ix(d)) for k, d in zip(ks, dims)])
    with scope(rng):
        body = T.truth(Sym(f(tuple(ks)), t))
    b = z3.Bool(en.fresh_name("any" if isany else "all"))
    ws = [fresh_index(base="w") for _ in dims]
    wr = z3.And(*[z3.And(k >= 0, k < ix(d)) for k, d in zip(ws, dims)])
    f_wit = T.truth(Sym(f(tuple(ws)), t))
    if isany:
        en.assume(z3.Implies(b, z3.And(wr, f_wit)))
        en.assume(z3.Implies(z3.Not(b), z3.ForAll(ks, z3.Implies(rng, z3.Not(body)))))
    else:
        en.assume(z3.Implies(z3.Not(b), z3.And(wr, z3.Not(f_wit))))
        en.assume(z3.Implies(b, z3.ForAll(ks, z3.Implies(rng, body))))
    en.scratch.setdefault("quants", []).append((b, ks, rng, body, isany))
    return Sym(b, "bool")


def any(x, axis=None, **k):
    _kw(k)
    if axis is not None:
        raise Unsupported("np.any axis")
    return _quant(x, True)


def all(x, axis=None, **k):
    _kw(k)
    if axis is not None:
        raise Unsupported("np.all axis")
    return _quant(x, False)


def instantiate_quants(*idx):
    """instantiate the recorded any/all facts at an index tuple"""
    en = eng()
    for b, ks, rng, body, isany in en.scratch.get("quants", []):
        if len(ks) != len(idx):
            continue
        sub = list(zip(ks, [ix(i) for i in idx]))
        r, bd = z3.substitute(rng, *sub), z3.substitute(body, *sub)
        if isany:
            en.assume(z3.Implies(z3.And(z3.Not(b), r), z3.Not(bd)))
        else:
            en.assume(z3.Implies(z3.And(b, r), bd))


def instantiate_ext(*ks_):
    en = eng()
    for v, b, k, n, ismax in en.scratch.get("ext_bodies", []):
        for i in ks_:
            i = ix(i)
            bi = z3.substitute(b, (k, i))
            en.assume(z3.Implies(z3.And(i >= 0, i < ix(n)), (bi <= v) if ismax else (bi >= v)))


# ------------------------------------------------------------ linear algebra
def matmul(a, b, **k):
    _kw(k)
    A, B = as_array(a), as_array(b)
    if isinstance(A.shape_, OShape) or isinstance(B.shape_, OShape):
        raise Unsupported("matmul of an arbitrary shape")
    na, nb = len(A.shape_), len(B.shape_)
    if na == 0 or nb == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    t = T.promote(A.t, B.t)
    real = kind(t) == "f"
    ka = A.shape_[-1]
    kb = B.shape_[0] if nb == 1 else B.shape_[-2]
    if not dim_eq(ka, kb):
        if eng().branch(ix(ka) != ix(kb)):
            raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension")
    fa, fb, ta, tb = A.snapshot(), B.snapshot(), A.t, B.t
    lead_a = A.shape_[:-2] if na > 2 else ()
    lead_b = B.shape_[:-2] if nb > 2 else ()
    lsh, ml, mr = broadcast(lead_a, lead_b)
    row = (A.shape_[-2],) if na >= 2 else ()
    col = (B.shape_[-1],) if nb >= 2 else ()
    shape = tuple(lsh) + row + col
    nl = len(lsh)

    def fn(idx):
        lead, rest = idx[:nl], idx[nl:]
        r = rest[:len(row)]
        c = rest[len(row):]

        def body(k):
            x = T.cast(Sym(fa(tuple(ml(lead)) + tuple(r) + (k,)), ta), t).e
            y = T.cast(Sym(fb(tuple(mr(lead)) + (k,) + tuple(c)), tb), t).e
            return x * y
        s = sum_term(body, ka, real)
        return T.fround(s, t) if real else T.wrap(s, t).e
    if shape == ():
        return Sym(fn(()), t)
    return SArr(shape, t, fn)


def dot(a, b, out=None):
    _kw({}, (), out)
    a, b = _sl(a), _sl(b)
    if is0d(a) or is0d(b):
        return ewise("*", a, b)
    if a.ndim <= 2 and b.ndim <= 2:
        return matmul(a, b)
    if b.ndim == 1:
        return matmul(a, b)
    if b.ndim == 2:
        # dot(a, b)[i,j,l] = sum(a[i,j,:] * b[:,l])
        return matmul(a, b)
    raise Unsupported("np.dot of rank > 2")


def swapaxes(a, x, y): return as_array(a).swapaxes(x, y)


def moveaxis(a, x, y):
    a = as_array(a)
    if isinstance(x, (tuple, list)) or isinstance(y, (tuple, list)):
        raise Unsupported("moveaxis of several axes")
    n = a.ndim
    ax = [k for k in range(n) if k != int(x) % n]
    ax.insert(int(y) % n, int(x) % n)
    return a.transpose(*ax)


def transpose(a, axes=None): return as_array(a).transpose(axes) if axes else as_array(a).T


def outer(a, b):
    a, b = as_array(a).reshape(-1), as_array(b).reshape(-1)
    return ewise("*", a[:, None], b[None, :])


def fill_diagonal(a, val, wrap=False):
    if not isinstance(a, SArr) or a.ndim != 2 or wrap or isinstance(val, (SArr, SList, list)):
        raise Unsupported("np.fill_diagonal")
    old = a.snapshot()
    v = T.cast(T.sym(val), a.t).e
    new = SArr(a.shape_, a.t, lambda idx: z3.If(idx[0] == idx[1], v, old(idx)))
    a[...] = new


# ------------------------------------------------------------ construction
def _shape(s):
    if isinstance(s, OShape):
        return s
    if isinstance(s, (list, tuple)):
        return tuple(dim(d) for d in s)
    return (dim(s),)


def full(shape, v, dtype=None, **k):
    _kw(k, ("order",))
    v = _sl(v)
    if isinstance(v, SArr) and v.shape_ != ():
        t = dtname(dtype) if dtype is not None else v.t
        sh, ma, mb = broadcast(_shape(shape), v.shape_)
        f, tv = v.snapshot(), v.t
        return SArr(_shape(shape), t, lambda idx: T.cast(Sym(f(mb(idx)), tv), t).e)
    if isinstance(v, SArr):
        v = v.scalar()
    t = dtname(dtype) if dtype is not None else tname(v)
    e = T.cast(v, t).e
    return SArr(_shape(shape), t, lambda idx: e)


def zeros(shape, dtype="float64", **k):
    _kw(k, ("order",))
    return full(shape, 0, dtype)
def ones(shape, dtype="float64", **k):
    _kw(k, ("order",))
    return full(shape, 1, dtype)


def empty(shape, dtype="float64", **k):
    _kw(k, ("order",))
    t = dtname(dtype)
    sh = _shape(shape)
    n = 1 if isinstance(sh, OShape) else len(sh)
    srt = z3.RealSort() if kind(t) == "f" else z3.BoolSort() if kind(t) == "b" else z3.IntSort()
    F = z3.Function(eng().fresh_name("empty"), *([z3.IntSort()] * _b.max(n, 1)), srt)

    def fn(idx):
        x = F(*(idx or (z3.IntVal(0),)))
        if t in INTW:
            lo, hi = limits(t)
            eng().assume(z3.And(x >= lo, x <= hi))
        return x
    return SArr(sh, t, fn)


def zeros_like(a, dtype=None): return full(as_array(a).shape_, 0, dtype or as_array(a).t)
def ones_like(a, dtype=None): return full(as_array(a).shape_, 1, dtype or as_array(a).t)
def full_like(a, v, dtype=None): return full(as_array(a).shape_, v, dtype or as_array(a).t)
def empty_like(a, dtype=None): return empty(as_array(a).shape_, dtype or as_array(a).t)


def arange(a, b=None, step=1, dtype=None):
    if b is None:
        a, b = 0, a
    if not isinstance(step, int) or kind(_sl(a).t) == "f" or kind(_sl(b).t) == "f":
        raise Unsupported("np.arange with floats")
    r = as_array(SRange(a, b, step))
    return r.astype(dtype) if dtype is not None else r


def eye(n, dtype="float64"):
    t = dtname(dtype)
    return SArr((n, n), t, lambda idx: T.cast(Sym(idx[0] == idx[1], "bool"), t).e)


identity = eye


def expand_dims(a, axis):
    a = as_array(a)
    n = a.ndim + 1
    ax = axis % n
    sh = a.shape_[:ax] + (1,) + a.shape_[ax:]
    return SArr(sh, a.t, None, base=(a, lambda idx: idx[:ax] + idx[ax + 1:]))


def squeeze(a, axis=None): return as_array(a).squeeze(axis)
def reshape(a, shape, **k):
    _kw(k)
    return as_array(a).reshape(shape)
def ravel(a): return as_array(a).reshape(-1)
def copy(a): return as_array(a).copy()


class RawBytes:
    """a bytes object of symbolic length"""

    def __init__(self, n, f): self.n, self.f = n, f

    def __len__(self):
        raise Unsupported("native len of symbolic bytes")

    def slen(self): return self.n


def frombuffer(b, dtype=float, count=-1, offset=0):
    t = dtname(dtype)
    if not isinstance(b, RawBytes) or t not in ("int8", "uint8") or not (isinstance(count, int) and count == -1 and isinstance(offset, int) and offset == 0):
        raise Unsupported("np.frombuffer")
    f = b.f

    def fn(i):
        v = f(i[0])
        eng().assume(z3.And(v >= 0, v <= 255))
        return v if t == "uint8" else z3.If(v > 127, v - 256, v)
    return SArr((b.n,), t, fn)


def concatenate(xs, axis=0, **k):
    _kw(k)
    if isinstance(xs, SArr):
        if isinstance(xs.shape_[0], int):
            xs = list(xs)
    if isinstance(xs, SList) and not isinstance(xs.n, int):
        return _concat_many(xs, axis)
    if isinstance(xs, SArr):
        raise Unsupported("concatenate of a symbolic list")
    xs = [as_array(x) for x in xs]
    r = xs[0]
    for y in xs[1:]:
        r = _concat2(r, y, axis)
    return r


def _concat_many(xs, axis):
    """a list of symbolic length: the contract names the offset of every part
    (scratch["concat_offsets"]), which is proved here to be the sum of the lengths"""
    en = eng()
    off = en.scratch.get("concat_offsets")
    if off is None or not (isinstance(axis, int) and axis == 0):
        raise Unsupported("concatenate of a symbolic list")
    n = ix(xs.n)
    if en.branch(n <= 0):
        raise ValueError("need at least one array to concatenate")
    get = xs._get
    j = z3.Int(en.fresh_name("part"))
    en.index_vars[j.get_id()] = j
    en.assume(z3.And(j >= 0, j < n))
    a = as_array(get(j))
    if isinstance(a.shape_, OShape) or a.ndim == 0:
        raise Unsupported("concatenate of parts of unknown rank")
    for d in a.shape_[1:]:
        if str(j) in str(d):
            raise Unsupported("concatenate of parts of different shape")
    en.prove("parts: the first starts at zero", off(z3.IntVal(0)) == 0)
    en.prove("parts: every part starts where the one before it ends", z3.And(ix(a.shape_[0]) >= 0, off(z3.simplify(j + 1)) == off(j) + ix(a.shape_[0])))
    part = z3.Function(en.fresh_name("part_of"), z3.IntSort(), z3.IntSort())

    def fn(idx):
        k = part(idx[0])
        # the partial sums of non-negative lengths cover [0, total)
        en.assume(z3.Implies(z3.And(idx[0] >= 0, idx[0] < off(n)), z3.And(k >= 0, k < n, off(k) <= idx[0], idx[0] < off(z3.simplify(k + 1)))))
        with scope(idx[0] >= 0, idx[0] < off(n)):
            return as_array(get(k)).at(z3.simplify(idx[0] - off(k)), *idx[1:])
    en.trust("the partial sums of non-negative lengths cover every position (induction on the number of parts)")
    return SArr((dim(z3.simplify(off(n))),) + tuple(a.shape_[1:]), a.t, fn)


def array_split(x, k, axis=0):
    """numpy: N%k parts of N//k+1 rows, then parts of N//k rows"""
    x = as_array(x)
    if not (isinstance(axis, int) and axis == 0) or isinstance(x.shape_, OShape) or isinstance(k, (list, tuple, SList)):
        raise Unsupported("np.array_split")
    if isinstance(k, SArr):
        k = k.scalar()
    if isinstance(k, float) or isinstance(k, Sym) and kind(k.t) == "f":
        raise Unsupported("np.array_split with a float")
    en, N, kk = eng(), ix(x.shape_[0]), ix(k)
    if en.branch(kk <= 0):
        raise ValueError("number sections must be larger than 0.")
    q = z3.Int(en.fresh_name("rows_per_part"))
    r = z3.Int(en.fresh_name("larger_parts"))
    en.assume(z3.And(N == kk * q + r, r >= 0, r < kk, q >= 0))
    off = lambda i: i * q + z3.If(i < r, i, r)
    en.scratch["array_split"] = (N, kk, q, r, off)
    rows = {}

    def get(i):
        i = z3.simplify(ix(i))
        if i.get_id() not in rows:
            w = z3.Int(en.fresh_name("rows"))
            rows[i.get_id()] = (w, i)
            en.assume(w == q + z3.If(i < r, 1, 0))
        o = off(i)
        return SArr((Sym(rows[i.get_id()][0], "pyint"),) + tuple(x.shape_[1:]), x.t, None, base=(x, lambda idx: (o + idx[0],) + tuple(idx[1:])))
    return SList(Sym(kk, "pyint"), get)


def split(x, k, axis=0):
    """numpy: k equal parts (views)"""
    x = as_array(x)
    if not (isinstance(k, int) and isinstance(axis, int)) or isinstance(x.shape_, OShape) or k < 1:
        raise Unsupported("np.split")
    en, ax = eng(), axis % len(x.shape_)
    N = z3.simplify(ix(x.shape_[ax]))
    if en.branch(N % k != 0):
        raise ValueError("array split does not result in an equal division")
    c = N.children() if z3.is_mul(N) else []
    if len(c) == 2 and z3.is_int_value(c[0]) and c[0].as_long() % k == 0:
        w = z3.simplify(c[0].as_long() // k * c[1])
    elif z3.is_int_value(N):
        w = z3.IntVal(N.as_long() // k)
    else:
        w = z3.Int(en.fresh_name("part"))
        en.assume(z3.And(N == k * w, w >= 0))
    at = [z3.simplify(j * w) for j in range(k + 1)]
    return [x[(slice(None),) * ax + (slice(Sym(at[j], "pyint"), Sym(at[j + 1], "pyint")),)] for j in range(k)]


def _concat2(a, b, axis):
    ax = axis % a.ndim
    t = T.promote(a.t, b.t)
    fa, fb, ta, tb = a.snapshot(), b.snapshot(), a.t, b.t
    na = ix(a.shape_[ax])
    for i in range(a.ndim):
        if i != ax and not dim_eq(a.shape_[i], b.shape_[i]):
            if eng().branch(ix(a.shape_[i]) != ix(b.shape_[i])):
                raise ValueError("all the input array dimensions except for the concatenation axis must match")

    def fn(idx):
        j = idx[:ax] + (z3.simplify(idx[ax] - na),) + idx[ax + 1:]
        c = z3.simplify(idx[ax] < na)
        if z3.is_true(c):
            return T.cast(Sym(fa(idx), ta), t).e
        if z3.is_false(c):
            return T.cast(Sym(fb(j), tb), t).e
        with_a = T.cast(Sym(fa(idx), ta), t).e
        return z3.If(c, with_a, T.cast(Sym(fb(j), tb), t).e)
    sh = list(a.shape_)
    sh[ax] = dim(z3.simplify(na + ix(b.shape_[ax])))
    return SArr(tuple(sh), t, fn)


def stack(xs, axis=0, **k):
    _kw(k)
    if isinstance(xs, SList):
        a = xs.to_array()
    else:
        a = from_list(list(xs))
    if axis:
        n = a.ndim
        ax = axis % n
        order = list(range(1, ax + 1)) + [0] + list(range(ax + 1, n))
        return a.transpose(order)
    return a


def vstack(xs):
    if isinstance(xs, SList) and not isinstance(xs.n, int):
        if as_array(xs.get(z3.Int(eng().fresh_name("part")))).ndim < 2:
            raise Unsupported("vstack of a symbolic list of vectors")
        return concatenate(xs, 0)
    return concatenate([x if as_array(x).ndim > 1 else as_array(x)[None, :] for x in xs], 0)


def hstack(xs):
    xs = [as_array(x) for x in xs]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def append(a, b, axis=None):
    if axis is None:
        return concatenate([ravel(a), ravel(b)])
    return concatenate([a, b], axis)


def tile(a, r): raise Unsupported("np.tile")


def array_equal(a, b):
    a, b = as_array(a), as_array(b)
    sa, sb = a.shape_, b.shape_
    if sa is not sb:
        if isinstance(sa, OShape) or isinstance(sb, OShape):
            if not (sa == sb):
                return False
        elif len(sa) != len(sb):
            return False
        else:
            for x, y in zip(sa, sb):
                if not dim_eq(x, y) and eng().branch(ix(x) != ix(y)):
                    return False
    return all(ewise("==", a, b))


def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    _kw(k, ("equal_nan",))
    a, b = _sl(a), _sl(b)
    return all(abs(a - b) <= atol + rtol * abs(b))


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    _kw(k, ("equal_nan",))
    a, b = _sl(a), _sl(b)
    return abs(a - b) <= atol + rtol * abs(b)


def isnan(x): return umap(_sl(x), lambda s: Sym(z3.BoolVal(False), "bool"), "bool")
def isinf(x): return umap(_sl(x), lambda s: Sym(z3.BoolVal(False), "bool"), "bool")
def isfinite(x): return umap(_sl(x), lambda s: Sym(z3.BoolVal(True), "bool"), "bool")
def nan_to_num(x, *a, **k): return _sl(x)
def isscalar(x): return isinstance(x, Sym) or T.lift(x) is not None
def size(x): return as_array(x).size
def shape(x): return as_array(x).shape
def ndim(x): return as_array(x).ndim
def argmax(*a, **k): raise Unsupported("np.argmax")
def argmin(*a, **k): raise Unsupported("np.argmin")
def count_nonzero(x): return sum(umap(_sl(x), lambda s: Sym(z3.If(T.truth(s), 1, 0), "int64"), "int64"))


def frexp(x):
    x = _sl(x)
    m, e = T_frexp(x)
    return Sym(m.e, "float64"), Sym(e.e, "int32")


def T_frexp(x):
    """contract of frexp: x = q * 2^e with 1/2 <= |q| < 1 (0 -> (0,0)); the exponents
    -33..30 are enumerated, those outside are kept symbolic"""
    en = eng()
    v = toreal(x.e if isinstance(x, Sym) else T.lift(x)[0])
    en.trust("frexp contract: x = m*2^e, 1/2 <= |m| < 1")
    rec = en.scratch.setdefault("frexp", [])
    for (v0, q0, e0) in rec:
        if v0.eq(v):
            return q0, e0
    a = z3.If(v >= 0, v, -v)

    def out(q, e):
        r = (Sym(q, "pyfloat"), Sym(e, "pyint"))
        rec.append((v,) + r)
        return r
    if not en.must(v != 0):
        if en.branch(v == 0):
            return out(z3.RealVal(0), z3.IntVal(0))
    c = en.choose(66, "frexp exponent")
    if c < 64:
        e = c - 33
        P = z3.Q(2 ** e, 1) if e >= 0 else z3.Q(1, 2 ** -e)
        if en.must(z3.Or(a >= P, a < P / 2)):
            raise E.PathEnd()
        en.assume(z3.And(a >= z3.simplify(P / 2), a < P))
        return out(z3.simplify(v / P), z3.IntVal(e))
    q = z3.Real(en.fresh_name("frexp_m"))
    e = z3.Int(en.fresh_name("frexp_e"))
    aq = z3.If(q >= 0, q, -q)
    en.assume(z3.And(aq >= z3.Q(1, 2), aq < 1, (q > 0) == (v > 0)))
    if c == 64:
        en.assume(z3.And(e <= -34, e >= -1074, a < z3.Q(1, 2 ** 34), aq > a))
    else:
        en.assume(z3.And(e >= 31, e <= 1024, a >= z3.Q(2 ** 30, 1)))
    if en._check(z3.BoolVal(True)) == z3.unsat:
        raise E.PathEnd()
    return out(q, e)


class vectorize:
    """np.vectorize contract: applies the function element by element; result
    dtype is that of the function's result (probed on one element)"""

    def __init__(self, fn, otypes=None, **k):
        _kw(k, ("doc", "cache"))
        self.fn = fn
        self.otypes = otypes

    def __call__(self, *args):
        args = [_sl(a) for a in args]
        if len(args) != 1:
            raise Unsupported("vectorize with several arguments")
        a = as_array(args[0])
        f, t = a.snapshot(), a.t
        en = eng()
        fn = self.fn
        # numpy derives the result type from the FIRST element
        nd = 1 if isinstance(a.shape_, OShape) else len(a.shape_)
        probe_idx = tuple(z3.IntVal(0) for _ in range(nd))
        for d in ([a.shape_.size] if nd and isinstance(a.shape_, OShape) else a.shape_):
            if not en.branch(ix(d) > 0):
                if self.otypes is None:
                    raise ValueError("cannot call `vectorize` on size 0 inputs unless `otypes` is set")
        r0 = fn(Sym(f(probe_idx), t))
        l = T.lift(r0) if not isinstance(r0, SArr) else (r0.scalar().e, r0.t)
        if l is None:
            raise Unsupported("vectorize result")
        rt = T.PYNP.get(l[1], l[1])
        if self.otypes:
            rt = dtname(self.otypes[0] if isinstance(self.otypes, (list, tuple)) else self.otypes)
        en.trust("np.vectorize contract: element-by-element application of the function")

        def el(idx):
            if len(idx) == len(probe_idx) and _b.all(i.eq(j) for i, j in zip(idx, probe_idx)):
                r = r0
            else:
                r = fn(Sym(f(idx), t))
            r = r.scalar() if isinstance(r, SArr) else r
            return T.cast(Sym(*T.lift(r)), rt).e
        res = SArr(a.shape_, rt, el)
        res.probe_idx = probe_idx
        if a.shape_ == ():
            return SArr((), rt, el)
        return res


class _Errstate:
    def __init__(self, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


class _Random:
    """np.random: arbitrary values (nondeterministic)"""

    def seed(self, *a): pass

    def random(self, *a):
        if a:
            raise Unsupported("np.random array")
        v = z3.Real(eng().fresh_name("rnd"))
        eng().assume(z3.And(v >= 0, v < 1))
        return Sym(v, "float64")

    rand = random

    def __getattr__(self, n):
        def f(*a, **k):
            raise Unsupported(f"np.random.{n}")
        return f


class _Generic:
    def __getitem__(self, k):
        return object

    def __or__(self, o):
        return object

    __ror__ = __or__


class _Typing(types.ModuleType):
    NDArray = ArrayLike = DTypeLike = _Generic()


def make_module():
    m = types.ModuleType("numpy")
    g = globals()
    for n in ("array asarray floor ceil trunc fix rint round around round_ maximum minimum fmax fmin clip abs absolute fabs "
              "exp tanh log10 log2 log cosh sinh sin cos sqrt square power add subtract multiply divide true_divide "
              "floor_divide mod remainder negative right_shift left_shift logical_and logical_or logical_not greater less "
              "greater_equal less_equal equal not_equal where heaviside sign sum mean average max min amax amin any all "
              "matmul dot swapaxes moveaxis transpose outer fill_diagonal full zeros ones empty zeros_like ones_like full_like empty_like arange eye identity "
              "expand_dims squeeze reshape ravel copy concatenate stack vstack hstack append tile array_equal allclose isclose "
              "isnan isinf isfinite nan_to_num isscalar size shape ndim argmax argmin count_nonzero frexp vectorize frombuffer array_split split").split():
        setattr(m, n, g[n])
    m.ndarray = SArr
    for n in list(INTW) + ["float16", "float32", "float64"]:
        setattr(m, n, DT.get(n))
    m.bool_ = m.bool = DT.get("bool")
    m.int_ = m.intp = m.longlong = DT.get("int64")
    m.float_ = m.double = DT.get("float64")
    m.byte = DT.get("int8")
    m.integer = AnyType("integer", "iu")
    m.signedinteger = AnyType("signedinteger", "i")
    m.unsignedinteger = AnyType("unsignedinteger", "u")
    m.floating = AnyType("floating", "f")
    m.number = AnyType("number", "iuf")
    m.generic = AnyType("generic", "iufb")
    m.dtype = lambda x: DT.get(dtname(x)) if not isinstance(x, DT) else x
    m.iinfo, m.finfo = IInfo, FInfo
    m.pi, m.e, m.newaxis = _np.pi, _np.e, None
    m.inf, m.nan = float("inf"), float("nan")
    m.errstate = _Errstate
    m.random = _Random()
    m.seterr = lambda **k: {}
    m.set_printoptions = lambda **k: None
    m.promote_types = lambda a, b: DT.get(T.promote(dtname(a), dtname(b)))
    m.result_type = lambda a, b: DT.get(T.promote(dtname(a), dtname(b)))

    m.typing = _Typing("numpy.typing")     # annotations only

    def ga(name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"np.{name} has no contract")
    m.__getattr__ = ga
    return m
