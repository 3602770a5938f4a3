"""Symbolic arrays (numpy ndarray semantics, unbounded dimensions) and lists."""
from fractions import Fraction
import contextlib
import z3
from . import engine as E
from . import terms as T
from .engine import Unsupported, PathEnd
from .terms import Sym, lift, apply_op, result_type, kind, is_py, INTW, limits, dtname, toreal


def eng():
    return E.ENG


# --------------------------------------------------------------------- scope
@contextlib.contextmanager
def scope(*assumptions):
    """temporary local facts (about a bound variable)"""
    en = eng()
    saved = (list(en.facts), set(en.fact_keys), dict(en.range_cache),
             {k: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v)
              for k, v in en.scratch.items()})
    en.solver.push()
    en.binders += 1
    try:
        for a in assumptions:
            en.assume(a)
        yield
    finally:
        en.binders -= 1
        en.solver.pop()
        en.facts, en.fact_keys, en.range_cache, en.scratch = saved


def merged(fn, limit=8):
    """the value of fn() under a bound variable: where fn branches, both cases are
    evaluated and the results joined by if-then-else (numbers and truth values only)"""
    en = eng()
    outer, leaves, todo = en.local, [], [[]]
    try:
        while todo:
            en.local = cur = E.Local(todo.pop())
            try:
                with scope():
                    v = fn()
            except PathEnd:
                v = None
            else:
                leaves.append((z3.And(*cur.conds) if cur.conds else z3.BoolVal(True), v))
            todo += cur.open
            if len(leaves) > limit:
                raise Unsupported("path split under a bound variable")
    finally:
        en.local = outer
    if not leaves:
        raise PathEnd()
    if len(leaves) == 1:
        return leaves[0][1]
    vs = [v for _, v in leaves]
    if all(isinstance(v, bool) or z3.is_expr(v) for v in vs):
        r = z3.BoolVal(vs[-1]) if isinstance(vs[-1], bool) else vs[-1]
        for c, v in leaves[-2::-1]:
            r = z3.If(c, z3.BoolVal(v) if isinstance(v, bool) else v, r)
        return z3.simplify(r)
    vs = [v.scalar() if isinstance(v, SArr) and v.shape_ == () else v for v in vs]
    if all(isinstance(v, (Sym, int, float, Fraction)) for v in vs):
        vs = [T.sym(v) for v in vs]
        t = vs[0].t
        for v in vs[1:]:
            t = t if t == v.t else ("pyfloat" if {t, v.t} <= {"pyint", "pyfloat", "pybool"} else T.result_type("+", t, v.t))
        es = [v.e for v in vs]
        if any(e.sort() == z3.RealSort() for e in es):
            es = [toreal(e) for e in es]
        r = es[-1]
        for (c, _), e in zip(leaves[-2::-1], es[-2::-1]):
            r = z3.If(c, e, r)
        return Sym(r, t, "mixed" if any(v.t != t for v in vs) else None)
    raise Unsupported("path split under a bound variable")


def in_term(fn):
    """fn() evaluated as part of a term"""
    if not eng().binders or eng().local is not None:
        return fn()
    try:
        return fn()
    except E.SplitUnderBinder:
        return merged(fn)


def ix(i):
    """index term"""
    if isinstance(i, Sym):
        return T.toint_sort(i.e)
    if isinstance(i, int):
        return z3.IntVal(int(i))
    return i


def dim(d):
    """normalise a dimension: python int if concrete"""
    if isinstance(d, bool):
        return int(d)
    if isinstance(d, int):
        return d
    if isinstance(d, Sym):
        c = T.concrete(d)
        if c is not None:
            return int(c)
        return Sym(T.toint_sort(d.e), "pyint")
    if z3.is_expr(d):
        return dim(Sym(d, "pyint"))
    raise Unsupported(f"dimension {d!r}")


def dim_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    ea, eb = ix(a), ix(b)
    if ea.eq(eb):
        return True
    return eng().must(ea == eb)


def fresh_index(lo=0, hi=None, base="i"):
    en = eng()
    v = z3.Int(en.fresh_name(base))
    en.index_vars[v.get_id()] = v
    if lo is not None:
        en.assume(v >= ix(lo))
    if hi is not None:
        en.assume(v < ix(hi))
    return v


def bound_index(base="k"):
    en = eng()
    v = z3.Int(en.fresh_name(base))
    en.index_vars[v.get_id()] = v
    return v


class OShape:
    """an arbitrary (opaque) shape: any rank, any dimensions; elements are
    addressed by one abstract flat index"""

    def __init__(self, name, size=None):
        self.name = name
        self._size = size

    @property
    def size(self):
        if self._size is None:
            n = z3.Int(f"size_{self.name}")
            eng().assume(n >= 1)
            self._size = Sym(n, "pyint")
        return self._size

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, OShape):
            return eng().branch(z3.Bool(f"shape_{self.name}=={o.name}"))
        return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return id(self)

    def __len__(self):
        raise Unsupported("rank of an arbitrary shape")

    def __iter__(self):
        raise Unsupported("dimensions of an arbitrary shape")

    def __getitem__(self, i):
        raise Unsupported("dimensions of an arbitrary shape")

    def __repr__(self):
        return f"<shape {self.name}>"

    def __deepcopy__(self, memo): return self


_bcast = {}


class ShapeError(ValueError):
    pass


def broadcast(sa, sb):
    """-> (shape, mapA, mapB): index maps from result index tuple"""
    if sa is sb:
        idm = lambda idx: idx
        return sa, idm, idm
    if isinstance(sa, OShape) or isinstance(sb, OShape):
        if isinstance(sb, tuple) and all(d == 1 for d in sb if isinstance(d, int)) and all(isinstance(d, int) for d in sb):
            if len(sb) <= 1:
                return sa, (lambda idx: idx), (lambda idx: tuple(z3.IntVal(0) for _ in sb))
        if isinstance(sa, tuple) and len(sa) <= 1 and all(isinstance(d, int) and d == 1 for d in sa):
            return sb, (lambda idx: tuple(z3.IntVal(0) for _ in sa)), (lambda idx: idx)
        if isinstance(sa, OShape) and isinstance(sb, OShape):
            en = eng()
            inc = en.scratch.setdefault("incompatible", set())
            if (sa.name, sb.name) in inc or (sb.name, sa.name) in inc:
                raise ValueError("operands could not be broadcast together with shapes")
            bc = en.scratch.setdefault("bcast", {})
            key = (sa, sb)
            if key not in bc:
                sc = bc.get((sb, sa))
                sc = sc or OShape(f"bc({sa.name},{sb.name})")
                bc[key] = sc
            sc = bc[key]
            fa = z3.Function(f"map_{sa.name}_{sc.name}", z3.IntSort(), z3.IntSort())
            fb = z3.Function(f"map_{sb.name}_{sc.name}", z3.IntSort(), z3.IntSort())
            return sc, (lambda idx: (fa(idx[0]),)), (lambda idx: (fb(idx[0]),))
        raise Unsupported("broadcast of an arbitrary shape with a fixed one")
    n = max(len(sa), len(sb))
    pa = (1,) * (n - len(sa)) + tuple(sa)
    pb = (1,) * (n - len(sb)) + tuple(sb)
    shape, ma, mb = [], [], []
    for i, (x, y) in enumerate(zip(pa, pb)):
        if isinstance(x, int) and x == 1:
            shape.append(y)
            ma.append(False)
            mb.append(True)
        elif isinstance(y, int) and y == 1:
            shape.append(x)
            ma.append(True)
            mb.append(False)
        elif dim_eq(x, y):
            shape.append(x)
            ma.append(True)
            mb.append(True)
        else:
            en = eng()
            ex, ey = ix(x), ix(y)
            if en.branch(ex == ey):
                shape.append(x)
                ma.append(True)
                mb.append(True)
            elif en.branch(ex == 1):
                shape.append(y)
                ma.append(False)
                mb.append(True)
            elif en.branch(ey == 1):
                shape.append(x)
                ma.append(True)
                mb.append(False)
            else:
                raise ValueError("operands could not be broadcast together with shapes")
    da, db = n - len(sa), n - len(sb)
    fa = lambda idx: tuple(idx[i] if ma[i] else z3.IntVal(0) for i in range(da, n))
    fb = lambda idx: tuple(idx[i] if mb[i] else z3.IntVal(0) for i in range(db, n))
    return tuple(shape), fa, fb


def once(fn, idx):
    """element of an array, evaluated once on a path: how far a term simplifies
    depends on what is known at the time"""
    memo = eng().memo
    k = (id(fn),) + tuple(i.get_id() for i in idx)
    if k not in memo:
        memo[k] = (fn(idx), fn, idx)
    return memo[k][0]


class SArr:
    """numpy.ndarray proxy"""
    __array_priority__ = 2000

    def __init__(self, shape, t, fn, base=None, tag=None):
        if isinstance(shape, tuple):
            shape = tuple(dim(d) for d in shape)
        self.shape_ = shape
        self.t = t
        self.fn = fn              # idx tuple -> z3 expr
        self.base = base          # (array, index map) when this is a view
        self.tag = tag
        self.mutated = False
        self.listy = False

    # ------------------------------------------------------------ reading
    def at(self, *idx):
        """element expression (z3) at index terms"""
        if self.base is not None:
            b, m = self.base
            return b.at(*m(tuple(ix(i) for i in idx)))
        return once(self.fn, tuple(ix(i) for i in idx))

    def el(self, *idx):
        return Sym(self.at(*idx), self.t)

    def snapshot(self):
        """function reading the current contents"""
        if self.base is not None:
            b, m = self.base
            f = b.snapshot()
            return lambda idx: f(m(idx))
        fn = self.fn
        return lambda idx: once(fn, idx)

    @property
    def shape(self):
        return self.shape_

    @shape.setter
    def shape(self, s):
        raise Unsupported("assignment to .shape")

    @property
    def ndim(self):
        if isinstance(self.shape_, OShape):
            raise Unsupported("ndim of an arbitrary shape")
        return len(self.shape_)

    @property
    def size(self):
        if isinstance(self.shape_, OShape):
            return self.shape_.size
        n = 1
        for d in self.shape_:
            n = n * d
        return n

    @property
    def dtype(self):
        from .symnp import DT
        return DT.get(self.t)

    @property
    def T(self):
        if isinstance(self.shape_, OShape):
            raise Unsupported("transpose of an arbitrary shape")
        return SArr(self.shape_[::-1], self.t, None, base=(self, lambda idx: idx[::-1]))

    def transpose(self, *ax):
        if not ax or ax == (None,):
            return self.T
        if len(ax) == 1 and isinstance(ax[0], (tuple, list)):
            ax = tuple(ax[0])
        n = self.ndim
        ax = [a % n for a in ax]
        inv = [ax.index(i) for i in range(n)]
        return SArr(tuple(self.shape_[a] for a in ax), self.t, None,
                    base=(self, lambda idx: tuple(idx[inv[i]] for i in range(n))))

    def swapaxes(self, a, b):
        if isinstance(self.shape_, OShape):
            raise Unsupported("swapaxes of an arbitrary shape")
        ax = list(range(self.ndim))
        a, b = int(a) % self.ndim, int(b) % self.ndim
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)

    def __getattr__(self, name):
        if name.startswith("_") or name in ("shape_", "t", "version", "tag", "base"):
            raise AttributeError(name)
        raise Unsupported(f"ndarray.{name} has no contract")

    @property
    def flat(self):
        return self.reshape(-1)

    # ------------------------------------------------------------ python protocol
    def __len__(self):
        if isinstance(self.shape_, OShape):
            raise Unsupported("len of an arbitrary shape")
        if not self.shape_:
            raise TypeError("len() of unsized object")
        if isinstance(self.shape_[0], int):
            return self.shape_[0]
        raise Unsupported("native len of symbolic dimension")

    def slen(self):
        if isinstance(self.shape_, OShape):
            raise Unsupported("len of an arbitrary shape")
        if not self.shape_:
            raise TypeError("len() of unsized object")
        return self.shape_[0]

    def __iter__(self):
        if isinstance(self.shape_, OShape):
            raise Unsupported("iteration over an arbitrary shape")
        if not self.shape_:
            raise TypeError("iteration over a 0-d array")
        n = self.shape_[0]
        if not isinstance(n, int):
            raise Unsupported("native iteration over symbolic dimension")
        return iter([self[i] for i in range(n)])

    def __bool__(self):
        if isinstance(self.shape_, OShape):
            raise ValueError("The truth value of an array with more than one element is ambiguous")
        n = 1
        for d in self.shape_:
            n = n * d
        if isinstance(n, int) and n == 1:
            return bool(Sym(self.at(*[0] * len(self.shape_)), self.t))
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __repr__(self):
        return f"<SArr {self.shape_} {self.t}>"

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)

    def __index__(self):
        return self.scalar().__index__()

    def scalar(self):
        if isinstance(self.shape_, OShape):
            raise Unsupported("arbitrary shape as scalar")
        if all(isinstance(d, int) and d == 1 for d in self.shape_):
            return Sym(self.at(*[0] * len(self.shape_)), self.t)
        raise TypeError("only length-1 arrays can be converted to Python scalars")

    def item(self, *a):
        if a:
            return self[tuple(a)].item()
        return self.scalar().item()

    # ------------------------------------------------------------ conversion
    def copy(self, *a, **k):
        return SArr(self.shape_, self.t, self.snapshot())

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def astype(self, dt, **k):
        from . import symnp
        symnp._kw(k, ("copy", "order", "casting", "subok"))
        t = dtname(dt)
        if k.get("copy", True) is False and t == self.t:
            return self
        f, t0 = self.snapshot(), self.t
        return SArr(self.shape_, t, lambda idx: T.cast(Sym(f(idx), t0), t).e)

    def tolist(self):
        if isinstance(self.shape_, OShape):
            r = self.copy()
            r.listy = True
            return r
        if not self.shape_:
            return self.scalar().item()
        n = self.shape_[0]
        f, t = self.snapshot(), self.t
        if len(self.shape_) == 1:
            if isinstance(n, int) and n <= 32:
                return [Sym(f((z3.IntVal(i),)), t).item() for i in range(n)]
            return SList(n, lambda i: Sym(f((i,)), t).item())
        snap = self.copy()
        if isinstance(n, int):
            return [snap[i].tolist() for i in range(n)]
        return SList(n, lambda i: snap[Sym(i, "pyint")].tolist())

    def fill(self, v):
        self[...] = v

    def reshape(self, *shape, order=None):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, OShape)):
            shape = shape[0]
        if isinstance(shape, OShape):
            if self.shape_ is shape:
                return SArr(shape, self.t, None, base=(self, lambda i: i))
            if isinstance(self.shape_, tuple) and len(self.shape_) == 1:
                en = eng()
                if not dim_eq(self.shape_[0], shape.size):
                    if not en.branch(ix(self.shape_[0]) == ix(shape.size)):
                        raise ValueError("cannot reshape array")
                return SArr(shape, self.t, None, base=(self, lambda i: i))
            raise Unsupported("reshape to an arbitrary shape")
        shape = [dim(d) for d in shape]
        if isinstance(self.shape_, OShape):
            if shape == [-1]:
                return SArr((self.shape_.size,), self.t, None, base=(self, lambda i: i))
            if -1 in [d for d in shape if isinstance(d, int)] and all(isinstance(d, int) for d in shape) and sorted(shape) == [-1] + [1] * (len(shape) - 1):
                p = shape.index(-1)
                sh = list(shape)
                sh[p] = self.shape_.size
                return SArr(tuple(sh), self.t, None, base=(self, lambda i: (i[p],)))
            raise Unsupported("reshape of an arbitrary shape")
        return reshape(self, shape)

    def flatten(self, *a):
        return self.reshape(-1).copy()

    def ravel(self, *a):
        return self.reshape(-1)

    def squeeze(self, axis=None):
        if isinstance(self.shape_, OShape):
            raise Unsupported("squeeze of an arbitrary shape")
        keep = []
        n = len(self.shape_)
        if axis is not None:
            keep = [i for i in range(n) if i != axis % n]
        else:
            for i, d in enumerate(self.shape_):
                if isinstance(d, int):
                    if d != 1:
                        keep.append(i)
                elif not eng().branch(ix(d) == 1):
                    keep.append(i)

        def m(idx):
            out = [z3.IntVal(0)] * n
            for j, i in enumerate(keep):
                out[i] = idx[j]
            return tuple(out)
        return SArr(tuple(self.shape_[i] for i in keep), self.t, None, base=(self, m))

    # ------------------------------------------------------------ indexing
    def _resolve_index(self, key):
        """-> (result shape, map idx->base idx) ; raises IndexError"""
        if isinstance(self.shape_, OShape):
            if key is Ellipsis or (isinstance(key, slice) and key == slice(None)) or key == ():
                return self.shape_, (lambda i: i)
            raise Unsupported("indexing an arbitrary shape")
        if not isinstance(key, tuple):
            key = (key,)
        n = len(self.shape_)
        if any(k is Ellipsis for k in key):
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            used = sum(1 for k in key if k is not None and k is not Ellipsis)
            key = key[:p] + (slice(None),) * (n - used) + key[p + 1:]
        used = sum(1 for k in key if k is not None)
        if used > n:
            raise IndexError("too many indices for array")
        key = key + (slice(None),) * (n - used)
        shape, maps, d = [], [], 0
        for k in key:
            if k is None:
                shape.append(1)
                maps.append(("new",))
                continue
            dd = self.shape_[d]
            if isinstance(k, slice):
                start, length, step = slice_bounds(k, dd)
                shape.append(length)
                maps.append(("slice", d, ix(start), step))
            elif isinstance(k, (int, Sym)):
                i = norm_index(k, dd)
                maps.append(("at", d, i))
            elif isinstance(k, SArr) and kind(k.t) in "iu":
                if isinstance(k.shape_, tuple) and len(k.shape_) <= 1:
                    if len(k.shape_) == 0:
                        maps.append(("at", d, norm_index(k.scalar(), dd)))
                    else:
                        shape.append(k.shape_[0])
                        maps.append(("take", d, k.snapshot()))
                else:
                    raise Unsupported("fancy indexing")
            else:
                raise Unsupported(f"index {type(k).__name__}")
            d += 1

        def m(idx):
            out = [None] * n
            j = 0
            for mm in maps:
                if mm[0] == "new":
                    j += 1
                elif mm[0] == "slice":
                    v = idx[j]
                    out[mm[1]] = mm[2] + v * mm[3] if not (z3.is_int_value(mm[2]) and mm[2].as_long() == 0 and mm[3] == 1) else v
                    j += 1
                elif mm[0] == "take":
                    out[mm[1]] = mm[2]((idx[j],))
                    j += 1
                else:
                    out[mm[1]] = mm[2]
            return tuple(out)
        return tuple(shape), m

    def __getitem__(self, key):
        if isinstance(key, SArr) and key.t == "bool":
            raise Unsupported("boolean mask indexing")
        shape, m = self._resolve_index(key)
        if shape == ():
            return Sym(self.at(*m(())), self.t)
        return SArr(shape, self.t, None, base=(self, m))

    def __setitem__(self, key, val):
        if self.base is not None:
            # write through a view: invert only for index/slice-identity maps
            b, m = self.base
            inv = getattr(self, "_inv", None)
            return write_view(self, key, val)
        write(self, key, val)

    # ------------------------------------------------------------ operators
    def _op(s, op, o, rev=False):
        a, b = (o, s) if rev else (s, o)
        return ewise(op, a, b)

    def __add__(s, o): return s._op("+", o)
    def __radd__(s, o): return s._op("+", o, True)
    def __sub__(s, o): return s._op("-", o)
    def __rsub__(s, o): return s._op("-", o, True)
    def __mul__(s, o): return s._op("*", o)
    def __rmul__(s, o): return s._op("*", o, True)
    def __truediv__(s, o): return s._op("/", o)
    def __rtruediv__(s, o): return s._op("/", o, True)
    def __floordiv__(s, o): return s._op("//", o)
    def __rfloordiv__(s, o): return s._op("//", o, True)
    def __mod__(s, o): return s._op("%", o)
    def __rmod__(s, o): return s._op("%", o, True)
    def __pow__(s, o): return s._op("**", o)
    def __rpow__(s, o): return s._op("**", o, True)
    def __lshift__(s, o): return s._op("<<", o)
    def __rlshift__(s, o): return s._op("<<", o, True)
    def __rshift__(s, o): return s._op(">>", o)
    def __rrshift__(s, o): return s._op(">>", o, True)
    def __and__(s, o): return s._op("&", o)
    def __rand__(s, o): return s._op("&", o, True)
    def __or__(s, o): return s._op("|", o)
    def __ror__(s, o): return s._op("|", o, True)
    def __xor__(s, o): return s._op("^", o)
    def __lt__(s, o): return s._op("<", o)
    def __le__(s, o): return s._op("<=", o)
    def __gt__(s, o): return s._op(">", o)
    def __ge__(s, o): return s._op(">=", o)
    def __eq__(s, o): return s._op("==", o) if o is not None else False
    def __ne__(s, o): return s._op("!=", o) if o is not None else True
    def __neg__(s): return umap(s, lambda x: -x)
    def __pos__(s): return s.copy()
    def __abs__(s): return umap(s, abs)
    def __invert__(s): return umap(s, lambda x: ~x)

    def _iop(s, op, o):
        r = ewise(op, s, o)
        k0, k1 = kind(s.t), kind(r.t)
        order = "biuf"
        if k1 == "f" and k0 != "f":
            raise TypeError("Cannot cast ufunc output with casting rule 'same_kind'")
        s[...] = r
        return s

    def __iadd__(s, o): return s._iop("+", o)
    def __isub__(s, o): return s._iop("-", o)
    def __imul__(s, o): return s._iop("*", o)
    def __itruediv__(s, o): return s._iop("/", o)
    def __ifloordiv__(s, o): return s._iop("//", o)

    def __matmul__(s, o):
        from . import symnp
        return symnp.matmul(s, o)

    def __rmatmul__(s, o):
        from . import symnp
        return symnp.matmul(o, s)

    def dot(s, o):
        from . import symnp
        return symnp.dot(s, o)

    def clip(s, a=None, b=None, **k):
        from . import symnp
        return symnp.clip(s, a, b, **k)

    def round(s, decimals=0):
        from . import symnp
        return symnp.round(s, decimals)

    def sum(s, axis=None, keepdims=False, dtype=None):
        from . import symnp
        return symnp.sum(s, axis=axis, keepdims=keepdims, dtype=dtype)

    def mean(s, axis=None, keepdims=False):
        from . import symnp
        return symnp.mean(s, axis=axis, keepdims=keepdims)

    def max(s, axis=None, keepdims=False):
        from . import symnp
        return symnp.max(s, axis=axis, keepdims=keepdims)

    def min(s, axis=None, keepdims=False):
        from . import symnp
        return symnp.min(s, axis=axis, keepdims=keepdims)

    def any(s, axis=None):
        from . import symnp
        return symnp.any(s)

    def all(s, axis=None):
        from . import symnp
        return symnp.all(s)

    # list-like (tolist of an arbitrary shape)
    def index(self, v):
        raise Unsupported("list.index")


def norm_index(k, dd):
    """python index -> index term in [0, dd); raises IndexError; int dims"""
    en = eng()
    if isinstance(k, bool):
        k = int(k)
    if isinstance(k, int) and isinstance(dd, int):
        if not -dd <= k < dd:
            raise IndexError("index out of bounds")
        return z3.IntVal(k % dd)
    e, d = ix(k), ix(dd)
    if isinstance(k, int) and k < 0:
        i = d + k
        if not en.must(i >= 0) and en.branch(i < 0):
            raise IndexError("index out of bounds")
        return z3.simplify(i)
    if not en.must(e >= 0):
        if en.branch(e < 0):
            i = e + d
            if not en.must(i >= 0) and en.branch(i < 0):
                raise IndexError("index out of bounds")
            return z3.simplify(i)
    if not en.must(e < d) and en.branch(e >= d):
        raise IndexError("index out of bounds")
    return e


def slice_bounds(k, dd):
    """-> start, length, step (concrete step +-1..)"""
    en = eng()
    step = k.step if k.step is not None else 1
    step = T.concrete(step) if isinstance(step, Sym) else step
    if step is None or step == 0:
        raise Unsupported("symbolic slice step")
    st, sp = k.start, k.stop
    if isinstance(st, Sym) and T.concrete(st) is not None:
        st = T.concrete(st)
    if isinstance(sp, Sym) and T.concrete(sp) is not None:
        sp = T.concrete(sp)
    if isinstance(dd, int) and not isinstance(st, Sym) and not isinstance(sp, Sym):
        r = range(*slice(st, sp, step).indices(dd))
        return (r.start if len(r) else 0), len(r), step
    d = ix(dd)

    def norm(v, default, lo, hi):
        if v is None:
            return default
        e = ix(v)
        if not en.must(e >= 0):
            if en.branch(e < 0):
                e = e + d
                if not en.must(e >= lo) and en.branch(e < lo):
                    e = z3.IntVal(lo) if isinstance(lo, int) else lo
                    return e
                return e
        if not en.must(e <= hi) and en.branch(e > hi):
            return hi
        return e
    if step > 0:
        s = norm(st, z3.IntVal(0), 0, d)
        p = norm(sp, d, 0, d)
        n = z3.simplify(p - s)
        if not en.must(n >= 0) and en.branch(n < 0):
            return z3.simplify(s), 0, step
        if step == 1:
            return z3.simplify(s), dim(n), step
        return z3.simplify(s), dim(z3.simplify((n + (step - 1)) / step)), step
    if step == -1:
        s = norm(st, d - 1, -1, d - 1)
        p = norm(sp, z3.IntVal(-1), -1, d - 1)
        n = z3.simplify(s - p)
        if not en.must(n >= 0) and en.branch(n < 0):
            return z3.simplify(s), 0, step
        return z3.simplify(s), dim(n), step
    raise Unsupported("slice step")


def reshape(a, shape):
    """reshape of a rank-n array with (possibly symbolic) dims"""
    old = a.shape_
    if any(isinstance(d, int) and d == -1 for d in shape):      # the open dimension is not determined next to an empty one
        for d in shape:
            if isinstance(d, int) and d == 0 or not isinstance(d, int) and eng().branch(ix(d) == 0):
                raise ValueError("cannot reshape array")
    # drop unit dims correspondence
    core = [i for i, d in enumerate(old) if not (isinstance(d, int) and d == 1)]
    ncore = [i for i, d in enumerate(shape) if not (isinstance(d, int) and d == 1)]
    n = len(old)
    if len(core) == len(ncore):
        newshape, ok = [], True
        for i, d in enumerate(shape):
            if isinstance(d, int) and d == 1:
                newshape.append(1)
            else:
                j = core[ncore.index(i)]
                if isinstance(d, int) and d == -1:
                    newshape.append(old[j])
                elif dim_eq(d, old[j]):
                    newshape.append(old[j])
                else:
                    ok = False
                    break
        if ok:
            def m(idx):
                out = [z3.IntVal(0)] * n
                for p, j in zip(ncore, core):
                    out[j] = idx[p]
                return tuple(out)
            return SArr(tuple(newshape), a.t, None, base=(a, m))
    if all(isinstance(d, int) for d in old):
        # concrete source: flat index arithmetic
        total = 1
        for d in old:
            total *= d
        sh = list(shape)
        if any(isinstance(d, int) and d == -1 for d in sh):
            p = 1
            for d in sh:
                if not isinstance(d, int):
                    raise Unsupported("reshape with symbolic dims")
                if d != -1:
                    p *= d
            if p == 0 or total % p:
                raise ValueError("cannot reshape array")
            sh = [total // p if d == -1 else d for d in sh]
        p = 1
        for d in sh:
            p = p * d
        if not isinstance(p, int):
            raise Unsupported("reshape with symbolic dims")
        if p != total:
            raise ValueError("cannot reshape array")
        return SArr(tuple(sh), a.t, None, base=(a, flatmap(old, sh)))
    # flatten rank-k with one symbolic leading dim
    sh = list(shape)
    if len(sh) == 1 and (isinstance(sh[0], int) and sh[0] == -1 or dim_eq(sh[0], a.size)):
        return SArr((a.size,), a.t, None, base=(a, lambda idx: unflat(idx[0], old)))
    if len(sh) == 2 and len(core) == 1 and False:
        pass
    if len(core) == 2 and len(ncore) == 2 and False:
        pass
    # general: symbolic dims, sizes must be equal
    if not any(isinstance(d, int) and d == -1 for d in sh):
        tot = 1
        for d in sh:
            tot = tot * d
        if dim_eq(tot, a.size):
            return SArr(tuple(sh), a.t, None, base=(a, lambda idx: unflat(flat(idx, sh), old)))
        if eng().branch(ix(tot) != ix(a.size)):
            raise ValueError("cannot reshape array")
        return SArr(tuple(sh), a.t, None, base=(a, lambda idx: unflat(flat(idx, sh), old)))
    # one dimension left open: the given ones cancel dimensions of the source
    rest, given, at = list(old), 0, [k for k, d in enumerate(sh) if isinstance(d, int) and d == -1]
    if len(at) == 1:
        for d in sh:
            k = next((k for k, r in enumerate(rest) if dim_eq(d, r)), None) if not (isinstance(d, int) and d in (-1, 1)) else None
            if k is not None:
                rest.pop(k)
                given += 1
        if given == sum(not (isinstance(d, int) and d in (-1, 1)) for d in sh):
            tot = 1
            for d in rest:
                tot = tot * d
            k = at[0]
            sh[k] = tot
            pre = k + 1 == len(sh) and all(dim_eq(x, y) for x, y in zip(sh[:k], old))
            suf = k == 0 and all(dim_eq(x, y) for x, y in zip(sh[1:], old[n - len(sh) + 1:]))
            if pre:      # the trailing dimensions become one
                return SArr(tuple(sh), a.t, None, base=(a, lambda idx: tuple(idx[:k]) + tuple(unflat(idx[k], old[k:]))))
            if suf:      # the leading ones
                m = n - len(sh) + 1
                return SArr(tuple(sh), a.t, None, base=(a, lambda idx: tuple(unflat(idx[0], old[:m])) + tuple(idx[1:])))
            return SArr(tuple(sh), a.t, None, base=(a, lambda idx: unflat(flat(idx, sh), old)))
    raise Unsupported(f"reshape {old} -> {shape}")


def flat(idx, shape):
    r = None
    for i, d in zip(idx, shape):
        r = i if r is None else r * ix(d) + i
    return r if r is not None else z3.IntVal(0)


def unflat(f, shape):
    out = []
    for d in reversed(shape):
        if isinstance(d, int) and d == 1:
            out.append(z3.IntVal(0))
            continue
        if len(out) == len(shape) - 1:
            out.append(f)
        else:
            q = T.floordiv_pos(f, ix(d))
            out.append(f - q * ix(d))
            f = q
    return tuple(reversed(out))


def flatmap(old, new):
    def m(idx):
        return unflat(z3.simplify(flat(idx, new)), old)
    return m


def write(a, key, val):
    """in-place store into a non-view array"""
    shape, m = a._resolve_index(key)
    a.mutated = True
    en = eng()
    en.scratch.setdefault("writes", []).append(id(a))
    old, t = a.fn, a.t
    if isinstance(shape, OShape) or key is Ellipsis or (isinstance(key, slice) and key == slice(None) and len(a.shape_) >= 1):
        v = as_array(val)
        sh, ma, mb = broadcast(a.shape_, v.shape_)
        f, tv = v.snapshot(), v.t
        a.fn = lambda idx: T.cast(Sym(f(mb(idx)), tv), t).e
        return
    v = as_array(val)
    f, tv = v.snapshot(), v.t
    # key -> constraints on idx
    keyt = key if isinstance(key, tuple) else (key,)
    n = len(a.shape_)
    if any(k is Ellipsis or k is None for k in keyt):
        raise Unsupported("store with ellipsis/newaxis")
    keyt = keyt + (slice(None),) * (n - len(keyt))
    cons = []
    for d, k in enumerate(keyt):
        dd = a.shape_[d]
        if isinstance(k, slice):
            s, l, st = slice_bounds(k, dd)
            if st != 1:
                raise Unsupported("strided store")
            cons.append(("slice", ix(s), ix(l)))
        elif isinstance(k, (int, Sym)):
            cons.append(("at", norm_index(k, dd)))
        else:
            raise Unsupported("fancy store")
    _, ma, mb = broadcast(shape, v.shape_)

    def fn(idx):
        conds, sub = [], []
        for i, c in zip(idx, cons):
            if c[0] == "at":
                conds.append(i == c[1])
            else:
                conds.append(z3.And(i >= c[1], i < c[1] + c[2]))
                sub.append(i - c[1])
        cnd = z3.simplify(z3.And(*conds)) if conds else z3.BoolVal(True)
        if z3.is_true(cnd):
            return T.cast(Sym(f(mb(tuple(sub))), tv), t).e
        if z3.is_false(cnd):
            return old(idx)
        return z3.If(cnd, T.cast(Sym(f(mb(tuple(sub))), tv), t).e, old(idx))
    a.fn = fn


def write_view(v, key, val):
    """store through a view"""
    b, m = v.base
    # supported: views whose map is index/slice of an array (compose keys) when v came from flat of rank-1
    if isinstance(v.shape_, tuple) and len(v.shape_) == 1 and isinstance(b.shape_, OShape):
        # .flat of arbitrary shape
        tmp = SArr(v.shape_, v.t, v.snapshot())
        write(tmp, key, val)
        b2 = b
        if b2.base is not None:
            raise Unsupported("store through nested view")
        b2.fn = tmp.fn
        b2.mutated = True
        return
    probe = tuple(z3.Int(f"probe{i}") for i in range(len(v.shape_)))
    img = m(probe)
    # identity-with-fixed-coordinates maps
    fixed, pos = {}, {}
    for j, e in enumerate(img):
        s = z3.simplify(e)
        hit = False
        for i, p in enumerate(probe):
            if s.eq(p):
                pos[j] = (i, z3.IntVal(0))
                hit = True
            else:
                d = z3.simplify(s - p)
                if not any(_contains(d, q) for q in probe) and not hit and _contains(s, p):
                    pos[j] = (i, d)
                    hit = True
        if not hit:
            if any(_contains(s, q) for q in probe):
                raise Unsupported("store through this view")
            fixed[j] = s
    tmp = SArr(v.shape_, v.t, v.snapshot())
    write(tmp, key, val)
    newf = tmp.fn
    old = b.snapshot()
    shape = v.shape_

    def fn(idx):
        conds, sub = [], [z3.IntVal(0)] * len(shape)
        for j, i in enumerate(idx):
            if j in fixed:
                conds.append(i == fixed[j])
            else:
                p, d = pos[j]
                sub[p] = z3.simplify(i - d)
                conds.append(z3.And(i - d >= 0, i - d < ix(shape[p])))
        c = z3.simplify(z3.And(*conds))
        if z3.is_true(c):
            return newf(tuple(sub))
        if z3.is_false(c):
            return old(idx)
        return z3.If(c, newf(tuple(sub)), old(idx))
    if b.base is not None:
        whole = SArr(b.shape_, b.t, fn)
        write_view(b, Ellipsis, whole) if False else _store_all(b, whole)
    else:
        b.fn = fn
        b.mutated = True
        eng().scratch.setdefault("writes", []).append(id(b))


def _store_all(b, whole):
    b[tuple(slice(None) for _ in b.shape_)] = whole


def _contains(e, v):
    if e.eq(v):
        return True
    return any(_contains(c, v) for c in e.children())


# ------------------------------------------------------------- construction
def as_array(x, t=None):
    if isinstance(x, SArr):
        return x
    if isinstance(x, SList):
        return x.to_array(t)
    if isinstance(x, Sym):
        return SArr((), T.PYNP.get(x.t, x.t), lambda idx, e=T.cast(x, T.PYNP.get(x.t, x.t)).e: e)
    if isinstance(x, range):
        return SArr((len(x),), "int64", lambda idx: z3.simplify(idx[0] * x.step + x.start))
    if isinstance(x, SRange):
        lo = x.lo
        return SArr((x.n,), "int64", lambda idx: z3.simplify(ix(lo) + idx[0] * x.step))
    if isinstance(x, (list, tuple)):
        return from_list(x)
    import numpy as np
    if isinstance(x, np.ndarray):
        a = from_list(x.tolist()) if x.ndim else as_array(sym_of(x.item()))
        a.t = x.dtype.name
        return a
    l = lift(x)
    if l is not None:
        return as_array(Sym(*l))
    if isinstance(x, map) or hasattr(x, "__next__"):
        raise Unsupported("array of iterator")
    raise Unsupported(f"np.array({type(x).__name__})")


def sym_of(x):
    return Sym(*lift(x))


def from_list(x):
    x = list(x)
    if not x:
        return SArr((0,), "float64", lambda idx: z3.RealVal(0))
    items = [as_array(v) for v in x]
    sh = items[0].shape_
    for it in items[1:]:
        if isinstance(sh, OShape) or isinstance(it.shape_, OShape):
            if sh is not it.shape_:
                raise Unsupported("stack of arbitrary shapes")
            continue
        if len(it.shape_) != len(sh) or not all(dim_eq(a, b) for a, b in zip(sh, it.shape_)):
            raise ValueError("setting an array element with a sequence. inhomogeneous shape")
    t = items[0].t
    for it in items[1:]:
        t = T.promote(t, it.t)
    fs = [(it.snapshot(), it.t) for it in items]

    def fn(idx):
        i = z3.simplify(idx[0])
        rest = idx[1:]
        if z3.is_int_value(i):
            f, ti = fs[i.as_long() % len(fs)]
            return T.cast(Sym(f(rest), ti), t).e
        r = None
        for j in range(len(fs) - 1, -1, -1):
            f, ti = fs[j]
            v = T.cast(Sym(f(rest), ti), t).e
            r = v if r is None else z3.If(i == j, v, r)
        return r
    if isinstance(sh, OShape):
        raise Unsupported("stack of arbitrary shapes")
    return SArr((len(items),) + tuple(sh), t, fn)


def array_result_type(op, a, b):
    """numpy 1.26 result dtype incl. value-based casting for 0-d operands"""
    if op in T.CMP:
        return "bool"
    a0, b0 = is0d(a), is0d(b)
    if a0 == b0:
        t = T.promote(tname(a), tname(b))
    else:
        arr, sc = (b, a) if a0 else (a, b)
        t = value_based(arr.t, sc)
    if op == "/" and kind(t) != "f":
        return "float64"
    if t == "bool" and op in ("-", "//", "%", "**"):
        return "int8"
    return t


def is0d(x):
    return isinstance(x, Sym) or (isinstance(x, SArr) and x.shape_ == ())


def tname(x):
    return T.PYNP.get(x.t, x.t)


def value_based(at, sc):
    st = tname(sc)
    order = {"b": 0, "i": 1, "u": 1, "f": 2}
    ka, ks = kind(at), kind(st)
    if order[ks] > order[ka]:
        return T.promote(at, st)
    if order[ks] < order[ka] or ka == "b":
        return at if ka != "b" or ks == "b" else T.promote(at, st)
    if ka == "f":
        return at
    e = sc.e if isinstance(sc, Sym) else sc.at()
    en = eng()
    lo, hi = limits(at)
    inr = z3.And(e >= lo, e <= hi)
    if en.must(inr) or en.branch(inr):
        return at
    # needs a larger type
    if INTW[at][1]:   # signed array
        for ut in ("uint8", "uint16", "uint32", "uint64"):
            if en.branch(z3.And(e > hi, e <= limits(ut)[1])):
                return T.promote(at, ut)
        for tt in ("int16", "int32", "int64"):
            if INTW[tt][0] > INTW[at][0] and en.branch(z3.And(e >= limits(tt)[0], e < lo)):
                return tt
    else:
        for ut in ("uint16", "uint32", "uint64"):
            if INTW[ut][0] > INTW[at][0] and en.branch(z3.And(e > hi, e <= limits(ut)[1])):
                return ut
        for tt in ("int8", "int16", "int32", "int64"):
            if en.branch(z3.And(e < 0, e >= limits(tt)[0])):
                return T.promote(at, tt)
    raise Unsupported("python integer out of 64-bit range in array arithmetic")


def ewise(op, a, b):
    try:
        a, b = (a if isinstance(a, (Sym, SArr)) else _conv(a)), (b if isinstance(b, (Sym, SArr)) else _conv(b))
    except Unsupported:
        return NotImplemented
    if isinstance(a, Sym) and isinstance(b, Sym):
        return T.binop(op, a, b)
    t = array_result_type(op, a, b)
    A, B = as_array(a), as_array(b)
    sh, ma, mb = broadcast(A.shape_, B.shape_)
    fa, fb, ta, tb = A.snapshot(), B.snapshot(), A.t, B.t

    def fn(idx):
        return apply_op(op, (fa(ma(idx)), ta), (fb(mb(idx)), tb), t).e
    r = SArr(sh, t, fn)
    if sh == ():
        return Sym(fn(()), t)
    return r


def _conv(x):
    if isinstance(x, (list, tuple, SList, SRange, range)):
        return as_array(x)
    l = lift(x)
    if l is not None:
        return Sym(*l)
    import numpy as np
    if isinstance(x, np.ndarray):
        return as_array(x)
    raise Unsupported("operand")


def umap(a, f, t=None):
    """elementwise map; f: Sym -> Sym; result type by probing if t is None"""
    a = as_array(a) if not isinstance(a, Sym) else a
    if isinstance(a, Sym):
        return f(a)
    g, ta = a.snapshot(), a.t
    t = t or ta
    if a.shape_ == ():
        r = f(Sym(g(()), ta))
        return r if t is None else T.cast(r, t) if r.t != t else r

    def fn(idx):
        r = f(Sym(g(idx), ta))
        return T.cast(r, t).e if r.t != t else r.e
    return SArr(a.shape_, t, fn)


# ------------------------------------------------------------------- ranges
class SRange:
    """range(lo, hi) with symbolic length"""

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi = lo, hi
        self.step = step
        en = eng()
        if step == 1:
            n = z3.simplify(ix(hi) - ix(lo))
        elif step == -1:
            n = z3.simplify(ix(lo) - ix(hi))
        elif isinstance(step, Sym) or step > 1:
            d = ix(hi) - ix(lo)
            st = ix(step)
            if not en.must(st > 0):
                if en.branch(st == 0):
                    raise ValueError("range() arg 3 must not be zero")
                if not en.must(st > 0):
                    raise Unsupported("negative symbolic range step")
            n = z3.simplify(T.floordiv_pos(d + st - 1, st))
        else:
            raise Unsupported("range step")
        if not en.must(n >= 0) and en.branch(n < 0):
            n = z3.IntVal(0)
        self.n = dim(n)

    def slen(self):
        return self.n

    def get(self, i):
        return Sym(z3.simplify(ix(self.lo) + i * ix(self.step)), "pyint")

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.get(z3.IntVal(i)) for i in range(self.n)])
        raise Unsupported("native iteration over symbolic range")

    def __getitem__(self, k):
        return self.get(norm_index(k, self.n))

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        raise Unsupported("native len of symbolic range")


def merge(c, a, b):
    """python-level conditional value"""
    if a is b:
        return a
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    la, lb = lift(a), lift(b)
    if la is not None and lb is not None:
        (ea, ta), (eb, tb) = la, lb
        if ta == tb:
            return Sym(z3.If(c, ea, eb), ta)
        if {ta, tb} <= {"pyint", "pyfloat", "pybool"} and kind(ta) == kind(tb):
            return Sym(z3.If(c, ea, eb), ta)
    if isinstance(a, SArr) and isinstance(b, SArr) and a.t == b.t:
        sa, sb = a.shape_, b.shape_
        same = sa is sb or (isinstance(sa, tuple) and isinstance(sb, tuple) and len(sa) == len(sb)
                            and all(dim_eq(x, y) for x, y in zip(sa, sb)))
        if same:
            fa, fb = a.snapshot(), b.snapshot()
            return SArr(sa, a.t, lambda idx: z3.If(c, fa(idx), fb(idx)))
    if eng().branch(c):
        return a
    return b


class Fam:
    """dictionary entries key(v) -> val(v) for every v of k index variables with guard(v)"""

    def __init__(self, k, guard, key, val, name=""):
        self.k, self.guard, self.key, self.val, self.name = k, guard, key, val, name


class SMap:
    """python dict with symbolic keys: the entries written, oldest first"""

    def __init__(self, entries=()):
        self.entries = list(entries)
        self.version = 0

    def __setitem__(self, key, val):
        self.entries.append(Fam(0, lambda v: z3.BoolVal(True), lambda v: key, lambda v: val, "entry"))
        self.version += 1

    def update(self, o):
        if isinstance(o, dict):
            for k, v in o.items():
                self[k] = v
        elif isinstance(o, SMap):
            self.entries += o.entries
            self.version += 1
        else:
            raise Unsupported("dict.update")

    def copy(self):
        return SMap(self.entries)

    def __copy__(self):
        return self.copy()

    def __bool__(self):
        if not self.entries:
            return False
        raise Unsupported("truth of a symbolic dict")

    def _no(self, *a, **k):
        raise Unsupported("reading a symbolic dict")
    __getitem__ = __contains__ = __iter__ = __len__ = keys = values = items = get = _no


class SList:
    """python list of symbolic length; elements are arbitrary proxies"""

    def __init__(self, n, get, tag=None):
        self.n = dim(n)
        self._get = get       # index term -> element
        self.tag = tag
        self.version = 0

    def slen(self):
        return self.n

    def get(self, i):
        return self._get(ix(i))

    def become(self, n, get):
        self.n, self._get = dim(n), get
        self.version += 1

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        raise Unsupported("native len of a symbolic list")

    def __bool__(self):
        if isinstance(self.n, int):
            return self.n > 0
        return eng().branch(ix(self.n) > 0)

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.get(z3.IntVal(i)) for i in range(self.n)])
        raise Unsupported("native iteration over a symbolic list")

    def __getitem__(self, k):
        if isinstance(k, slice):
            s, l, st = slice_bounds(k, self.n)
            g = self._get
            s = ix(s)
            return SList(l, lambda i: g(z3.simplify(s + i * st)))
        if isinstance(k, SArr):
            k = k.scalar()
        if not isinstance(k, (int, Sym)):
            raise TypeError("list indices must be integers or slices")
        if isinstance(k, Sym) and kind(k.t) == "f":
            raise TypeError("list indices must be integers or slices, not float")
        return self.get(norm_index(k, self.n))

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            raise Unsupported("slice store into a symbolic list")
        i = norm_index(k, self.n)
        g = self._get
        self._get = lambda j: merge(z3.simplify(j == i), v, g(j))
        self.version += 1

    def append(self, v):
        g, n = self._get, ix(self.n)
        self._get = lambda j: merge(z3.simplify(j == n), v, g(j))
        self.n = dim(z3.simplify(n + 1))
        self.version += 1

    def extend(self, o):
        r = self + o
        self.become(r.n, r._get)

    def pop(self, k=-1):
        v = self[k]
        if k == -1:
            self.become(z3.simplify(ix(self.n) - 1), self._get)
            return v
        if k == 0:
            g = self._get
            self.become(z3.simplify(ix(self.n) - 1), lambda j: g(z3.simplify(j + 1)))
            return v
        raise Unsupported("pop")

    def insert(self, k, v):
        if k == 0:
            g = self._get
            self.become(z3.simplify(ix(self.n) + 1),
                        lambda j: merge(z3.simplify(j == 0), v, g(z3.simplify(j - 1))) if not z3.is_int_value(z3.simplify(j)) or z3.simplify(j).as_long() else v)
            return
        raise Unsupported("insert")

    def reverse(self):
        g, n = self._get, ix(self.n)
        self._get = lambda j: g(z3.simplify(n - 1 - j))
        self.version += 1

    def clear(self):
        self.become(z3.IntVal(0), lambda j: None)

    def copy(self):
        return SList(self.n, self._get, self.tag)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        import copy as _c
        g = self._get
        return SList(self.n, lambda i: _c.deepcopy(g(i)), self.tag)

    def __add__(self, o):
        if isinstance(o, (list, tuple)):
            o = list_to_slist(o)
        if not isinstance(o, SList):
            return NotImplemented
        n, g, h = ix(self.n), self._get, o._get
        if isinstance(self.n, int) and self.n == 0:
            return SList(o.n, h)
        if isinstance(o.n, int) and o.n == 0:
            return SList(self.n, g)

        def get(i):
            c = z3.simplify(i < n)
            if z3.is_true(c):
                return g(i)
            if z3.is_false(c):
                return h(z3.simplify(i - n))
            if eng().branch(c):
                return g(i)
            return h(z3.simplify(i - n))
        return SList(z3.simplify(n + ix(o.n)), get)

    def __radd__(self, o):
        return list_to_slist(o) + self

    def __mul__(self, k):
        raise Unsupported("list repetition")

    def __contains__(self, v):
        raise Unsupported("membership in a symbolic list")

    def __eq__(self, o):
        if isinstance(o, list) and len(o) <= 32:
            n = z3.simplify(ix(self.n) == len(o))
            if z3.is_false(n) or not (z3.is_true(n) or eng().branch(n)):
                return False
            return all(bool(self.get(z3.IntVal(i)) == v) for i, v in enumerate(o))
        if not isinstance(o, (list, SList)):
            return False
        raise Unsupported("equality of symbolic lists")

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        return f"<SList n={self.n}>"

    def index(self, v):
        raise Unsupported("list.index")

    def to_array(self, t=None):
        """np.array(list)"""
        if isinstance(self.n, int) and self.n <= 32:
            return from_list([self.get(z3.IntVal(i)) for i in range(self.n)])
        k = bound_index("e")
        g = self._get
        with scope(k >= 0, k < ix(self.n)):
            probe = in_term(lambda: g(k))
        if isinstance(probe, (Sym, int, float, bool)):
            ty = T.PYNP.get(sym_of(probe).t, sym_of(probe).t)
            if t is not None:
                ty = t
            elif getattr(probe, "tag", None) == "mixed":
                raise Unsupported("array of elements of several types")
            return SArr((self.n,), ty, lambda idx: T.cast(sym_of(in_term(lambda: g(idx[0]))), ty).e)
        pa = as_array(probe)
        if isinstance(pa.shape_, OShape):
            raise Unsupported("array of arbitrary shapes")
        return SArr((self.n,) + pa.shape_, pa.t, lambda idx: as_array(g(idx[0])).at(*idx[1:]))


def list_to_slist(x):
    x = list(x)

    def get(i):
        i = z3.simplify(i)
        if z3.is_int_value(i):
            return x[i.as_long()]
        r = x[-1] if x else None
        for j in range(len(x) - 2, -1, -1):
            r = merge(i == j, x[j], r)
        return r
    return SList(len(x), get)


# --------------------------------------------------------------------- sums
def poly(e):
    """polynomial normal form: dict {sorted tuple of atom ids: Fraction}, atoms table"""
    table = {}

    def atom(x):
        table[x.get_id()] = x
        return {(x.get_id(),): Fraction(1)}

    def add(p, q, s=1):
        r = dict(p)
        for k, v in q.items():
            r[k] = r.get(k, 0) + s * v
            if r[k] == 0:
                del r[k]
        return r

    def mul(p, q):
        r = {}
        if len(p) * len(q) > 4000:
            raise Unsupported("polynomial too large")
        for a, x in p.items():
            for b, y in q.items():
                k = tuple(sorted(a + b))
                r[k] = r.get(k, 0) + x * y
                if r[k] == 0:
                    del r[k]
        return r
    cache = {}

    def go(x):
        i = x.get_id()
        if i in cache:
            return cache[i]
        r = go1(x)
        cache[i] = r
        return r

    def go1(x):
        if z3.is_int_value(x):
            return {(): Fraction(x.as_long())} if x.as_long() else {}
        if z3.is_rational_value(x):
            v = Fraction(x.numerator_as_long(), x.denominator_as_long())
            return {(): v} if v else {}
        k = x.decl().kind()
        ch = x.children()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in ch:
                r = add(r, go(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = go(ch[0])
            for c in ch[1:]:
                r = add(r, go(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return add({}, go(ch[0]), -1)
        if k == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in ch:
                r = mul(r, go(c))
            return r
        if k == z3.Z3_OP_TO_REAL:
            return go(ch[0])           # integers embed into reals
        if k == z3.Z3_OP_DIV:
            d = ch[1]
            if z3.is_rational_value(d) and d.numerator_as_long() != 0:
                return mul(go(ch[0]), {(): Fraction(d.denominator_as_long(), d.numerator_as_long())})
            pd = go(d)
            inv = {(): Fraction(1)}
            if len(pd) == 1:
                (mono, c), = pd.items()
                inv = {(): 1 / c}
                for a in mono:
                    inv = mul(inv, atom(z3.RealVal(1) / toreal(table[a])))
            else:
                inv = atom(z3.RealVal(1) / frompoly(pd, table))
            return mul(go(ch[0]), inv)
        if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) and 0 <= ch[1].as_long() <= 6:
            r = {(): Fraction(1)}
            for _ in range(ch[1].as_long()):
                r = mul(r, go(ch[0]))
            return r
        return atom(x)
    return go(e), table


def frompoly(p, table, real=True):
    terms = []
    for mono in sorted(p):
        c = p[mono]
        t = None
        for a in mono:
            x = toreal(table[a]) if real else table[a]
            t = x if t is None else t * x
        cv = z3.RealVal(c) if real else z3.IntVal(int(c))
        t = cv if t is None else (t if c == 1 else cv * t)
        terms.append(t)
    if not terms:
        return z3.RealVal(0) if real else z3.IntVal(0)
    return z3.Sum(terms) if len(terms) > 1 else terms[0]


def contains_var(e, v, memo=None):
    memo = {} if memo is None else memo
    i = e.get_id()
    if i in memo:
        return memo[i]
    r = e.eq(v) or any(contains_var(c, v, memo) for c in e.children())
    memo[i] = r
    return r


def free_index_vars(e, en):
    out, seen = [], set()

    def go(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if x.num_args() == 0 and x.get_id() in en.index_vars:
            out.append(x)
        for c in x.children():
            go(c)
    go(e)
    return out


CANON = z3.Int("bound_k")


def sum_term(body_fn, n, real):
    """Sum_{k=0}^{n-1} body_fn(k) as a canonical z3 term"""
    en = eng()
    n = dim(n)
    if isinstance(n, int) and n <= 64:
        tot = None
        for i in range(n):
            v = body_fn(z3.IntVal(i))
            tot = v if tot is None else tot + v
        return tot if tot is not None else (z3.RealVal(0) if real else z3.IntVal(0))
    k = bound_index("k")
    with scope(k >= 0, k < ix(n)):
        body = in_term(lambda: body_fn(k))
        pos = nonneg = False
        if real:
            pos = z3.is_true(z3.simplify(body > 0)) or en.must(body > 0)
            nonneg = pos or en.must(body >= 0)
    raw = body
    body = z3.simplify(body, som=True, pull_cheap_ite=False)
    p, table = poly(body)
    res = []
    for mono in sorted(p, key=lambda m: tuple(str(table[a]) for a in m)):
        c = p[mono]
        dep = [table[a] for a in mono if contains_var(table[a], k)]
        ind = [table[a] for a in mono if not contains_var(table[a], k)]
        if dep:
            s = sum_atom(dep, k, n)
        else:
            s = ix(n)
        t = toreal(s) if real else s
        for x in ind:
            t = t * (toreal(x) if real else x)
        if c != 1:
            if not real and c.denominator != 1:
                raise Unsupported("rational coefficient in integer sum")
            t = (z3.RealVal(c) if real else z3.IntVal(int(c))) * t
        res.append(t)
    if not res:
        return z3.RealVal(0) if real else z3.IntVal(0)
    tot = z3.Sum(res) if len(res) > 1 else res[0]
    if pos or nonneg:
        en.assume(z3.Implies(ix(n) >= 1, tot > 0) if pos else tot >= 0)
        en.trust("finite-sum bound lemma (n*lo <= sum <= n*hi by induction on n)")
    if not real:
        # finite-sum bound: every summand within [lo, hi] (ranges of its atoms) bounds the sum
        for r in (raw, body):
            lo, hi = T.interval(r)
            if lo is not None:
                en.assume(tot >= ix(n) * lo)
            if hi is not None:
                en.assume(tot <= ix(n) * hi)
        en.trust("finite-sum bound lemma (n*lo <= sum <= n*hi by induction on n)")
    return tot


def sum_atom(factors, k, n):
    en = eng()
    isint = all(f.is_int() for f in factors)
    factors = sorted(factors, key=lambda f: z3.simplify(z3.substitute(f, (k, CANON))).sexpr())
    prod = None
    for f in factors:
        f = f if isint else toreal(f)
        prod = f if prod is None else prod * f
    canon = z3.substitute(prod, (k, CANON))
    free = free_index_vars(canon, en)
    ren = []
    for j, v in enumerate(free):
        ren.append((v, z3.Int(f"free_{j}")))
    canon2 = z3.substitute(canon, *ren) if ren else canon
    key = (canon2.sexpr(), str(n) if isinstance(n, int) else z3.simplify(n.e).sexpr(), isint)
    if key not in en.sum_atoms:
        name = f"Sum{len(en.sum_atoms)}"
        srt = z3.IntSort() if isint else z3.RealSort()
        f = z3.Function(name, *([z3.IntSort()] * len(free)), srt)
        en.sum_atoms[key] = f
        en.sum_meta[name] = dict(body=canon2, n=n, isint=isint, nfree=len(free))
    f = en.sum_atoms[key]
    return f(*free)


def sum_instances(e):
    """Sum applications occurring in a term"""
    en = eng()
    out, seen = [], set()

    def go(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() in en.sum_meta:
            out.append(x)
        for c in x.children():
            go(c)
    go(e)
    return out


def sum_body(app, k):
    """the body of a Sum application with its bound variable instantiated to k"""
    en = eng()
    m = en.sum_meta[app.decl().name()]
    subs = [(CANON, k)] + [(z3.Int(f"free_{j}"), app.arg(j)) for j in range(m["nfree"])]
    return z3.substitute(m["body"], *subs), m["n"]


def sum_bound_lemma(app, lo=None, hi=None, strict_lo=False):
    """lemma (induction on n): lo <= body(k) <= hi for all k  ==>  n*lo <= Sum <= n*hi.
    The premise is proved for an arbitrary k; then the conclusion is assumed."""
    en = eng()
    k = bound_index("kb")
    body, n = sum_body(app, k)
    conds = []
    if lo is not None:
        conds.append(body > lo if strict_lo else body >= lo)
    if hi is not None:
        conds.append(body <= hi)
    with scope(k >= 0, k < ix(n)):
        instantiate_ranges(body)
        ok = en.prove(f"sum bound premise {app.decl().name()}", z3.And(*conds), assume_after=False)
    if ok:
        N = ix(n) if app.is_int() else toreal(ix(n))
        if lo is not None:
            en.assume(z3.Implies(N >= 1, app > N * lo) if strict_lo else app >= N * lo)
        if hi is not None:
            en.assume(app <= N * hi)
    en.trust("finite-sum bound lemma (n*lo <= sum <= n*hi by induction on n)")
    return ok


RANGES = {}


def instantiate_ranges(e):
    """re-instantiate element-range facts of input arrays occurring in e"""
    en = eng()
    seen = set()

    def go(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() > 0:
            r = en.scratch.get("elem_facts", {}).get(x.decl().name())
            if r:
                for f in r(x):
                    en.assume(f)
        for c in x.children():
            go(c)
    go(e)


def new_array(name, shape, t, lo=None, hi=None, pos=False, facts=None):
    """an arbitrary input array (uninterpreted contents)"""
    en = eng()
    name = T.unused(name)
    if isinstance(shape, tuple):
        shape = tuple(dim(d) for d in shape)
    n = 1 if isinstance(shape, OShape) else len(shape)
    srt = z3.RealSort() if kind(t) == "f" else z3.BoolSort() if kind(t) == "b" else z3.IntSort()
    F = z3.Function(name, *([z3.IntSort()] * n), srt) if n else None
    en.scratch.setdefault("elem_facts", {})

    def bounds(x):
        out = []
        if t in INTW:
            a, b = limits(t)
            out.append(z3.And(x >= a, x <= b))
        if lo is not None:
            out.append(x >= (lo.e if isinstance(lo, Sym) else lo))
        if hi is not None:
            out.append(x <= (hi.e if isinstance(hi, Sym) else hi))
        if pos:
            out.append(x > 0)
        if facts:
            out += facts(x)
        return out
    en.scratch["elem_facts"][name] = bounds
    cl = [x for x in (lo if isinstance(lo, int) else None, limits(t)[0] if t in INTW else None) if x is not None]
    ch = [x for x in (hi if isinstance(hi, int) else None, limits(t)[1] if t in INTW else None) if x is not None]
    en.scratch.setdefault("ranges", {})[name] = (max(cl) if cl else None, min(ch) if ch else None)

    def fn(idx):
        x = F(*[z3.simplify(i) for i in idx]) if n else z3.Const(name, srt)
        for b in bounds(x):
            en_now = eng()
            en_now.assume(b)
        return x
    a = SArr(shape, t, fn)
    a.tag = name
    return a
