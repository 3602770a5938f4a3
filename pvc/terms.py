"""Symbolic scalars with the value and type semantics of Python / numpy 1.26.

Integers are mathematical integers; fixed-width numpy integers wrap exactly.
Floating point is treated as exact real arithmetic (stated assumption).
"""
from fractions import Fraction
import math
import z3
from . import engine as E
from .engine import Unsupported

INTW = {f"int{w}": (w, True) for w in (8, 16, 32, 64)}
INTW.update({f"uint{w}": (w, False) for w in (8, 16, 32, 64)})
FLOATS = ("float16", "float32", "float64")
FREE = "real"     # not a Python type: spec-level


def eng():
    return E.ENG


def kind(t):
    if t in ("pybool", "bool"):
        return "b"
    if t in ("pyint",):
        return "i"
    if t in INTW:
        return "i" if INTW[t][1] else "u"
    if t in ("pyfloat",) or t in FLOATS:
        return "f"
    raise Unsupported(f"dtype {t}")


def is_py(t):
    return t.startswith("py")


def limits(t):
    w, s = INTW[t]
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


def promote(a, b):
    """numpy promote_types"""
    import numpy as np
    return np.promote_types(a, b).name


PYNP = {"pyint": "int64", "pyfloat": "float64", "pybool": "bool"}


def R(x):
    """exact z3 real for a concrete number"""
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            raise Unsupported("nan/inf constant")
        return z3.RealVal(Fraction(x))
    return z3.RealVal(x)


def toreal(e):
    if z3.is_bool(e):
        return z3.If(e, z3.RealVal(1), z3.RealVal(0))
    if e.is_int():
        if z3.is_int_value(e):
            return z3.RealVal(e.as_long())
        return z3.ToReal(e)
    return e


def toint_sort(e):
    if z3.is_bool(e):
        return z3.If(e, z3.IntVal(1), z3.IntVal(0))
    return e


class Sym:
    __slots__ = ("e", "t", "tag")
    __array_priority__ = 1000

    def __init__(self, e, t, tag=None):
        self.e = e
        self.t = t
        self.tag = tag

    def __getitem__(self, key):
        """numpy scalars are indexed like arrays without dimensions"""
        if is_py(self.t):
            raise TypeError(f"'{ {'pyint': 'int', 'pyfloat': 'float', 'pybool': 'bool'}[self.t]}' object is not subscriptable")
        from .arrays import SArr
        return SArr((), self.t, lambda idx: self.e)[key]

    # -- conversions -------------------------------------------------------
    def __bool__(self):
        return eng().branch(truth(self))

    def __index__(self):
        c = concrete(self)
        if isinstance(c, int):
            return c
        return fork_int(self)

    def __int__(self):
        raise Unsupported("int() on symbolic value outside the loader")

    def __float__(self):
        raise Unsupported("float() on symbolic value outside the loader")

    def __hash__(self):
        c = concrete(self)
        if c is not None:
            return hash(c)
        raise Unsupported("hash of a symbolic value")

    def __repr__(self):
        return f"<{self.t} {z3.simplify(self.e)}>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<sym>"

    # numpy-scalar style attributes
    @property
    def dtype(self):
        from .symnp import DT
        return DT.get(PYNP.get(self.t, self.t))

    shape = ()
    ndim = 0
    size = 1

    def item(self):
        return Sym(self.e, {"b": "pybool", "i": "pyint", "u": "pyint", "f": "pyfloat"}[kind(self.t)])

    def tolist(self):
        return self.item()

    def astype(self, dt, **k):
        return cast(self, dtname(dt))

    def copy(self):
        return self

    def clip(self, a=None, b=None, **kw):
        from . import symnp
        return symnp.clip(self, a, b, **kw)

    def reshape(self, *shape):
        from .arrays import as_array
        return as_array(self).reshape(*shape)

    def flatten(self):
        return self.reshape(-1)

    ravel = flatten

    def round(self, d=0):
        from . import symnp
        return symnp.round(self, d)

    def min(self): return self
    def max(self): return self
    def sum(self): return self
    def mean(self): return self

    @property
    def T(self):
        return self

    def is_integer(self):
        return Sym(z3.IsInt(toreal(self.e)), "pybool")

    def bit_length(self):
        raise Unsupported("bit_length")

    # -- arithmetic --------------------------------------------------------
    def __add__(s, o): return binop("+", s, o)
    def __radd__(s, o): return binop("+", o, s)
    def __sub__(s, o): return binop("-", s, o)
    def __rsub__(s, o): return binop("-", o, s)
    def __mul__(s, o): return repeat(o, s) if isinstance(o, (list, tuple)) else binop("*", s, o)
    def __rmul__(s, o): return repeat(o, s) if isinstance(o, (list, tuple)) else binop("*", o, s)
    def __truediv__(s, o): return binop("/", s, o)
    def __rtruediv__(s, o): return binop("/", o, s)
    def __floordiv__(s, o): return binop("//", s, o)
    def __rfloordiv__(s, o): return binop("//", o, s)
    def __mod__(s, o): return binop("%", s, o)
    def __rmod__(s, o): return binop("%", o, s)
    def __pow__(s, o): return binop("**", s, o)
    def __rpow__(s, o): return binop("**", o, s)
    def __lshift__(s, o): return binop("<<", s, o)
    def __rlshift__(s, o): return binop("<<", o, s)
    def __rshift__(s, o): return binop(">>", s, o)
    def __rrshift__(s, o): return binop(">>", o, s)
    def __and__(s, o): return binop("&", s, o)
    def __rand__(s, o): return binop("&", o, s)
    def __or__(s, o): return binop("|", s, o)
    def __ror__(s, o): return binop("|", o, s)
    def __xor__(s, o): return binop("^", s, o)
    def __lt__(s, o): return binop("<", s, o)
    def __le__(s, o): return binop("<=", s, o)
    def __gt__(s, o): return binop(">", s, o)
    def __ge__(s, o): return binop(">=", s, o)

    def __eq__(s, o):
        if o is None or isinstance(o, str):
            return False
        return binop("==", s, o)

    def __ne__(s, o):
        if o is None or isinstance(o, str):
            return True
        return binop("!=", s, o)

    def __neg__(s):
        return binop("-", 0, s) if kind(s.t) != "f" else Sym(-s.e, s.t)

    def __pos__(s): return s

    def __abs__(s):
        if kind(s.t) == "f":
            return Sym(z3.If(s.e >= 0, s.e, -s.e), s.t)
        e = toint_sort(s.e)
        t = "pyint" if s.t == "pybool" else s.t
        return wrap(z3.If(e >= 0, e, -e), t)

    def __invert__(s):
        if kind(s.t) == "b":
            return Sym(z3.Not(s.e), s.t)
        return Sym(-s.e - 1, s.t)

    def __round__(s, nd=None):
        if nd:
            raise Unsupported("round with digits")
        if kind(s.t) == "f":
            return Sym(half_even(s.e), "pyint")
        return s

    def __floor__(s): return Sym(floor_(s.e), "pyint")
    def __ceil__(s): return Sym(-floor_(-toreal(s.e)), "pyint")
    def __trunc__(s): return Sym(trunc_(s.e), "pyint")

    def __len__(self):
        raise TypeError("object of type has no len()")

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self


def dtname(dt):
    if isinstance(dt, str):
        return {"int": "int64", "float": "float64", "uint": "uint64"}.get(dt, dt)
    if dt is int:
        return "int64"
    if dt is float:
        return "float64"
    if dt is bool:
        return "bool"
    n = getattr(dt, "py_dtype", None)     # overridden int/float builtins of the loader
    if n:
        return n
    n = getattr(dt, "name", None) or getattr(dt, "__name__", None)
    if n in INTW or n in FLOATS or n == "bool":
        return n
    if n == "bool_":
        return "bool"
    raise Unsupported(f"dtype {dt!r}")


def concrete(x):
    """python value of a Sym whose term is a numeral (else None)"""
    if not isinstance(x, Sym):
        return x
    e = x.e
    if not (z3.is_int_value(e) or z3.is_rational_value(e) or z3.is_true(e) or z3.is_false(e)):
        e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


def fork_int(x, limit=600):
    """enumerate the possible concrete values of a bounded symbolic int"""
    en = eng()
    lo = None
    # find bounds by solver
    s = en.solver
    for k in range(limit):
        if en.pos < len(en.prefix):
            pass
        # deterministic enumeration from 0 upwards/downwards
        v = k // 2 if k % 2 == 0 else -(k // 2 + 1)
        if en.must(x.e != v):
            continue
        if en.branch(x.e == v):
            return v
        if en.must(z3.Or(x.e > limit, x.e < -limit)):
            break
    raise Unsupported("unbounded symbolic integer used where a concrete one is needed")


def truth(x):
    if isinstance(x, Sym):
        if z3.is_bool(x.e):
            return x.e
        return x.e != 0
    return bool(x)


def lift(x):
    """-> (expr, type) or None"""
    if isinstance(x, Sym):
        return x.e, x.t
    if isinstance(x, bool):
        return z3.BoolVal(x), "pybool"
    if isinstance(x, int):
        return z3.IntVal(int(x)), "pyint"
    if isinstance(x, (float, Fraction)):
        return R(x), "pyfloat"
    try:
        import numpy as np
        if isinstance(x, np.generic):
            if isinstance(x, np.bool_):
                return z3.BoolVal(bool(x)), "bool"
            if isinstance(x, np.integer):
                return z3.IntVal(int(x)), x.dtype.name
            if isinstance(x, np.floating):
                return R(float(x)), x.dtype.name
    except ImportError:
        pass
    return None


def sym(x, t=None):
    l = lift(x)
    if l is None:
        raise Unsupported(f"cannot lift {type(x).__name__} to a symbolic scalar")
    s = Sym(*l)
    return cast(s, t) if t else s


def as_int(e, depth=0):
    """Int term equal to e when e is structurally integral, else None"""
    if e.is_int():
        return e
    if z3.is_rational_value(e):
        return z3.IntVal(e.numerator_as_long()) if e.denominator_as_long() == 1 else None
    if depth > 30:
        return None
    k = e.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return e.arg(0)
    if k == z3.Z3_OP_ITE:
        a = as_int(e.arg(1), depth + 1)
        b = as_int(e.arg(2), depth + 1) if a is not None else None
        return z3.If(e.arg(0), a, b) if b is not None else None
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        ch = [as_int(c, depth + 1) for c in e.children()]
        if any(c is None for c in ch):
            return None
        if k == z3.Z3_OP_ADD:
            return z3.Sum(ch)
        if k == z3.Z3_OP_UMINUS:
            return -ch[0]
        r = ch[0]
        for c in ch[1:]:
            r = r - c if k == z3.Z3_OP_SUB else r * c
        return r
    return None


def floor_(e):
    if not z3.is_expr(e):
        e = R(e)
    if e.is_int():
        return e
    i = as_int(e)
    if i is not None:
        return i
    return z3.ToInt(e)


def known(c):
    """may a term be simplified because this condition holds? (never when the contract
    compares two executions term by term: both then keep the same form)"""
    en = eng()
    return en is not None and not en.scratch.get("plain_casts") and en.must(c)


def trunc_(e):
    if z3.is_bool(e):
        return toint_sort(e)
    i = as_int(e)
    if i is not None:
        return i
    if known(e >= 0):
        return z3.ToInt(e)
    return z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))


def half_even(e):
    """round-half-even of a real -> Int"""
    i = as_int(e)
    if i is not None:
        return i
    e = z3.simplify(e)
    r = RND(e)
    half = z3.Q(1, 2)
    d = z3.ToReal(r) - e
    eng().assume(z3.And(d <= half, -half <= d))
    eng().assume(z3.Implies(z3.Or(d == half, d == -half), r % 2 == 0))
    return r


RND = z3.Function("round_half_even", z3.RealSort(), z3.IntSort())


def wrap(e, t):
    """value of e stored in integer dtype t (exact two's complement wrap)"""
    if t not in INTW:
        return Sym(e, t)
    lo, hi = limits(t)
    if z3.is_int_value(e):
        v = e.as_long()
        m = 1 << INTW[t][0]
        return Sym(z3.IntVal((v - lo) % m + lo), t)
    if known(z3.And(e >= lo, e <= hi)):
        return Sym(e, t)
    m = 1 << INTW[t][0]
    return Sym(z3.If(z3.And(e >= lo, e <= hi), e, (e - lo) % m + lo), t)


MANT = {"float32": 24, "float16": 11}


def fround(e, t):
    """value of the real e stored in a narrow float type: exact for integers within
    the mantissa, otherwise an unknown value within half a unit of the last place"""
    if t not in MANT:
        return e
    p = MANT[t]
    if z3.is_rational_value(e):
        import numpy as _n
        v = Fraction(e.numerator_as_long(), e.denominator_as_long())
        r = Fraction(float(getattr(_n, t)(float(v))))
        return z3.Q(r.numerator, r.denominator)
    en = eng()
    i = as_int(e)
    if i is not None and known(z3.And(i <= 1 << p, i >= -(1 << p))):
        return e
    if z3.is_app(e) and e.decl().name() == "round_" + t:
        return e
    f = z3.Function("round_" + t, z3.RealSort(), z3.RealSort())
    v = f(e)
    a = z3.If(e >= 0, e, -e)
    b = a * z3.Q(1, 1 << p) + z3.Q(1, 1 << 149)
    en.assume(z3.And(v - e <= b, e - v <= b, z3.Implies(e >= 0, v >= 0), z3.Implies(e <= 0, v <= 0)))
    return v


_hv = [0]


def cast(s, t):
    """astype"""
    k0, k1 = kind(s.t), kind(t)
    if k1 == "b":
        return Sym(s.e if k0 == "b" else s.e != 0, t)
    if k1 == "f":
        return Sym(toreal(s.e) if s.t == t or s.t in MANT and MANT[s.t] < MANT.get(t, 99) else fround(toreal(s.e), t), t)
    if k0 == "f":
        e = trunc_(s.e)
        if t in INTW:
            lo, hi = limits(t)
            if known(z3.And(e >= lo, e <= hi)):
                return Sym(e, t)
            # out-of-range float -> int cast is platform dependent: any value
            fn = z3.Function(f"cvt_{t}", z3.RealSort(), z3.IntSort())
            v = fn(s.e)
            eng().assume(z3.And(v >= lo, v <= hi))
            return Sym(z3.If(z3.And(e >= lo, e <= hi), e, v), t)
        return Sym(e, t)
    e = toint_sort(s.e)
    return wrap(e, t) if t in INTW else Sym(e, t)


POW2 = z3.Function("pow2", z3.IntSort(), z3.IntSort())


def pow2(e):
    """2**e for e >= 0 as Int, with axioms instantiated"""
    if isinstance(e, int):
        return z3.IntVal(1 << e)
    e = z3.simplify(e)
    if z3.is_int_value(e):
        v = e.as_long()
        if v < 0 or v > 4000:
            raise Unsupported("pow2 of out-of-range constant")
        return z3.IntVal(1 << v)
    p = POW2(e)
    en = eng()
    seen = en.scratch.setdefault("pow2", [])
    ids = [x.get_id() for x in seen]
    if e.get_id() not in ids:
        en.assume(z3.Implies(e >= 0, p >= 1))
        en.assume(z3.Implies(e >= 1, p >= 2))
        en.assume(z3.Implies(e >= 0, p > e))
        # monotonicity + recursion with other instances
        for y in seen:
            q = POW2(y)
            en.assume(z3.Implies(z3.And(e >= 0, y > e), q >= 2 * p))
            en.assume(z3.Implies(z3.And(y >= 0, e > y), p >= 2 * q))
            en.assume(z3.Implies(e == y, p == q))
            d = z3.simplify(y - e)
            if z3.is_int_value(d) and 0 < abs(d.as_long()) < 4000:
                dv = d.as_long()
                if dv > 0:
                    en.assume(z3.Implies(e >= 0, q == p * (1 << dv)))
                else:
                    en.assume(z3.Implies(y >= 0, p == q * (1 << -dv)))
        for c in (0, 1, 7, 8, 15, 16, 30, 31, 32, 62, 63):
            en.assume(z3.Implies(e == c, p == (1 << c)))
            en.assume(z3.Implies(e > c, p >= (2 << c)))
            en.assume(z3.Implies(z3.And(e >= 0, e < c), 2 * p <= (1 << c)))
        seen.append(e)
    return p


CMP = {"<", "<=", ">", ">=", "==", "!="}


def result_type(op, ta, tb):
    if op in CMP:
        return "pybool" if is_py(ta) and is_py(tb) else "bool"
    if is_py(ta) and is_py(tb):
        ka, kb = kind(ta), kind(tb)
        if op == "/":
            return "pyfloat"
        if op in ("&", "|", "^") and ka == kb == "b":
            return "pybool"
        if "f" in (ka, kb):
            return "pyfloat"
        return "pyint"
    r = promote(PYNP.get(ta, ta), PYNP.get(tb, tb))
    if op == "/" and kind(r) != "f":
        return "float64"
    if r == "bool" and op not in ("&", "|", "^", "+", "*"):
        return "int8"
    return r


def binop(op, a, b, rt=None):
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        return NotImplemented
    if op == "==" and a is b:
        return Sym(z3.BoolVal(True), result_type(op, la[1], lb[1]))
    t = rt or result_type(op, la[1], lb[1])
    return apply_op(op, la, lb, t)


def mk_eq(x, y):
    return x == y


def apply_op(op, la, lb, t):
    (ea, ta), (eb, tb) = la, lb
    if op in CMP:
        if z3.is_bool(ea) and z3.is_bool(eb) and op in ("==", "!="):
            r = ea == eb
            return Sym(r if op == "==" else z3.Not(r), t)
        ea, eb = toint_sort(ea), toint_sort(eb)
        if ea.is_int() != eb.is_int():
            ea, eb = toreal(ea), toreal(eb)
        r = {"<": lambda: ea < eb, "<=": lambda: ea <= eb, ">": lambda: ea > eb,
             ">=": lambda: ea >= eb, "==": lambda: ea == eb, "!=": lambda: ea != eb}[op]()
        return Sym(r, t)
    k = kind(t)
    if op in ("&", "|", "^"):
        if k == "b":
            r = {"&": z3.And(ea, eb), "|": z3.Or(ea, eb), "^": z3.Xor(ea, eb)}[op]
            return Sym(r, t)
        return bitop(op, toint_sort(ea), toint_sort(eb), t)
    if k == "b":     # numpy bool + , *
        return Sym(z3.Or(ea, eb) if op == "+" else z3.And(ea, eb), t)
    if k == "f":
        ea, eb = toreal(ea), toreal(eb)
        if op == "+":
            return Sym(fround(ea + eb, t), t)
        if op == "-":
            return Sym(fround(ea - eb, t), t)
        if op == "*":
            return Sym(fround(ea * eb, t), t)
        if op == "/":
            return Sym(fround(div(ea, eb, is_py(t)), t), t)
        if op == "//":
            nz(eb, is_py(t))
            return Sym(toreal(z3.ToInt(div(ea, eb, is_py(t)))), t)
        if op == "%":
            nz(eb, is_py(t))
            return Sym(ea - eb * toreal(z3.ToInt(div(ea, eb, is_py(t)))), t)
        if op == "**":
            return power(ea, eb, t, tb)
        raise Unsupported(f"float {op}")
    ea, eb = toint_sort(ea), toint_sort(eb)
    if op == "+":
        return wrap(ea + eb, t)
    if op == "-":
        return wrap(ea - eb, t)
    if op == "*":
        return wrap(ea * eb, t)
    if op == "/":
        return Sym(div(toreal(ea), toreal(eb), is_py(t)), "pyfloat" if is_py(t) else t)
    if op in ("//", "%"):
        if z3.is_int_value(eb) and eb.as_long() != 0:
            c = eb.as_long()
            q = (ea / eb) if c > 0 else floordiv(ea, eb)
        else:
            nz(eb, is_py(t))
            q = floordiv(ea, eb)
        return wrap(q, t) if op == "//" else wrap(ea - eb * q, t)
    if op == "**":
        return power(ea, eb, t, tb)
    if op == "<<":
        if is_py(t) and not eng().must(eb >= 0):
            if eng().branch(eb < 0):
                raise ValueError("negative shift count")
        if not is_py(t):
            w = INTW[t][0]
            if not eng().must(z3.And(eb >= 0, eb < w)):
                if eng().branch(z3.Not(z3.And(eb >= 0, eb < w))):
                    return havoc_int(t, "shl")
        return wrap(ea * pow2(eb), t)
    if op == ">>":
        if is_py(t) and not eng().must(eb >= 0):
            if eng().branch(eb < 0):
                raise ValueError("negative shift count")
        if not is_py(t):
            w = INTW[t][0]
            if not eng().must(z3.And(eb >= 0, eb < w)):
                if eng().branch(z3.Not(z3.And(eb >= 0, eb < w))):
                    return havoc_int(t, "shr")
        return Sym(floordiv_pos(ea, pow2(eb)), t)
    raise Unsupported(f"int {op}")


def floordiv_pos(a, b):
    """floor(a/b), b > 0"""
    if z3.is_int_value(b):
        return a / b
    en = eng()
    key = ("fd", z3.simplify(a).get_id(), z3.simplify(b).get_id())
    d = en.scratch.setdefault("fdiv", {})
    if key in d:
        return d[key][0]
    FD = z3.Function("fdiv", z3.IntSort(), z3.IntSort(), z3.IntSort())
    q = FD(z3.simplify(a), z3.simplify(b))
    en.assume(z3.Implies(b > 0, z3.And(q * b <= a, a < q * b + b)))
    d[key] = (q, a, b)
    return q


def floordiv(a, b):
    en = eng()
    if en.must(b > 0):
        return floordiv_pos(a, b)
    if en.must(b < 0):
        return floordiv_pos(-a, -b)
    if en.branch(b > 0):
        return floordiv_pos(a, b)
    return floordiv_pos(-a, -b)


def nz(eb, py):
    if z3.is_int_value(eb) or z3.is_rational_value(eb):
        v = concrete(Sym(eb, "pyint"))
        if v != 0:
            return
    if py:
        if eng().branch(eb == 0):
            raise ZeroDivisionError("division by zero")
    else:
        if eng().branch(eb == 0):
            eng().path_notes.append("division by zero")
            raise Unsupported("numpy division by zero is not modelled")


def div(a, b, py):
    """real division; python raises on 0, numpy gives inf/nan (havoc'd)"""
    if z3.is_rational_value(b):
        if b.numerator_as_long() != 0:
            return a / b
        if py:
            raise ZeroDivisionError("division by zero")
    en = eng()
    if en.must(b != 0):
        return a / b
    if py:
        if en.branch(b == 0):
            raise ZeroDivisionError("division by zero")
        return a / b
    if en.branch(b == 0):
        en.trust("numpy division by zero yields an unspecified (havoc'd) value")
        return z3.Real(en.fresh_name("divzero"))
    return a / b


def power(a, b, t, tb):
    c = concrete(Sym(b, "pyfloat"))
    if c is not None and c == int(c) and 0 <= c <= 8:
        c = int(c)
        one = z3.RealVal(1) if kind(t) == "f" else z3.IntVal(1)
        r = one
        for _ in range(c):
            r = r * a
        return wrap(r, t) if kind(t) != "f" else Sym(r, t)
    ca = concrete(Sym(a, "pyfloat"))
    if ca is not None and ca == 2:
        bi = b
        if not b.is_int():
            raise Unsupported("2**float")
        en = eng()
        if t == "pyint":
            if en.branch(bi >= 0):
                return Sym(pow2(bi), t)
            return Sym(1 / z3.ToReal(pow2(-bi)), "pyfloat")
        if kind(t) == "f":
            if en.branch(bi >= 0):
                return Sym(z3.ToReal(pow2(bi)), t)
            return Sym(1 / z3.ToReal(pow2(-bi)), t)
        return wrap(pow2(bi), t)
    if c is not None and kind(t) == "f" and c < 0 and c == int(c):
        r = power(a, z3.RealVal(-int(c)), t, tb)
        return Sym(div(z3.RealVal(1), r.e, is_py(t)), t)
    if ca is not None and ca == 10:
        e = b if b.is_int() else b.arg(0) if b.decl().kind() == z3.Z3_OP_TO_REAL else None
        if e is not None:
            return Sym(pow10(e), t if kind(t) == "f" else "pyfloat")
    P = z3.Function("rpow", z3.RealSort(), z3.RealSort(), z3.RealSort())
    p = P(toreal(a), toreal(b))
    eng().assume(z3.Implies(toreal(a) > 0, p > 0))
    return Sym(p, t if kind(t) == "f" else "pyfloat")


def pow10(e):
    """10**e for an integer e of any sign, as Real, with axioms instantiated"""
    e = z3.simplify(e)
    p = z3.Function("pow10", z3.IntSort(), z3.RealSort())(e)
    en = eng()
    seen = en.scratch.setdefault("pow10", [])
    if z3.is_int_value(e):
        k = e.as_long()
        return z3.Q(10 ** k, 1) if k >= 0 else z3.Q(1, 10 ** -k)
    if e.get_id() not in [x.get_id() for x in seen]:
        en.assume(p > 0)
        for c in range(-3, 4):
            one = z3.Q(10 ** c, 1) if c >= 0 else z3.Q(1, 10 ** -c)
            en.assume(z3.Implies(e >= c, p >= one))
            en.assume(z3.Implies(e <= c, p <= one))
        for y in seen:
            q = z3.Function("pow10", z3.IntSort(), z3.RealSort())(y)
            for d, l, r in ((z3.simplify(y - e), q, p), (z3.simplify(y + e), q * p, z3.RealVal(1))):
                if z3.is_int_value(d) and abs(d.as_long()) < 400:
                    k = d.as_long()
                    en.assume(l == r * (10 ** k) if k >= 0 else l * (10 ** -k) == r)
        seen.append(e)
    return p


def f_log10(x, t):
    """log10 of a positive number: 10**floor(log10(x)) <= x < 10**(floor(log10(x)) + 1)"""
    def ax(e, v):
        k = z3.simplify(z3.ToInt(v))
        return [z3.Implies(e > 0, z3.And(pow10(k) <= e, e < 10 * pow10(k)))]
    return uf1("log10", x, ax, t)


def havoc_int(t, base="h"):
    v = z3.Int(eng().fresh_name(base))
    lo, hi = limits(t)
    eng().assume(z3.And(v >= lo, v <= hi))
    return Sym(v, t)


def bitop(op, a, b, t):
    ca, cb = concrete(Sym(a, "pyint")), concrete(Sym(b, "pyint"))
    if ca is not None and cb is not None:
        return Sym(z3.IntVal({"&": ca & cb, "|": ca | cb, "^": ca ^ cb}[op]), t)
    if op == "&" and cb is not None and cb >= 0 and (cb + 1) & cb == 0:
        return Sym(a % (cb + 1), t)
    if op == "&" and ca is not None and ca >= 0 and (ca + 1) & ca == 0:
        return Sym(b % (ca + 1), t)
    w = INTW[t][0] if t in INTW else 64
    x, y = z3.Int2BV(a, w), z3.Int2BV(b, w)
    r = {"&": x & y, "|": x | y, "^": x ^ y}[op]
    return Sym(z3.BV2Int(r, is_signed=kind(t) == "i"), t)


# ------------------------------------------------------- elementary functions
def uf1(name, x, axioms=None, t="float64"):
    f = z3.Function(name, z3.RealSort(), z3.RealSort())
    e = toreal(x.e if isinstance(x, Sym) else lift(x)[0])
    v = f(e)
    en = eng()
    seen = en.scratch.setdefault("uf:" + name, {})
    k = z3.simplify(e).get_id()
    if k not in seen:
        seen[k] = e
        if axioms:
            for c in axioms(e, v):
                en.assume(c)
    return Sym(v, t)


def f_exp(x, t="float64"):
    return uf1("exp", x, lambda e, v: [v > 0, z3.Implies(e <= 0, v <= 1), z3.Implies(e >= 0, v >= 1)], t)


def f_tanh(x, t="float64"):
    return uf1("tanh", x, lambda e, v: [v > -1, v < 1, z3.Implies(e >= 0, v >= 0), z3.Implies(e <= 0, v <= 0)], t)


def ite(c, a, b):
    """symbolic conditional on lifted scalars of the same kind"""
    return z3.If(c, a, b)


def repeat(lst, n):
    """[x] * n of symbolic length"""
    if not isinstance(lst, list) or len(lst) != 1 or kind(n.t) != "i":
        return NotImplemented
    from .arrays import SList, dim
    c = concrete(n)
    if c is not None:
        return lst * int(c)
    en = eng()
    m = n.e if en.branch(n.e >= 0) else z3.IntVal(0)
    return SList(dim(m), lambda i: lst[0])


def unused(name):
    """the name itself, or a fresh variant when this path already has it"""
    en = eng()
    u = en.scratch.setdefault("names", set())
    if name in u:
        name = en.fresh_name(name)
    u.add(name)
    return name


def new_int(name, lo=None, hi=None, t="pyint", track=True):
    name = unused(name)
    v = z3.Int(name)
    en = eng()
    if lo is not None:
        en.assume(v >= (lo.e if isinstance(lo, Sym) else lo))
    if hi is not None:
        en.assume(v <= (hi.e if isinstance(hi, Sym) else hi))
    if t in INTW:
        a, b = limits(t)
        en.assume(z3.And(v >= a, v <= b))
    cl = [x for x in (lo if isinstance(lo, int) else None, limits(t)[0] if t in INTW else None) if x is not None]
    ch = [x for x in (hi if isinstance(hi, int) else None, limits(t)[1] if t in INTW else None) if x is not None]
    en.scratch.setdefault("ranges", {})[name] = (max(cl) if cl else None, min(ch) if ch else None)
    s = Sym(v, t)
    if track:
        en.track(name, s)
    return s


def interval(e, depth=0):
    """constant bounds of an integer term from declared ranges of its atoms (None: unknown)"""
    rg = eng().scratch.get("ranges", {})
    if z3.is_int_value(e):
        return e.as_long(), e.as_long()
    if not z3.is_app(e) or depth > 40:
        return None, None
    k, ch = e.decl().kind(), e.children()
    iv = lambda c: interval(c, depth + 1)
    if k == z3.Z3_OP_UNINTERPRETED:
        return rg.get(e.decl().name(), (None, None))
    if k == z3.Z3_OP_ADD:
        a = [iv(c) for c in ch]
        return (None if any(x[0] is None for x in a) else sum(x[0] for x in a),
                None if any(x[1] is None for x in a) else sum(x[1] for x in a))
    if k == z3.Z3_OP_SUB:
        a = [iv(c) for c in ch]
        lo = None if a[0][0] is None or any(x[1] is None for x in a[1:]) else a[0][0] - sum(x[1] for x in a[1:])
        hi = None if a[0][1] is None or any(x[0] is None for x in a[1:]) else a[0][1] - sum(x[0] for x in a[1:])
        return lo, hi
    if k == z3.Z3_OP_UMINUS:
        lo, hi = iv(ch[0])
        return (None if hi is None else -hi), (None if lo is None else -lo)
    if k == z3.Z3_OP_MUL:
        r = (1, 1)
        for c in ch:
            b = iv(c)
            if None in r or None in b:
                return None, None
            ps = [x * y for x in r for y in b]
            r = min(ps), max(ps)
        return r
    if k == z3.Z3_OP_ITE:
        a, b = iv(ch[1]), iv(ch[2])
        return (None if None in (a[0], b[0]) else min(a[0], b[0])), (None if None in (a[1], b[1]) else max(a[1], b[1]))
    return None, None


def new_real(name, pos=False, t="pyfloat", track=True):
    name = unused(name)
    v = z3.Real(name)
    en = eng()
    if pos:
        en.assume(v > 0)
    s = Sym(v, t)
    if track:
        en.track(name, s)
    return s
