"""helpers shared by the contracts"""
import re
import z3
from pvc import engine as E, terms as T, arrays as A, symnp, loader as L
from pvc.engine import Unsupported, PathEnd
from pvc.terms import Sym, new_int, new_real, toreal, kind, limits
from pvc.arrays import SArr, SList, OShape, new_array, fresh_index, as_array, ix, dim

TYPES32 = [f"{s}{w}" for w in range(1, 33) for s in ("int", "uint")]
KEYTYPES = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int4", "uint4", "int1", "uint1", "int2", "int24", "uint31"]


NUMPY = ["np.int8", "np.uint8", "np.int16", "np.uint16", "np.int32", "np.uint32"]      # given as numpy's own types


def given(ld, name):
    """a type as it is passed to Quantization"""
    return getattr(ld.np, name[3:]) if name.startswith("np.") else name


def tlimits(name):
    name = name.removeprefix("np.")
    s = name.startswith("int")
    w = int(name.strip("uint"))
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


def scalar_or_el(x, *idx):
    """Sym of an element of x (array, list or scalar)"""
    if isinstance(x, SArr):
        return x.el(*idx) if x.shape_ != () else x.scalar()
    if isinstance(x, SList):
        return T.sym(x.get(ix(idx[0])))
    return T.sym(x)


def same_shape(en, name, out, inp):
    if isinstance(inp, SArr):
        if not isinstance(out, SArr):
            en.prove(name, False, detail=f"result is {type(out).__name__}")
            return False
        a, b = out.shape_, inp.shape_
        if a is b:
            return en.prove(name, True)
        if isinstance(a, OShape) or isinstance(b, OShape) or len(a) != len(b):
            en.prove(name, False, detail=f"{a} vs {b}")
            return False
        return en.prove(name, z3.And(*[ix(x) == ix(y) for x, y in zip(a, b)]) if a else True)
    ok = isinstance(out, Sym) or (isinstance(out, SArr) and out.shape_ == ()) or isinstance(out, (int, float))
    return en.prove(name, bool(ok), detail=f"result is {out!r}")


def clipz(e, lo, hi):
    return z3.If(e < lo, lo if z3.is_expr(lo) else z3.IntVal(lo), z3.If(e > hi, hi if z3.is_expr(hi) else z3.IntVal(hi), e))


def nearest_up(t):
    """nearest integer, ties upward"""
    return z3.ToInt(t + z3.Q(1, 2))


def quantize_spec(x, s, zp, lo, hi):
    """the exact specification of quantisation of a real"""
    t = toreal(x) / toreal(s) + toreal(zp)
    return clipz(nearest_up(t), lo, hi)


def unchanged(en, name, arr, fn0):
    i = [fresh_index() for _ in ([0] if isinstance(arr.shape_, OShape) else arr.shape_)]
    en.prove(name, arr.at(*i) == fn0(tuple(i)))


def in_range(e, lo, hi):
    return z3.And(e >= lo, e <= hi)


def absz(e):
    return z3.If(e >= 0, e, -e)


_MUL = {}


def mulmono(en, a, b, s):
    """lemma (checked once): a <= b and s >= 0 imply a*s <= b*s; used at (a,b,s)"""
    if "ok" not in _MUL:
        x, y, z = z3.Reals("lem_x lem_y lem_z")
        sv = z3.Solver()
        sv.set("timeout", 10000)
        sv.add(x <= y, z >= 0, x * z > y * z)
        if sv.check() != z3.unsat:
            raise Unsupported("lemma mulmono not established")
        _MUL["ok"] = True
    a, b, s = (z3.RealVal(v) if isinstance(v, int) else toreal(v) for v in (a, b, s))
    en.assume(z3.Implies(z3.And(a <= b, s >= 0), a * s <= b * s))


def invpos(en, s):
    pass


def int_forms(tname, form, lo, hi, base="q"):
    """codes of a type in one of the argument forms; returns (X, index->z3 int, indices)"""
    if form == "list":
        n = new_int("n", 1)
        F = new_array(base, (n,), "int64", lo, hi)
        X = SList(n, lambda i: F.el(i).item())
        i = (fresh_index(0, n),)
        return X, F.at(*i), i
    if form == "scalar":
        X = new_int(base, lo, hi)
        return X, X.e, ()
    dt = {"array": "int64", "own": tname, "int32": "int32"}[form]
    X = new_array(base, OShape("S"), dt, lo, hi)
    i = (fresh_index(0, X.shape_.size),)
    return X, X.at(*i), i


def nested(arr, *idx):
    """the array as (nested) Python lists, as json or tolist() give it"""
    d = arr.shape_[len(idx)]
    if len(idx) == len(arr.shape_) - 1:
        return SList(d, lambda i: Sym(arr.at(*idx, i), arr.t).item())
    return SList(d, lambda i: nested(arr, *idx, i))


def define(en, name, term):
    """a name for a term (conservative: the constant is fresh)"""
    v = z3.Const(en.fresh_name(name), term.sort())
    en.assume(v == term)
    return v


_LEM = {}


def by_lemma(en, name, premises, goal):
    """premises (proved here) entail the goal by a separate lemma over the same
    variables, proved without any other fact; the goal is a fact afterwards"""
    ok = True
    for p in premises:
        ok = en.prove(name + ": premise", p) and ok
    key = z3.Implies(z3.And(*premises), goal).sexpr()
    names = {}
    key = re.sub(r"[A-Za-z_][A-Za-z_0-9]*![0-9]+", lambda m: names.setdefault(m.group(0), f"v{len(names)}"), key)
    if key not in _LEM:
        sv = z3.Solver()
        sv.set("timeout", 30000)
        sv.add(*premises)
        sv.add(z3.Not(goal))
        r = sv.check()
        if r == z3.unknown:
            r = {"unsat": z3.unsat}.get(en._cvc5(sv, 20000), r)
        _LEM[key] = r == z3.unsat
    if _LEM[key] and ok:
        en.assume(goal)
        return en.prove(name, goal)
    return en.prove(name, goal)


def random_module(ld):
    """the module random: every draw is an arbitrary element of the documented range"""
    import types as _t
    m = _t.ModuleType("random")
    unit = lambda: Sym(_unit().e, "pyfloat")

    def _unit():
        r = new_real("random")
        E.ENG.assume(z3.And(r.e >= 0, r.e < 1))
        return r

    def randint(a, b):
        E.ENG.prove("draw from a non-empty range", ix(a) <= ix(b))
        return new_int("draw", T.sym(a), T.sym(b))

    def randrange(start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        if step != 1:
            from pvc.terms import Unsupported
            raise Unsupported("randrange with a step")
        E.ENG.prove("draw from a non-empty range", ix(start) < ix(stop))
        return new_int("draw", T.sym(start), Sym(z3.simplify(ix(stop) - 1), "pyint"))

    def choice(seq):
        if isinstance(seq, (list, tuple)):
            return seq[E.ENG.choose(len(seq), "choice")] if len(seq) < 8 else None
        return seq[randrange(0, len(seq))]
    m.random, m.randint, m.randrange, m.choice = unit, randint, randrange, choice
    m.uniform = lambda a, b: a + (b - a) * unit()
    m.getrandbits = lambda k: randint(0, 2 ** k - 1)
    m.seed = lambda *a: None
    ld.modules["random"] = m
    return m


def after_another(h):
    """h after an earlier, independent use of the same code (arbitrary other values): nothing of it is left behind"""
    def g(en, ld):
        from pvc.loader import LOOP_SPECS
        n, mine = len(LOOP_SPECS), {k: en.__dict__.get(k) for k in ("prove", "cover")}
        en.prove, en.cover = (lambda *a, **k: True), (lambda *a, **k: None)
        try:
            h(en, ld)
        except Unsupported:
            raise
        except Exception:
            pass                     # a failing use: its own harness reports it
        finally:
            for k, v in mine.items():
                if v is None:
                    en.__dict__.pop(k, None)
                else:
                    setattr(en, k, v)
            del LOOP_SPECS[n:]
        h(en, ld)
    return g


def histories(hs, *names):
    """the named harnesses after another use"""
    d = {x[0]: x for x in hs}
    return [(f"{n}, after another use", after_another(d[n][1]), *d[n][2:]) for n in names]
