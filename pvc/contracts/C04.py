"""C04: integer type names denote exact widths and limits."""
import re as _re
from .common import *
from pvc.loader import SStr, Dec, Opq, LOWER, CAT, DEC, TXT, lit

REPS = ["7", "42", "100", "65537", "9" * 25]


def rope_regex(fn, pat, s):
    """regex over literal/decimal ropes: the real regex is run with several
    representative numerals; matches must fall on the same pieces each time"""
    E.ENG.trust("regular expressions treat every decimal numeral of a type name alike (checked on 5 numerals)")
    outs = []
    for r in REPS:
        txt, marks = "", []
        for p in s.parts:
            q = r if isinstance(p, Dec) else p
            marks.append((len(txt), len(txt) + len(q)))
            txt += q

        def lift(a, b):
            if a < 0:
                return None
            parts = []
            for (x, y), p in zip(marks, s.parts):
                lo, hi = max(a, x), min(b, y)
                if lo >= hi:
                    continue
                if isinstance(p, Dec):
                    if (lo, hi) != (x, y):
                        raise Unsupported(f"regex {pat!r} splits a numeral")
                    parts.append(("d", s.parts.index(p)))
                else:
                    parts.append(("s", p[lo - x:hi - x]))
            return tuple(parts)
        if fn == "findall":
            rx = _re.compile(pat)
            if rx.groups > 1:
                o = tuple(tuple(lift(*m.span(k + 1)) for k in range(rx.groups)) for m in rx.finditer(txt))
            else:
                o = tuple((lift(*m.span(rx.groups)),) for m in rx.finditer(txt))
        else:
            m = getattr(_re, fn)(pat, txt)
            o = None if m is None else tuple(lift(*m.span(k)) for k in range((m.re.groups) + 1))
        outs.append(o)
    if any(o != outs[0] for o in outs):
        raise Unsupported(f"regex {pat!r} depends on the numeral")

    def back(t):
        return None if t is None else SStr.make([s.parts[v] if k == "d" else v for k, v in t])
    o = outs[0]
    if fn == "findall":
        return [back(t[0]) if len(t) == 1 else tuple(back(x) for x in t) for t in o]
    if o is None:
        return None

    class M:
        def group(self, *k):
            return back(o[k[0] if k else 0]) if len(k) < 2 else tuple(back(o[x]) for x in k)

        def groups(self):
            return tuple(back(x) for x in o[1:])
        __getitem__ = group
    return M()


class OpaqueList:
    """unknown list of matches in an arbitrary string"""

    def __init__(self, pat):
        self.pat = pat
        self.first = None

    def __getitem__(self, k):
        if k != 0:
            raise Unsupported("index of a match list")
        if self.first is None:
            en = E.ENG
            if en.branch(z3.Bool(en.fresh_name("nomatch"))):
                raise IndexError("list index out of range")
            o = Opq(z3.Const(en.fresh_name("match"), TXT))
            o.digits = self.pat in (r"\d+", "[0-9]+")
            self.first = SStr([o])
        return self.first

    def __len__(self):
        raise Unsupported("length of a match list")
    __iter__ = __bool__ = __len__


def opaque_regex(fn, pat, s):
    if fn != "findall":
        raise Unsupported(f"re.{fn} on an arbitrary string")
    return OpaqueList(pat)


def wellformed(kd, case):
    def h(en, ld):
        ops = ld.load("itcl_quantization.quantization.operators")
        en.scratch["re_contract"] = rope_regex
        n = new_int("width", 1)
        en.cover("precondition")
        lit = {"lower": kd, "upper": kd.upper(), "title": kd.title()}[case]
        name = SStr([lit, Dec(n.e)])
        d = ops.GenericDtype(name)
        q = ops.Quantization(name)
        P, P1 = T.pow2(n.e), T.pow2(n.e - 1)
        lo, hi = (-P1, P1 - 1) if kd == "int" else (z3.IntVal(0), P - 1)
        for nm, got, want in (("min", d.min(), lo), ("max", d.max(), hi), ("min_value", q.min_value(), lo), ("max_value", q.max_value(), hi)):
            g = T.sym(got)
            en.prove(f"{nm} is a Python integer", g.t == "pyint")
            en.prove(f"{nm} exact", g.e == want)
        for o in (d, q.dtype):
            t = o.__str__()
            en.prove("name reported", isinstance(t, str) and SStr.make([kd, Dec(n.e)]) == t)
        t = q.dtype_str()
        en.prove("dtype_str", isinstance(t, str) and SStr.make([kd, Dec(n.e)]) == t)
    return h


def rejection(en, ld):
    ops = ld.load("itcl_quantization.quantization.operators")
    en.scratch["re_contract"] = opaque_regex
    s = z3.Const("name", TXT)
    en.cover("precondition")
    try:
        d = ops.GenericDtype(SStr([Opq(s)]))
    except Exception:
        en.prove("rejected", True)
        return
    low = LOWER(s)
    forms = [z3.And(b >= 1, low == CAT(lit(k), DEC(b))) for b in en.scratch.get("decimals", []) for k in ("int", "uint", "float")]
    en.prove("an accepted name is int, uint or float followed by a positive decimal width", z3.Or(*forms) if forms else False)
    P = [(b, T.pow2(b), T.pow2(b - 1)) for b in en.scratch.get("decimals", [])]
    lo, hi = T.sym(d.min()).e, T.sym(d.max()).e
    en.prove("and its limits are those of its kind and width", z3.Or(*[z3.And(low == CAT(lit(k), DEC(b)), lo == (-p1 if k == "int" else 0), hi == (p1 - 1 if k == "int" else p - 1))
                                                                      for b, p, p1 in P for k in ("int", "uint", "float")]))


def saturate(tname):
    def h(en, ld):
        q = ld.load("itcl_quantization.quantization.operators").Quantization(tname)
        lo, hi = tlimits(tname)
        en.prove("limits", q.min_value() == lo and q.max_value() == hi)
        X = new_array("x", OShape("S"), "float64")
        r = q.round(X)
        i = fresh_index(0, X.shape_.size)
        en.prove("saturation uses the limits of the type", r.at(i) == clipz(nearest_up(toreal(X.at(i))), lo, hi))
    return h


def numpy_types(en, ld):
    ops = ld.load("itcl_quantization.quantization.operators")
    import numpy
    for t in ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"):
        d = ops.GenericDtype(getattr(ld.np, t))
        lo, hi = limits(t)
        en.prove(f"{t} limits", int(d.min()) == lo and int(d.max()) == hi)
    for bad in ("int", "8", "", "int08", "int-8", "xint8", "int8x", "int 8", "byte8", "int0", "uint0", "8int", "int8.5"):
        try:
            ops.GenericDtype(bad)
            en.prove(f"{bad!r} rejected", False)
        except Exception:
            en.prove(f"{bad!r} rejected", True)


HARNESSES = [(f"limits[{k},{c}]", wellformed(k, c)) for k in ("int", "uint") for c in ("lower", "upper", "title")]
HARNESSES += [("rejection", rejection, {"standin": "malformed names enumerated and generated by mutation (concrete runner)"})]
HARNESSES += [(f"saturation[{t}]", saturate(t)) for t in TYPES32]
HARNESSES += [("numpy types", numpy_types)]
