"""C05: checked arithmetic is exact or widens."""
from .common import *

FORMS = ["same", "vec", "mat-row", "row-mat", "scalar-arr", "arr-scalar", "npscalar", "pyint"]


def operands(en, form, ta, tb):
    la, lb = tlimits(ta), tlimits(tb)
    if form == "same":
        sh = OShape("S")
        A_, B_ = new_array("a", sh, ta), new_array("b", sh, tb)
        i = (fresh_index(0, sh.size),)
        return A_, B_, A_.at(*i), B_.at(*i), i, sh
    if form == "vec":
        n = new_int("n", 1)
        A_, B_ = new_array("a", (n,), ta), new_array("b", (n,), tb)
        i = (fresh_index(0, n),)
        return A_, B_, A_.at(*i), B_.at(*i), i, (n,)
    if form in ("mat-row", "row-mat"):
        n, m = new_int("n", 1), new_int("m", 1)
        M, Rr = (n, m), (m,)
        A_ = new_array("a", M if form == "mat-row" else Rr, ta)
        B_ = new_array("b", Rr if form == "mat-row" else M, tb)
        i = (fresh_index(0, n), fresh_index(0, m))
        return A_, B_, A_.at(*(i if form == "mat-row" else i[1:])), B_.at(*(i[1:] if form == "mat-row" else i)), i, M
    if form in ("scalar-arr", "arr-scalar"):
        sh = OShape("S")
        i = (fresh_index(0, sh.size),)
        if form == "scalar-arr":
            a = new_int("a", *la, t=ta)
            B_ = new_array("b", sh, tb)
            return a, B_, a.e, B_.at(*i), i, sh
        A_ = new_array("a", sh, ta)
        b = new_int("b", *lb, t=tb)
        return A_, b, A_.at(*i), b.e, i, sh
    t = form == "pyint"
    a, b = new_int("a", *la, t="pyint" if t else ta), new_int("b", *lb, t="pyint" if t else tb)
    return a, b, a.e, b.e, (), ()


def mk(op, ta, tb, form):
    def h(en, ld):
        D = ld.load("itcl_quantization.quantization.operators").Dtype
        a, b, ea, eb, i, sh = operands(en, form, ta, tb)
        en.cover("precondition")
        en.track("a", ea)
        en.track("b", eb)
        fa = a.snapshot() if isinstance(a, SArr) else None
        fb = b.snapshot() if isinstance(b, SArr) else None
        x, y = D(a, ta), D(b, tb)
        r = x + y if op == "add" else x - y if op == "sub" else x * y
        exact = ea + eb if op == "add" else ea - eb if op == "sub" else ea * eb
        v = r.value
        e = scalar_or_el(v, *i)
        if isinstance(v, SArr):
            if isinstance(sh, OShape):
                en.prove("shape of the broadcast operands", v.shape_ is sh)
            else:
                en.prove("shape of the broadcast operands", z3.And(*[ix(p) == ix(q) for p, q in zip(v.shape_, sh)]) if len(v.shape_) == len(sh) else False)
        else:
            en.prove("shape of the broadcast operands", sh == ())
        en.prove("exact result", e.e == exact)
        dt = T.dtname(r.dtype)
        lo, hi = limits(dt)
        en.prove("reported type holds the result", in_range(exact, lo, hi))
        en.prove("reported type is not narrower than the operands", hi >= max(limits(ta)[1], limits(tb)[1]))
        en.prove("bits, limits and name of the reported type", int(r.bits) == int(dt.strip("uint")) and int(r.min()) == lo and int(r.max()) == hi and str(r) == dt)
        if fa:
            unchanged(en, "left operand not modified", a, fa)
        if fb:
            unchanged(en, "right operand not modified", b, fb)
    return h


def fn(op, t, form):
    def h(en, ld):
        ops = ld.load("itcl_quantization.quantization.operators")
        f = getattr(ops, f"{t}_{'addition' if op == 'add' else 'multiplication'}")
        a, b, ea, eb, i, sh = operands(en, form, t, t)
        en.cover("precondition")
        en.track("a", ea)
        en.track("b", eb)
        r = f(a, b)
        e = scalar_or_el(r, *i)
        exact = ea + eb if op == "add" else ea * eb
        en.prove("exact result", e.e == exact)
        lo, hi = limits(e.t)
        en.prove("result type holds the result", in_range(exact, lo, hi))
    return h


W = ["int8", "int16", "int32"]
HARNESSES = [(f"{op}[{a},{b},{f}]", mk(op, a, b, f)) for op in ("add", "sub", "mul") for a in W for b in W
             for f in (FORMS if a == b else ("same", "mat-row", "npscalar"))]
HARNESSES += [(f"{t}_{op}[{f}]", fn(op, t, f)) for t in W for op in ("add", "mul") for f in ("same", "mat-row", "npscalar", "pyint")]
