"""C01: Quantization.quantize == nearest code, saturated, for every type <= 32 bits."""
from .common import *


def mk(tname, form):
    def h(en, ld):
        ops = ld.load("itcl_quantization.quantization.operators")
        lo, hi = tlimits(tname)
        s = new_real("scale", pos=True)
        zp = new_int("zero_point", lo, hi)
        if form == "array":
            shp = OShape("S")
            X = new_array("x", shp, "float64")
        elif form == "int-array":
            X = new_array("x", OShape("S"), "int64")
        elif form == "list":
            n = new_int("n", 1)
            F = new_array("x", (n,), "float64")
            X = SList(n, lambda i: F.el(i).item())
        else:
            X = new_real("x")
        f0 = X.snapshot() if isinstance(X, SArr) else None
        en.cover("precondition")
        r = ops.Quantization(given(ld, tname)).quantize(X, zp, s)
        if form == "scalar":
            i = ()
            x = X.e
            same_shape(en, "shape kept", r, X)
        elif form == "list":
            i = (fresh_index(0, n),)
            x = X.get(i[0]).e
            en.prove("shape kept", isinstance(r, SArr) and len(r.shape_) == 1 and ix(r.shape_[0]) == n.e)
        else:
            i = (fresh_index(0, X.shape_.size),)
            x = X.at(*i)
            same_shape(en, "shape kept", r, X)
        e = scalar_or_el(r, *i)
        en.track("x", toreal(x))
        en.prove("integer result", kind(e.t) in "iu")
        t = toreal(x) / s.e + toreal(zp.e)
        rr = toreal(e.e)
        half = z3.Q(1, 2)
        en.prove("within type", in_range(e.e, lo, hi))
        en.prove("nearest, ties upward", z3.Implies(z3.And(t >= lo - half, t < hi + half),
                                                    z3.And(rr - half <= t, t < rr + half)))
        en.prove("saturates above", z3.Implies(t >= hi, e.e == hi))
        en.prove("saturates below", z3.Implies(t < lo, e.e == lo))
        if f0 is not None:
            unchanged(en, "argument not modified", X, f0)
    return h


HARNESSES = [(f"quantize[{t},{f}]", mk(t, f)) for t in TYPES32 for f in (("array", "scalar", "int-array", "list") if t in KEYTYPES else ("array",))]
HARNESSES += [(f"quantize[{t},array]", mk(t, "array")) for t in NUMPY]
HARNESSES += histories(HARNESSES, "quantize[int8,array]", "quantize[uint16,list]")
