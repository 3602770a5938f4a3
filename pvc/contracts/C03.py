"""C03: per-element rounding policy."""
from .common import *


def pol(tname, form, pt):
    def h(en, ld):
        Q = ld.load("itcl_quantization.quantization.operators").Quantization
        lo, hi = tlimits(tname)
        s = new_real("scale", pos=True)
        zp = new_int("zero_point", lo, hi)
        bit = lambda e: [z3.Or(e == 0, e == 1)]
        if form == "array":
            shp = OShape("S")
            X = new_array("x", shp, "float64")
            P = new_array("p", shp, pt, facts=bit)
            i = (fresh_index(0, shp.size),)
        elif form == "vector":
            n = new_int("n", 1)
            X, P = new_array("x", (n,), "float64"), new_array("p", (n,), pt, facts=bit)
            i = (fresh_index(0, n),)
        elif form == "matrix":
            n, m = new_int("n", 1), new_int("m", 1)
            X, P = new_array("x", (n, m), "float64"), new_array("p", (n, m), pt, facts=bit)
            i = (fresh_index(0, n), fresh_index(0, m))
        x0, p0 = X.snapshot(), P.snapshot()
        x, p = X.at(*i), P.at(*i)
        en.cover("precondition")
        en.track("x", x)
        en.track("policy", p)
        r = Q(tname).quantize(X, zp, s, P)
        same_shape(en, "shape kept", r, X)
        e = scalar_or_el(r, *i)
        en.prove("integer result", kind(e.t) in "iu")
        t = toreal(x) / s.e + toreal(zp.e)
        en.prove("floor of the unrounded code plus the policy bit, saturated",
                 e.e == clipz(z3.ToInt(t + toreal(p)), lo, hi))
        en.prove("floor plus bit form", z3.ToInt(t + toreal(p)) == z3.ToInt(t) + z3.ToInt(toreal(p)))
        unchanged(en, "tensor not modified", X, x0)
        unchanged(en, "policy not modified", P, p0)
    return h


def incompatible(tname):
    def h(en, ld):
        Q = ld.load("itcl_quantization.quantization.operators").Quantization
        lo, hi = tlimits(tname)
        s = new_real("scale", pos=True)
        zp = new_int("zero_point", lo, hi)
        n, m = new_int("n", 2), new_int("m", 2)
        en.assume(n.e != m.e)
        X = new_array("x", (n,), "float64")
        P = new_array("p", (m,), "int64", 0, 1)
        en.cover("precondition")
        r = Q(tname).quantize(X, zp, s, P)
        same_shape(en, "shape kept", r, X)
        i = fresh_index(0, n)
        t = toreal(X.at(i)) / s.e + toreal(zp.e)
        en.prove("policy of another shape is ignored: nearest rounding",
                 scalar_or_el(r, i).e == clipz(nearest_up(t), lo, hi))
    return h


def base(tname, form):
    def h(en, ld):
        Q = ld.load("itcl_quantization.quantization.operators").Quantization
        g = ld.load_file("quantizer/itcl_quantizer/equalizers/adaround/irounding_policy.py", "irounding_policy").get_base_rounding
        lo, hi = tlimits(tname)
        s = new_real("scale", pos=True)
        zp = new_int("zero_point", lo, hi)
        if form == "array":
            X = new_array("x", OShape("S"), "float64")
            i = (fresh_index(0, X.shape_.size),)
        else:
            n, m = new_int("n", 1), new_int("m", 1)
            X = new_array("x", (n, m), "float64")
            i = (fresh_index(0, n), fresh_index(0, m))
        x0 = X.snapshot()
        en.cover("precondition")
        P = g(X, s)
        same_shape(en, "base policy has the shape of the tensor", P, X)
        pe = P.at(*i)
        en.track("x", X.at(*i))
        en.prove("base policy is 0/1", z3.Or(pe == 0, pe == 1))
        unchanged(en, "tensor not modified", X, x0)
        r = Q(tname).quantize(X, zp, s, P)
        t = toreal(X.at(*i)) / s.e + toreal(zp.e)
        e = scalar_or_el(r, *i)
        en.prove("base policy reproduces nearest rounding", e.e == clipz(nearest_up(t), lo, hi))
    return h


HARNESSES = [(f"policy[{t},{f},{pt}]", pol(t, f, pt)) for t in TYPES32
             for f, pt in (((("array", "int64"), ("array", "float64"), ("vector", "int8"), ("matrix", "int64"))) if t in KEYTYPES else (("array", "int64"),))]
HARNESSES += [(f"incompatible[{t}]", incompatible(t)) for t in KEYTYPES]
HARNESSES += [(f"base[{t},{f}]", base(t, f)) for t in KEYTYPES for f in ("array", "matrix")]
HARNESSES += histories(HARNESSES, "policy[int8,array,int64]", "policy[uint8,matrix,int64]", "base[int8,array]")
