"""C02: dequantize is (code - zp)*scale; quantize o dequantize = id; half-step bound."""
from .common import *

NP = {"int8", "uint8", "int16", "uint16", "int32", "uint32"}


def deq(tname, form):
    def h(en, ld):
        Q = ld.load("itcl_quantization.quantization.operators").Quantization
        lo, hi = tlimits(tname)
        s = new_real("scale", pos=True)
        zp = new_int("zero_point", lo, hi)
        X, q, i = int_forms(tname, form, lo, hi)
        f0 = X.snapshot() if isinstance(X, SArr) else None
        en.cover("precondition")
        en.track("code", q)
        r = Q(given(ld, tname)).dequantize(X, zp, s)
        if form == "list":
            en.prove("shape kept", isinstance(r, SArr) and len(r.shape_) == 1 and ix(r.shape_[0]) == ix(X.n))
        else:
            same_shape(en, "shape kept", r, X)
        e = scalar_or_el(r, *i)
        en.prove("exact value", toreal(e.e) == toreal(q - zp.e) * s.e)
        if f0 is not None:
            unchanged(en, "argument not modified", X, f0)
        b = Q(given(ld, tname)).quantize(r, zp, s)
        eb = scalar_or_el(b, *i)
        en.prove("quantize(dequantize(code)) == code", eb.e == q)
        if form != "list":
            same_shape(en, "round trip keeps the shape", b, X)
    return h


def half(tname, form):
    def h(en, ld):
        Q = ld.load("itcl_quantization.quantization.operators").Quantization
        lo, hi = tlimits(tname)
        s = new_real("scale", pos=True)
        zp = new_int("zero_point", lo, hi)
        # every real x of the range is u*scale with lo-zp <= u <= hi-zp
        if form == "array":
            U = new_array("u", OShape("S"), "float64")
            i = (fresh_index(0, U.shape_.size),)
            u = U.at(*i)
        else:
            U = new_real("u")
            i, u = (), U.e
        X = U * s
        en.assume(z3.And(u >= toreal(lo - zp.e), u <= toreal(hi - zp.e)))
        en.cover("precondition")
        en.track("u", u)
        q = Q(given(ld, tname)).quantize(X, zp, s)
        r = Q(given(ld, tname)).dequantize(q, zp, s)
        e = toreal(scalar_or_el(r, *i).e)
        d = toreal(scalar_or_el(q, *i).e) - toreal(zp.e) - u
        hf = z3.Q(1, 2)
        en.prove("code within half a step", z3.And(d <= hf, -d <= hf))
        mulmono(en, d, hf, s.e)
        mulmono(en, -d, hf, s.e)
        x = u * s.e
        en.prove("reconstruction within half a step", z3.And(e - x <= hf * s.e, x - e <= hf * s.e))
    return h


HARNESSES = [(f"dequantize[{t},{f}]", deq(t, f)) for t in TYPES32
             for f in (("array", "list", "scalar") + (("own",) if t in NP else ()) if t in KEYTYPES else ("array",))]
HARNESSES += [(f"{k.__name__}[{t},array]", k(t, "array")) for k in (deq, half) for t in NUMPY]
HARNESSES += [(f"reconstruction[{t},{f}]", half(t, f)) for t in TYPES32 for f in (("array", "scalar") if t in KEYTYPES else ("array",))]
HARNESSES += histories(HARNESSES, "dequantize[int8,array]", "dequantize[uint16,list]", "reconstruction[int8,array]")
