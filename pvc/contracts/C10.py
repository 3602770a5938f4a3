"""C10: fixed-point multipliers approximate the real multiplier to full precision."""
from .common import *

FL = "itcl_inference_engine.util.floating"
FC = "itcl_inference_engine.layers.tflite.fullyconnected"


def exponent(en):
    r = en.scratch.get("frexp", [])
    return r[-1] if r else None


def precise(en, x, m, s, tiny):
    """relative error of m/2^s as an approximation of x, s concrete on this path"""
    en.prove("shift between 1 and 62", in_range(s, 1, 62))
    en.prove("mantissa fits a signed 32-bit word", in_range(m, -(1 << 31), (1 << 31) - 1))
    k = T.concrete(Sym(z3.simplify(s), "pyint"))
    if k is None:
        raise Unsupported("shift is not determined by the exponent")
    v = toreal(m) / z3.RealVal(1 << k)
    d = v - x
    bound = z3.If(x >= 0, x, -x) / z3.RealVal(1 << 30)
    ok = z3.And(d <= bound, -d <= bound)
    en.prove("relative error at most 2^-30 (or exactly zero for a tiny multiplier)",
             z3.Or(ok, z3.And(m == 0, tiny(z3.If(x >= 0, x, -x)))))


def approx(sign):
    def h(en, ld):
        m = ld.load(FL)
        x = new_real("multiplier")
        en.assume({"pos": x.e > 0, "neg": x.e < 0, "zero": x.e == 0}[sign])
        en.cover("precondition")
        try:
            f = m.FloatingIntegerApprox(x)
        except (AssertionError, ValueError, OverflowError):
            # rejecting is only allowed when not representable
            a = z3.If(x.e >= 0, x.e, -x.e)
            en.prove("only unrepresentable multipliers are rejected", z3.Or(a >= (1 << 30), toreal(T.half_even(a * 2)) >= 1 << 31))
            return
        q, s = T.sym(f._q), T.sym(f._shift)
        en.prove("mantissa and shift are integers", q.t == "pyint" and s.t in ("pyint",))
        precise(en, x.e, q.e, s.e, lambda a: a < z3.Q(1, 1 << 32))
    return h


def product(form):
    """multiplying: nearest integer to other * mantissa / 2^shift, hence to other * x"""
    def h(en, ld):
        m = ld.load(FL)
        x = new_real("multiplier", pos=True)
        en.assume(x.e < (1 << 30) - 1)
        f = m.FloatingIntegerApprox(x)
        if form == "int":
            o = new_int("other", -(1 << 31), (1 << 31) - 1)
            oe, i = o.e, ()
        else:
            o = new_array("other", OShape("S"), form, -(1 << 31), (1 << 31) - 1)
            i = (fresh_index(0, o.shape_.size),)
            oe = o.at(*i)
        en.cover("precondition")
        r = f * o
        same_shape(en, "shape kept", r, o)
        re = scalar_or_el(r, *i)
        v, q, e = en.scratch["frexp"][-1]
        ec = T.concrete(e)
        mant = T.half_even(q.e * (1 << 31))
        if ec is None:
            en.prove("product with a tiny multiplier is zero", re.e == 0)
            return
        s = 31 - ec
        # |x - mant/2^s| <= 2^-s/2, times |other|
        a = z3.If(oe >= 0, toreal(oe), -toreal(oe))
        d = x.e - toreal(mant) / (1 << s)
        h2 = z3.Q(1, 1 << (s + 1))
        mulmono(en, d, h2, a)
        mulmono(en, -h2, d, a)
        oo = toreal(oe)
        en.prove("rounding step", z3.And(toreal(re.e) * (1 << s) <= toreal(mant) * oo + (1 << (s - 1)),
                                         toreal(re.e) * (1 << s) > toreal(mant) * oo - (1 << (s - 1)) - (1 if s == 1 else 0)))
        bound = z3.Q(1, 2) + a * h2
        en.prove("product is the nearest integer to other * multiplier up to the mantissa's precision",
                 z3.And(toreal(re.e) - oo * x.e <= bound, toreal(re.e) - oo * x.e >= -bound))
    return h


def exact_mode(en, ld):
    m = ld.load(FL)
    x = new_real("multiplier", pos=True)
    en.assume(x.e < (1 << 30) - 1)
    f = m.FloatingIntegerApprox(x, False)
    o = new_array("other", OShape("S"), "int64")
    i = (fresh_index(0, o.shape_.size),)
    r = f * o
    en.prove("without integer arithmetic the product is the real one", toreal(scalar_or_el(r, *i).e) == toreal(o.at(*i)) * x.e)


def dense(en, ld):
    m = ld.load(FC)
    si, sw, so = (new_real(n, pos=True) for n in ("input_scale", "weight_scale", "output_scale"))
    M = new_real("multiplier", pos=True)
    si = Sym(M.e * so.e / sw.e, "pyfloat")          # every triple of scales has this form
    en.cover("precondition")
    try:
        f = m.FullyConnectedQuantizedMultiplier(si, sw, so)
    except AssertionError:
        en.prove("only unrepresentable multipliers are rejected", M.e >= (1 << 30) - 1)
        return
    q, s, r = T.sym(f.quantized_multiplier), T.sym(f.shift), T.sym(f.round)
    me = q.e if z3.is_int(q.e) else T.as_int(q.e)
    if me is None:
        me = z3.ToInt(q.e)
        en.prove("mantissa is a whole number", q.e == toreal(me))
    precise(en, M.e, me, s.e, lambda a: a < z3.Q(1, 1000000))
    k = T.concrete(Sym(z3.simplify(s.e), "pyint"))
    en.prove("rounding constant is half a unit", r.e == 1 << (k - 1))


STD = "exponents -33..30 enumerated; generated multipliers (concrete runner)"
HARNESSES = [(f"approx[{s}]", approx(s)) for s in ("pos", "neg", "zero")]
HARNESSES += [(f"product[{f}]", product(f)) for f in ("int", "int64")]
HARNESSES += [("real product", exact_mode), ("dense multiplier", dense)]
