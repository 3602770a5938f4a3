"""C09: the integer dense layer equals requantised real arithmetic within one code."""
from .common import *

FC = "itcl_inference_engine.layers.tflite.fullyconnected"


def params(en, how, odt):
    so, sw = new_real("output_scale", pos=True), new_real("weight_scale", pos=True)
    M = new_real("M", pos=True)
    en.assume(z3.And(M.e >= z3.Q(1, 1000000), M.e < (1 << 30) - 1))
    si = Sym(M.e * so.e / sw.e, "pyfloat")      # every triple of scales has this form
    n, m, b = new_int("n_in", 1, 1 << 15), new_int("n_out", 1), new_int("batch", 1)
    zi, zw = new_int("input_zp", -128, 127), new_int("weight_zp", -128, 127)
    lo, hi = limits(odt)
    zo = new_int("output_zp", lo, hi)
    W = new_array("w", (m, n), "int64", -128, 127)
    B = new_array("b", (m,), "int64", -(1 << 31), (1 << 31) - 1)
    return so, sw, M, si, n, m, b, zi, zw, zo, W, B, lo, hi


def dense(how, odt, nd, xdt):
    def h(en, ld):
        mod = ld.load(FC)
        so, sw, M, si, n, m, b, zi, zw, zo, W, B, lo, hi = params(en, how, odt)
        X = new_array("x", (b, n) if nd == 2 else (n,), xdt, -128, 127)
        o = fresh_index(0, m, "unit")
        r = fresh_index(0, b, "row")
        xk = (lambda k: X.at(r, k)) if nd == 2 else (lambda k: X.at(k))
        acc = A.sum_term(lambda k: (xk(k) - zi.e) * (W.at(o, k) - zw.e), n, False) + B.at(o)
        en.assume(z3.And(acc >= -(1 << 31), acc < 1 << 31))          # the accumulator fits 32 bits
        x0, w0, b0 = X.snapshot(), W.snapshot(), B.snapshot()
        try:
            if how == "build":
                L = mod.FullyConnected.build(si, zi, sw, zw, W, Sym(si.e * sw.e, "pyfloat"), 0, B, so, zo, odt)
            else:
                tn = lambda a, dt: {"tensor": a, "dtype": dt, "shape": None}
                node = lambda s, z, a, dt: {"scale": s, "zero_point": z, "tensor": tn(a, dt), "LUT": None}
                L = mod.FullyConnected.from_model({
                    "op_type": "FULLY_CONNECTED", "name": "n", "attributes": None,
                    "inputs": [node(si, zi, None, "int8"), node(sw, zw, nested(W), "int8"),
                               node(Sym(si.e * sw.e, "pyfloat"), 0, nested(B), "int32")],
                    "outputs": [node(so, zo, None, odt)]})
        except AssertionError:
            en.prove("no valid layer is rejected", False)
            return
        en.cover("precondition")
        y = L.infer(X)
        if nd == 2:
            en.prove("one row per sample, one column per unit", isinstance(y, SArr) and len(y.shape_) == 2)
            en.prove("dimensions", z3.And(ix(y.shape_[0]) == b.e, ix(y.shape_[1]) == m.e))
            out = y.el(r, o).e
        else:
            en.prove("one value per unit", isinstance(y, SArr) and len(y.shape_) == 1)
            en.prove("dimensions", ix(y.shape_[0]) == m.e)
            out = y.el(o).e
        v, q, e = en.scratch["frexp"][-1]
        ec = T.concrete(e)
        P = 1 << (31 - ec)
        mant = define(en, "mant", T.half_even(q.e * (1 << 31)))
        ACC = define(en, "acc", acc)
        PROD = define(en, "prod", ACC * mant)
        X_ = define(en, "real", toreal(ACC) * M.e)
        en.track("accumulator", ACC)
        en.prove("fixed-point pipeline", out == clipz((PROD + P // 2) / P + zo.e, lo, hi))
        # |M - mant/2^s| <= 2^-(s+1); M >= 2^(ec-1), mant >= 2^30
        d = M.e - toreal(mant) / P
        h2 = z3.Q(1, 2 * P)
        low = z3.Q(1 << 30, P)
        ra, p = toreal(ACC), toreal(PROD) / P
        for sg in (1, -1):
            for x, y in ((d, h2), (-h2, d), (low, M.e), (low, toreal(mant) / P)):
                mulmono(en, x, y, sg * ra)
        en.prove("mantissa is normalised", z3.And(mant >= 1 << 30, M.e >= low, d <= h2, d >= -h2))
        prem = [ACC < 1 << 31, ACC >= -(1 << 31), in_range(zo.e, lo, hi)]
        for sg in (1, -1):
            c = sg * ra
            prem += [z3.Implies(c >= 0, g) for g in (sg * (X_ - p) <= c * h2, sg * (X_ - p) >= -c * h2, sg * X_ >= c * low, sg * p >= c * low)]
        want = clipz(z3.ToInt(X_ + toreal(zo.e) + z3.Q(1, 2)), lo, hi)
        res = clipz((PROD + P // 2) / P + zo.e, lo, hi)
        by_lemma(en, "output is the quantised real affine result within one code", prem, z3.And(res - want <= 1, want - res <= 1))
        en.prove("the real affine result", X_ == ra * M.e)
        en.prove("output saturates at the limits of its type", in_range(out, lo, hi))
        unchanged(en, "input not modified", X, x0)
        unchanged(en, "weights not modified", W, w0)
        unchanged(en, "bias not modified", B, b0)
    return h


HARNESSES = [(f"dense[{how},{odt},{nd}d,{xdt}]", dense(how, odt, nd, xdt))
             for how, odt, nd, xdt in [("build", "int8", 2, "int64"), ("model", "int8", 2, "int8"), ("model", "int8", 1, "int64"),
                                       ("model", "int16", 2, "int8"), ("build", "uint8", 1, "int8")]]
