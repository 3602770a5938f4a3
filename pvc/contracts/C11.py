"""C11: quantised matrix multiplication is the rounded, saturated real product."""
from .common import *

MM = "itcl_inference_engine.layers.onnx.q_linear_mmul"


def node(s, z, t=None):
    return {"scale": s, "zero_point": z, "tensor": t, "LUT": None, "idx": 0}


def nearest(t):
    """both roundings to the nearest integer (they differ on ties only)"""
    return z3.ToInt(t + z3.Q(1, 2)), -z3.ToInt(-t + z3.Q(1, 2))


def mmul(how, nd, xdt):
    def h(en, ld):
        mod = ld.load(MM)
        so, sw, M = new_real("output_scale", pos=True), new_real("weight_scale", pos=True), new_real("M", pos=True)
        si = Sym(M.e * so.e / sw.e, "pyfloat")          # every triple of scales has this form
        n, m = new_int("n_in", 1, 33000), new_int("n_out", 1)
        lead = tuple(new_int(f"d{i}", 1) for i in range(nd - 1))
        zi, zw, zo = (new_int(k, 0, 255) for k in ("input_zp", "weight_zp", "output_zp"))
        X = new_array("x", lead + (n,), xdt, 0, 255)
        if how == "ctor":
            W = new_array("w", (m, n), "uint8")
            L = mod.QLinearMatMul(si, zi, W, sw, zw, so, zo)
        else:
            W = new_array("w", (m, n), "int64", 0, 255)
            T_ = {"tensor": nested(W), "dtype": "uint8", "shape": [m, n]}
            L = mod.QLinearMatMul.from_model({"op_type": "QLinearMatMul", "name": "n", "attributes": None, "outputs": [],
                                              "inputs": [node(si, zi), node(sw, zw, T_), node(so, zo)]})
        r = tuple(fresh_index(0, d, "row") for d in lead)
        o = fresh_index(0, m, "unit")
        acc = define(en, "acc", A.sum_term(lambda k: (X.at(*r, k) - zi.e) * (W.at(o, k) - zw.e), n, False))
        en.track("accumulator", acc)
        x0 = X.snapshot()
        en.cover("precondition")
        y = L.infer(X)
        if not en.prove("rank of the result", isinstance(y, SArr) and len(y.shape_) == nd):
            return
        en.prove("shape of the result", z3.And(*[ix(a) == ix(b) for a, b in zip(y.shape_, lead + (m,))]))
        out = y.el(*r, o).e
        R = define(en, "real", toreal(acc) * M.e)
        a, b = nearest(R)
        en.prove("cell is the rounded real product, saturated to 0..255",
                 z3.Or(out == clipz(a + zo.e, 0, 255), out == clipz(b + zo.e, 0, 255)))
        # the same sample alone
        if nd > 1:
            row = SArr((n,), xdt, lambda i: X.at(*r, *i))
            en.prove("sample alone gives its row of the batch", L.infer(row).el(o).e == out)
        unchanged(en, "operand not modified", X, x0)
    return h


HARNESSES = [(f"matmul[{h},{n}d,{d}]", mmul(h, n, d)) for h in ("ctor", "model") for n in (1, 2, 3) for d in ("uint8", "int64")]
HARNESSES += histories(HARNESSES, "matmul[ctor,1d,uint8]", "matmul[model,2d,uint8]")
