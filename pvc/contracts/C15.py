"""C15: quantised ReLU equals ReLU in the real domain."""
from .common import *
from .C13 import node, op

RL = "itcl_inference_engine.layers.common.relu"


def relu(how, dt, shp):
    def h(en, ld):
        c = ld.load(RL).RELU
        so, k = new_real("output_scale", pos=True), new_real("ratio", pos=True)
        s = Sym(k.e * so.e, "pyfloat")          # every pair of scales has this form
        z, zo = new_int("input_zp", -128, 127), new_int("output_zp", -128, 127)
        if shp == "any":
            X = new_array("x", OShape("S"), dt, -128, 127)
            i = (fresh_index(0, X.shape_.size),)
        else:
            d = tuple(new_int(f"d{k_}", 1) for k_ in range(2))
            X = new_array("x", d, dt, -128, 127)
            i = tuple(fresh_index(0, k_) for k_ in d)
        L = c(s, z, so, zo) if how == "ctor" else c.from_model(op("RELU", [node(s, z, "int8")], [node(so, zo, "int8")]))
        x0 = X.snapshot()
        en.cover("precondition")
        y = L.infer(X)
        same_shape(en, "shape kept", y, X)
        out = y.el(*i).e
        x = X.at(*i)
        en.track("code", x)
        r = toreal(x - z.e) * s.e
        t = z3.If(r > 0, r, z3.RealVal(0)) / so.e + toreal(zo.e)
        # the same value on codes
        P = define(en, "scaled", toreal(x - z.e) * k.e)
        mulmono(en, 0, toreal(x - z.e), k.e)
        mulmono(en, toreal(x - z.e), 0, k.e)
        t2 = z3.If(x > z.e, P, z3.RealVal(0)) + toreal(zo.e)
        mulmono(en, 1, toreal(x - z.e), k.e)
        en.prove("max(0, dequantised code) under the output parameters", t == t2)
        want = clipz(nearest_up(t2), -128, 127)
        en.prove("quantised max(0, dequantised code) within one code", z3.And(out - want <= 1, want - out <= 1))
        en.prove("saturated to the signed 8-bit range", in_range(out, -128, 127))
        en.prove("codes at or below the input zero point give the output zero point", z3.Implies(x <= z.e, out == zo.e))
        unchanged(en, "input not modified", X, x0)
    return h


HARNESSES = [(f"relu[{h},{d},{s}]", relu(h, d, s)) for h in ("ctor", "model") for d in ("int8", "int64", "int32", "int16") for s in ("any", "2d")]
HARNESSES += histories(HARNESSES, "relu[ctor,int8,2d]", "relu[model,int8,2d]")
