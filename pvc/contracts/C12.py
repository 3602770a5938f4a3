"""C12: quantised addition is the rounded, saturated real sum."""
from .common import *
from .C11 import node, nearest

AD = "itcl_inference_engine.layers.onnx.q_linear_add"


def add(how, shp, xdt):
    def h(en, ld):
        mod = ld.load(AD)
        si, sb, so = (new_real(k, pos=True) for k in ("input_scale", "b_scale", "output_scale"))
        zi, zb, zo = (new_int(k, 0, 255) for k in ("input_zp", "b_zp", "output_zp"))
        d = [new_int(f"d{i}", 1) for i in range(3)]
        if shp == "same":
            S = OShape("S")
            xs, bs = S, S
            i = (fresh_index(0, S.size),)
            j = i
        else:
            xs, bs = {"row": ((d[0], d[1]), (d[1],)), "row3": (tuple(d), (d[2],)), "vec": ((d[0],), (d[0],)),
                      "col": ((d[0], d[1]), (d[0], 1)), "mat": ((d[0], d[1]), (d[0], d[1]))}[shp]
            i = tuple(fresh_index(0, k) for k in xs)
            j = tuple(z3.IntVal(0) if isinstance(b, int) else i[len(i) - len(bs) + k] for k, b in enumerate(bs))
        X = new_array("x", xs, xdt, 0, 255)
        if how == "ctor":
            B = new_array("b", bs, "uint8")
            L = mod.QLinearAdd(si, zi, B, sb, zb, so, zo)
        else:
            B = new_array("b", bs, "int64", 0, 255)
            T_ = {"tensor": nested(B), "dtype": "uint8", "shape": list(bs)}
            L = mod.QLinearAdd.from_model({"op_type": "QLinearAdd", "name": "n", "attributes": None, "outputs": [],
                                           "inputs": [node(si, zi), node(sb, zb, T_), node(so, zo)]})
        x0, b0 = X.snapshot(), B.snapshot()
        en.cover("precondition")
        y = L.infer(X)
        same_shape(en, "shape kept", y, X)
        out = y.el(*i).e
        t = (si.e * toreal(X.at(*i) - zi.e) + sb.e * toreal(B.at(*j) - zb.e)) / so.e
        a, b = nearest(t)
        en.prove("cell is the rounded real sum, saturated to 0..255",
                 z3.Or(out == clipz(a + zo.e, 0, 255), out == clipz(b + zo.e, 0, 255)))
        unchanged(en, "input not modified", X, x0)
        unchanged(en, "operand not modified", B, b0)
    return h


HARNESSES = [(f"add[ctor,{s},{d}]", add("ctor", s, d)) for s in ("same", "row", "row3", "col") for d in ("uint8", "int64")]
HARNESSES += [(f"add[model,{s},{d}]", add("model", s, d)) for s in ("row", "row3", "vec", "mat") for d in ("uint8", "int64")]
HARNESSES += histories(HARNESSES, "add[ctor,row,uint8]", "add[model,mat,uint8]")
