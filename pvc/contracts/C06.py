"""C06: activation tables hold the quantised activation of every input code."""
from .common import *
from pvc import loader as L_

UF = z3.Function("activation", z3.RealSort(), z3.RealSort())


def act_float(x):
    return Sym(UF(toreal(T.sym(x).e)), "pyfloat")


def act_np(x):
    return Sym(UF(toreal(T.sym(x).e)), "float64")


def act_mixed(x):
    """returns a Python int on one part of the domain (like max(0, x))"""
    x = T.sym(x)
    E.ENG.assume(z3.ForAll([_v], z3.Implies(_v <= 0, UF(_v) == 0)))
    if x <= 0:
        E.ENG.assume(UF(toreal(x.e)) == 0)
        return 0
    return Sym(UF(toreal(x.e)), "pyfloat")


_v = z3.Real("lutx")
ACTS = {"float": act_float, "numpy": act_np, "mixed": act_mixed}


def table(tname, act, policy=False):
    def h(en, ld):
        q = ld.load("itcl_quantization.quantization.operators").Quantization(tname)
        lo, hi = tlimits(tname)
        si, so = new_real("input_scale", pos=True), new_real("output_scale", pos=True)
        zi, zo = new_int("input_zp", lo, hi), new_int("output_zp", lo, hi)
        n = hi - lo + 1
        k = fresh_index(0, n)
        en.track("entry", k)
        en.cover("precondition")
        if policy:
            P = new_array("p", (n,), "int64", 0, 1)
            L = q.create_LUT(ACTS[act], si, zi, so, zo, rounding_policy=P)
            half = toreal(P.at(k))
        else:
            L = q.create_LUT(ACTS[act], si, zi, so, zo)
            half = z3.Q(1, 2)
        en.prove("the table is a list with one entry per input code", isinstance(L, (list, SList)) and not isinstance(L, SArr)
                 and z3.simplify(ix(A.dim(len(L) if isinstance(L, list) else L.n))).eq(z3.IntVal(n)))
        en_ = T.sym(L_.Helpers.getitem(L, Sym(k, "pyint")))
        e = en_.e
        en.prove("entries are integers", en_.t == "pyint")
        x = toreal(lo + k - zi.e) * si.e
        t = UF(x) / so.e + toreal(zo.e)
        en.prove("entry is the quantised activation of its code", e == clipz(z3.ToInt(t + half), lo, hi))
    return h


class Table:
    """any look-up table object: indexable by every code"""

    def __init__(self, n):
        self.f = z3.Function("table", z3.IntSort(), z3.IntSort())
        self.n = n

    def __getitem__(self, k):
        k = ix(k) if not isinstance(k, int) else z3.IntVal(k)
        E.ENG.prove("looked-up index is inside the table", z3.And(k >= 0, k < ix(self.n)))
        E.ENG.assume(in_range(self.f(k), -(1 << 31), (1 << 32) - 1))
        return Sym(self.f(k), "pyint")


def lookup(how, dt, shape):
    def h(en, ld):
        m = ld.load("itcl_inference_engine.layers.common.lut")
        lo, hi = limits(dt)
        # tables of every integer type: offset 0, or 2^(w-1) for codes -2^(w-1)..2^(w-1)-1
        if how == "ctor0" or dt[0] == "u":
            o = 0
            n = new_int("n", 1, 1 << 32)
        else:
            w = en.choose(min(int(dt[3:]), 32))
            o = 1 << w
            n = T.sym(2 << w)
        off = T.sym(o)
        facts = lambda e: [e + off.e >= 0, e + off.e < n.e]
        if shape == "any":
            X = new_array("x", OShape("S"), dt, facts=facts)
            i = (fresh_index(0, X.shape_.size),)
        else:
            a, b, c = new_int("a", 1), new_int("b", 1), new_int("c", 1)
            X = new_array("x", (a, b, c), dt, facts=facts)
            i = tuple(fresh_index(0, d) for d in (a, b, c))
            en.assume(z3.And(X.at(z3.IntVal(0), z3.IntVal(0), z3.IntVal(0)) + off.e >= 0))
        x0 = X.snapshot()
        tab = Table(n)
        if how == "ctor":
            L = m.LUTActivation(tab, o)
        elif how == "ctor0":
            L = m.LUTActivation(tab)
        else:
            lut = {"LUT": tab, "offset": o, "reduced_LUT": None}
            if how == "reduced":
                # contract of ReducedLUT.deserialize/__getitem__: see C07/C08
                doc = object()

                class R:
                    @staticmethod
                    def deserialize(d):
                        en.prove("the serialised table of the node is restored", d is doc)
                        return tab
                m.ReducedLUT = R
                lut = {"LUT": None, "offset": o, "reduced_LUT": doc}
            node = {"tensor": None, "scale": new_real("node_scale", pos=True), "zero_point": new_int("node_zp", -128, 255), "LUT": lut}
            cls = {"model": m.LUTActivation, "reduced": m.LUTActivation,
                   "tanh": getattr(ld.load("itcl_inference_engine.layers.common.tanh"), "TanhLUT", None),
                   "sigmoid": getattr(ld.load("itcl_inference_engine.layers.common.sigmoid"), "SigmoidLUT", None)}[how]
            L = cls.from_model({"op_type": "X", "name": "n", "inputs": [node], "outputs": [node], "attributes": None})
        en.cover("precondition")
        y = L.infer(X)
        same_shape(en, "shape kept", y, X)
        e = scalar_or_el(y, *i)
        en.prove("lookup returns the entry of the code", e.e == tab.f(X.at(*i) + off.e))
        unchanged(en, "codes not modified", X, x0)
    return h


HARNESSES = [(f"table[{t},{a}]", table(t, a)) for t in ("int8", "uint8", "int4", "uint4", "int16", "uint16", "int10", "int1", "uint2")
             for a in ("float", "numpy", "mixed")]
HARNESSES += [(f"table with policy[{t}]", table(t, "float", True)) for t in ("int8", "uint8", "int4", "int16")]
HARNESSES += [(f"lookup[{h},{d},{s}]", lookup(h, d, s)) for h in ("ctor", "ctor0", "model", "reduced", "tanh", "sigmoid")
              for d in ("int64", "int8", "uint8", "int16", "int32") for s in ("any", "3d")]
HARNESSES += histories(HARNESSES, "table[int8,float]", "table with policy[int8]", "lookup[ctor,int8,3d]", "lookup[model,uint8,any]")
