"""C14: softmax is a probability distribution for every sample."""
from .common import *

SM = "itcl_inference_engine.layers.onnx.softmax"


def exps(e):
    """arguments of every exponential in a term"""
    out, seen = [], set()

    def go(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() == "exp":
            out.append(x.arg(0))
        for c in x.children():
            go(c)
    go(e)
    return out


def law(en, a, b):
    """exp(a) = exp(b) * exp(a - b)"""
    f = z3.Function("exp", z3.RealSort(), z3.RealSort())
    en.trust("exp(a) = exp(b) * exp(a-b), exp > 0")
    en.assume(z3.And(f(a) == f(b) * f(a - b), f(a) > 0, f(b) > 0, f(a - b) > 0))


def softmax(nd, how):
    def h(en, ld):
        mod = ld.load(SM)
        n = new_int("classes", 1)
        lead = tuple(new_int(f"d{i}", 1) for i in range(nd - 1))
        X = new_array("x", lead + (n,), "float64")
        L = mod.Softmax() if how == "ctor" else mod.Softmax.from_model({"op_type": "Softmax"})
        r = tuple(fresh_index(0, d, "row") for d in lead)
        i, j = fresh_index(0, n, "class"), fresh_index(0, n, "class")
        x0 = X.snapshot()
        en.cover("precondition")
        y = L.infer(X)
        same_shape(en, "shape kept", y, X)
        Y = lambda k: y.el(*r, k).e
        yi, yj = Y(i), Y(j)
        symnp.instantiate_ext(i, j)
        en.prove("outputs are non-negative", yi >= 0)
        en.prove("each row sums to one", A.sum_term(lambda k: Y(k), n, True) == 1)
        f = z3.Function("exp", z3.RealSort(), z3.RealSort())
        ai, aj = exps_shift(en, yi, X.at(*r, i)), exps_shift(en, yj, X.at(*r, j))
        en.prove("numerators shift every logit of a row alike", ai == aj)
        law(en, X.at(*r, i), ai)
        law(en, X.at(*r, j), aj)
        D = define(en, "ratio", yi * f(X.at(*r, j)))
        en.prove("ratios are those of the exponentials of the logits", yi * f(X.at(*r, j)) == yj * f(X.at(*r, i)))
        # finite for large logits: no exponent above zero ... and one exactly at the maximum
        for app in A.sum_instances(yi):
            k = fresh_index(0, n, "k")
            body, _ = A.sum_body(app, k)
            symnp.instantiate_ext(k)
            for a in exps(body):
                en.prove("no exponential overflows (argument at most 700)", a <= 700)
            wit = [w for (v, b, kk, nn, mx) in en.scratch.get("ext_bodies", []) for w in [argmax(en, v)] if w is not None]
            ok = z3.BoolVal(False)
            for w in wit:
                bw, _ = A.sum_body(app, w)
                for a in exps(bw):
                    ok = z3.Or(ok, a >= -700)
            en.prove("some exponential of the row does not underflow", ok)
        for a in exps(yi):
            en.prove("no exponential overflows (argument at most 700)", a <= 700)
        if nd > 1:
            row = SArr((n,), "float64", lambda k: X.at(*r, *k))
            z = L.infer(row)
            en.prove("sample alone gives its row of the batch", z.el(i).e == yi)
        unchanged(en, "logits not modified", X, x0)
    return h


def argmax(en, v):
    for (F, W) in en.scratch.get("ext", {}).values():
        if F.name() == v.decl().name():
            return W(*v.children())


def exps_shift(en, y, x):
    """the common shift m of the numerator exp(x - m)"""
    for a in exps(y):
        m = z3.simplify(x - a, som=True)
        if not _mentions(m, x) and en.must(a == x - m):
            return m
    raise Unsupported("numerator is not an exponential of the shifted logit")


def _mentions(e, x):
    return e.eq(x) or any(_mentions(c, x) for c in e.children())


HARNESSES = [(f"softmax[{n}d,{h}]", softmax(n, h)) for n in (1, 2, 3) for h in ("ctor", "model")]
HARNESSES += histories(HARNESSES, "softmax[2d,ctor]", "softmax[1d,model]")
