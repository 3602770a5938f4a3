"""C07: the reduced table is lossless."""
from .rlut import *


def lossless(asym, depth):
    def h(en, ld):
        m, r, N, tf, T_ = build(en, ld, asym, depth)
        en.prove("the table passed in is not modified", T_.version == 0)
        ghosts_for(en, r, N, asym)
        x = new_int("index", 0)
        en.assume(x.e < N.e)
        v = at(en, r, N, x)
        en.prove("entry of the reduced table is the entry of the full table", T.sym(v).e == tf(x.e))
    return h


def bounded(n, asym):
    """same statement with concrete table length (all contents, all depths): no loop contract needed"""
    def h(en, ld):
        m = ld.load("itcl_quantization.quantization.lut")
        tab = [new_int(f"t{i}") for i in range(n)]
        d = en.choose(n + 3)
        en.cover("precondition")
        r = m.ReducedLUT(list(tab), d, new_int("min_reduce", 0), asym)
        for i in range(n):
            en.prove("entry equals", T.sym(r[i]).e == tab[i].e)
    return h


STD = "symbolic contents for every table of length 1..5 and every depth, plus generated tables (concrete runner)"
BOUNDED = []
HARNESSES = [(f"run lemma {p}", lemma_harness(p)) for p in ("base", "step")]
HARNESSES += [(f"lossless[asym={a},depth={'any' if d is None else d}]", lossless(a, d), {"standin": STD}) for a in (False, True) for d in (None, 0, 1, 2)]
HARNESSES += [(f"bounded[{n},asym={a}]", bounded(n, a)) for n in (1, 2, 3, 4, 5) for a in (False, True)]
