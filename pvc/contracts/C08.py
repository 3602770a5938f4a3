"""C08: a reduced table survives serialisation; iteration agrees with the table it was built from."""
from .rlut import *


def view(en, r, N, tf, who):
    """contract of the object: indexing and iteration"""
    x = new_int("index", 0)
    en.assume(x.e < N.e)
    v = at(en, r, N, x)
    en.prove(f"{who} answers as the full table", T.sym(v).e == tf(x.e))


def iteration(en, r, N, tf, who):
    it = r.__iter__()
    n = L.seq_len(it)
    en.prove(f"{who} iterates over as many entries as the full table", ix(n) == N.e)
    x = new_int("position", 0)
    en.assume(x.e < N.e)
    prep(en, r, N, x)
    en.prove(f"iteration of {who} yields the full table in order", T.sym(L.seq_get(it, x.e)).e == tf(x.e))


def through_json(s):
    """what json.dump / json.load do to the value: tuples become lists, keys become text"""
    if isinstance(s, dict):
        return {str(k): through_json(v) for k, v in s.items()}
    if isinstance(s, (list, tuple)):
        return [through_json(x) for x in s]
    return s


def survives(asym, depth, part):
    def h(en, ld):
        m, r, N, tf, T_ = build(en, ld, asym, depth)
        ghosts_for(en, r, N, asym)
        if part == "original iteration":
            return iteration(en, r, N, tf, "the original")
        s = r.serialize()
        if part == "record":
            en.prove("recorded number of kept entries", ix(s["reduced_lut_len"]) == ix(L.seq_len(s["reduced_lut"]) if not isinstance(s["reduced_lut"], list) else len(s["reduced_lut"])))
            for side in ("head", "tail"):
                t = s[side]["tuples"]
                en.prove(f"recorded number of {side} intervals", ix(s[side]["tuples_len"]) == ix(len(t) if isinstance(t, list) else t.n))
            en.prove("table not modified by serialisation", T_.version == 0)
            return
        prep(en, r, N, None)
        q = m.ReducedLUT.deserialize(through_json(s))
        if part == "restored":
            view(en, q, N, tf, "the restored table")
        else:
            iteration(en, q, N, tf, "the restored table")
    return h


def bounded(n, asym):
    def h(en, ld):
        m = ld.load("itcl_quantization.quantization.lut")
        tab = [new_int(f"t{i}") for i in range(n)]
        d = en.choose(n + 3)
        en.cover("precondition")
        r = m.ReducedLUT(list(tab), d, new_int("min_reduce", 0), asym)
        q = m.ReducedLUT.deserialize(through_json(r.serialize()))
        for who, o in (("original", r), ("restored", q)):
            for i in range(n):
                en.prove(f"{who} entry equals", T.sym(o[i]).e == tab[i].e)
            it = list(o)
            en.prove(f"{who} iteration length", len(it) == n)
            for a, b in zip(it, tab):
                en.prove(f"{who} iterated entry equals", T.sym(a).e == b.e)
    return h


STD = "symbolic contents for every table of length 1..4 and every depth, plus generated tables (concrete runner)"
TRUSTED = ["json.dump followed by json.load turns tuples into lists and keeps integers, booleans, texts and nesting"]
HARNESSES = [(f"run lemma {p}", lemma_harness(p)) for p in ("base", "step")]
for p in ("record", "original iteration", "restored", "restored iteration"):
    HARNESSES += [(f"{p}[asym={a},depth={'any' if d is None else d}]", survives(a, d, p), {"standin": STD}) for a in (False, True) for d in (None, 0, 1)]
HARNESSES += [(f"bounded[{n},asym={a}]", bounded(n, a)) for n in (1, 2, 3, 4) for a in (False, True)]
