from rc import *
from itcl_quantization.quantization.lut import ReducedLUT
RULE = "tables with runs at both ends, constants, alternations, single entries and the empty table; depth 0..8; both forms; non-trivial: at least two entries"


def rlut(rng):
    r = rng.random()
    n = rng.choice([1, 2, 3, 4, 5, 8, 12, 20, 40])
    if r < .1:
        return [rng.randint(-3, 3)] * n
    if r < .2:
        return list(range(n))
    if r < .3:
        return [i % 2 for i in range(n)]
    out = []
    k = rng.choice([2, 3, 6])
    while len(out) < n:
        out += [rng.randint(-k, k)] * rng.choice([1, 1, 2, 3, 5])
    return out[:n] if rng.random() < .5 else out


def cases(rng, tier):
    import itertools
    for n in (1, 2, 3, 4, 5):
        for t in itertools.product(range(3), repeat=n):
            if n < 5 or t[0] == 0:
                for d in range(0, 5):
                    for a in (False, True):
                        yield {"lut": list(t), "d": d, "a": a}
    for n in (300, 1100, 5000, 70000):
        for d in (1, 2, 3, 9):
            for a in (False, True):
                yield {"lut": [0] * n + [1, 2, 3] + [9] * n, "d": d, "a": a}
                yield {"lut": list(range(n)) + [5] * 7, "d": d * 40, "a": a}
    for _ in range(3000 if tier == "quick" else 40000):
        yield {"lut": rlut(rng), "d": rng.choice([0, 1, 1, 2, 3, 4, 5, 8, 100]), "a": rng.random() < .5, "m": rng.choice([0, 0, 1, 2, 3, 5, 100])}


def trivial(c):
    return len(c["lut"]) < 2


def run(c):
    t = list(c["lut"])
    r = ReducedLUT(t, c["d"], c.get("m", 0), c["a"])
    if t != c["lut"]:
        return "the table passed in was modified"
    for i, v in enumerate(c["lut"]):
        try:
            g = r[i]
        except Exception as ex:
            return f"index {i} of reduced {c['lut']} depth {c['d']} asymmetric={c['a']} raises {ex!r}"
        if g != v:
            return f"index {i} of reduced {c['lut']} depth {c['d']} asymmetric={c['a']} gives {g}, table has {v}"
