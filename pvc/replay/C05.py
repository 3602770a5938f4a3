from rc import *
from itcl_quantization.quantization import operators as ops
from itcl_quantization.quantization.operators import Dtype
RULE = "operands of signed 8/16/32-bit types, scalars and broadcastable arrays, values concentrated on the limits; non-trivial: all"
OPS = ["add", "sub", "mul"]


def vals(rng, n, w):
    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    return [rng.choice([lo, hi, 0, 1, -1, lo + 1, hi - 1, rng.randint(lo, hi), rng.randint(-20, 20)]) for _ in range(n)]


def cases(rng, tier):
    pairs = [([], []), ([3], [3]), ([2, 3], [2, 3]), ([2, 3], [3]), ([2, 1], [1, 3]), ([], [4]), ([4], []), ([2, 2, 2], [2, 2, 2]), ([1], [1]), ([2, 3], [])]
    for w in (8, 16, 32):
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        for op in OPS:
            for a in (lo, hi, -1, 1):
                for b in (lo, hi, -1, 1):
                    yield {"op": op, "wa": w, "wb": w, "sa": [], "sb": [], "a": [a], "b": [b], "as": "int"}
                    yield {"op": op, "wa": w, "wb": w, "sa": [2], "sb": [2], "a": [0, a], "b": [1, b], "as": "arr"}
                    if op != "sub":
                        yield {"op": "fn" + op, "wa": w, "wb": w, "sa": [2], "sb": [2], "a": [0, a], "b": [1, b], "as": "arr"}
    n = 4000 if tier == "quick" else 40000
    for _ in range(n):
        wa, wb = rng.choice([8, 16, 32]), rng.choice([8, 16, 32])
        op = rng.choice(OPS)
        fn = rng.random() < .2 and op != "sub"
        if fn:
            wb = wa
            op = "fn" + op
        sa, sb = rng.choice(pairs)
        yield {"op": op, "wa": wa, "wb": wb, "sa": sa, "sb": sb, "a": vals(rng, size(sa), wa), "b": vals(rng, size(sb), wb),
               "as": rng.choice(["arr", "int"]) if sa == [] and sb == [] else "arr"}


def run(c):
    ta, tb = f"int{c['wa']}", f"int{c['wb']}"
    A = np.array(c["a"], dtype=object).reshape(c["sa"])
    B = np.array(c["b"], dtype=object).reshape(c["sb"])
    op = c["op"].removeprefix("fn")
    want = np.asarray(A + B if op == "add" else A - B if op == "sub" else A * B, dtype=object)
    a = A.astype(ta) if c["as"] == "arr" else int(c["a"][0])
    b = B.astype(tb) if c["as"] == "arr" else int(c["b"][0])
    if c["op"].startswith("fn"):
        f = getattr(ops, f"{ta}_" + ("addition" if op == "add" else "multiplication"))
        res = f(a, b)
        dt = np.asarray(res).dtype
    else:
        x, y = Dtype(a, ta), Dtype(b, tb)
        r = x + y if op == "add" else x - y if op == "sub" else x * y
        res, dt = r.value, np.dtype(r.dtype)
        if r.bits != dt.itemsize * 8 or (r.min(), r.max()) != (np.iinfo(dt).min, np.iinfo(dt).max):
            return f"result type {dt} reports bits={r.bits}, min={r.min()}, max={r.max()}"
    got = np.asarray(res)
    if got.shape != want.shape:
        return f"{c['op']} {ta}{c['sa']} {tb}{c['sb']}: shape {got.shape}, expected {want.shape}"
    g = [int(v) for v in got.ravel()]
    w = [int(v) for v in want.ravel()]
    if g != w:
        return f"{c['op']} of {ta} {c['a']} and {tb} {c['b']} = {g}, exact result is {w}"
    ii = np.iinfo(dt)
    if any(v < ii.min or v > ii.max for v in w):
        return f"{c['op']} of {ta} {c['a']} and {tb} {c['b']} reported as {dt}, which does not hold {w}"
    if dt.itemsize * 8 < max(c["wa"], c["wb"]):
        return f"{c['op']} of {ta} and {tb} reported as {dt}, narrower than an operand"
    want_dt = None
