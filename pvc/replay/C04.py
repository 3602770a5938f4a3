from rc import *
from itcl_quantization.quantization.operators import GenericDtype, Quantization
RULE = "well-formed names of widths 1..300 and a few larger, and malformed names built by mutating well-formed ones; all non-trivial"
KINDS = ["int", "uint"]


def cases(rng, tier):
    for w in list(range(1, 140)) + [160, 255, 256, 257, 300, 512, 1023, 1024, 1025, 4096]:
        for k in KINDS:
            yield {"name": f"{k}{w}", "ok": [k, w]}
    for w in (1, 2, 4, 7, 8, 9, 16, 31, 32):
        for k in KINDS:
            lo, hi = limits(f"{k}{w}")
            yield {"name": f"{k}{w}", "round": [rng.randint(2 * lo - hi - 1, 2 * hi - lo + 1) for _ in range(20)] + [lo, hi, lo - 1, hi + 1]}
    bad = ["int", "uint", "8", "", " int8", "int8 ", "int 8", "int08", "int-8", "int8.5", "int0", "uint0", "int00", "byte8", "u8", "i8",
           "int8int8", "8int", "int8x", "xint8", "int_8", "sint8", "uintt8", "8int8", "int8_", "int8 4", "+int8", "int+8", "int8\n", "complex64",
           "bool", "inte8", "int8u", "uint8t", "unsigned8", "int8,int4", "int１", "bfloat16", "char8", "int--8", "-int8", "int8-", "(int8)"]
    for b in bad:
        yield {"name": b, "ok": None}
    n = 1500 if tier == "quick" else 20000
    al = "intufloa0123456789 _-+.xX\t"
    for _ in range(n):
        s = rng.choice(KINDS) + str(rng.randint(0, 70))
        for _ in range(rng.randint(1, 3)):
            i = rng.randrange(len(s) + 1)
            op = rng.random()
            if op < .5:
                s = s[:i] + rng.choice(al) + s[i:]
            elif op < .8 and s:
                i = min(i, len(s) - 1)
                s = s[:i] + s[i + 1:]
            else:
                i = min(i, len(s) - 1)
                s = s[:i] + rng.choice(al) + s[i + 1:]
            if not s:
                break
        low = s.lower()
        import re
        m = re.fullmatch(r"(int|uint|float)([1-9][0-9]*)", low)
        if m and m.group(1) == "float":
            continue
        yield {"name": s, "ok": [m.group(1), int(m.group(2))] if m else None}


def run(c):
    n = c["name"]
    if "round" in c:
        q = Quantization(n)
        lo, hi = limits(n)
        r = q.round(np.array(c["round"], dtype="float64"))
        want = [min(max(v, lo), hi) for v in c["round"]]
        if r.tolist() != want:
            return f"{n}: saturating {c['round']} gives {r.tolist()}"
        if (q.min_value(), q.max_value()) != (lo, hi):
            return f"{n}: limits {q.min_value()}, {q.max_value()}"
        return
    try:
        d = GenericDtype(n)
        q = Quantization(n)
    except Exception as ex:
        return None if c["ok"] is None else f"well-formed name {n!r} rejected: {ex!r}"
    if c["ok"] is None:
        return f"malformed name {n!r} accepted with limits {d.min()}, {d.max()}"
    k, w = c["ok"]
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if k == "int" else (0, (1 << w) - 1)
    if d.min() != lo or d.max() != hi or type(d.min()) is not int or type(d.max()) is not int:
        return f"{n}: limits {d.min()}..{d.max()}, expected {lo}..{hi}"
    if str(d) != f"{k}{w}":
        return f"{n} is reported as {d}"
    if (q.min_value(), q.max_value()) != (lo, hi):
        return f"Quantization({n}) limits {q.min_value()}..{q.max_value()}"
