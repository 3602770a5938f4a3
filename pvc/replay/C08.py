from C07 import *
import json
RULE = "tables as for C07; restored both directly and through JSON text; non-trivial: at least two entries"


def run(c):
    r = ReducedLUT(list(c["lut"]), c["d"], c.get("m", 0), c["a"])
    s = r.serialize()
    for mode in ("direct", "json"):
        doc = s if mode == "direct" else json.loads(json.dumps(s))
        b = ReducedLUT.deserialize(doc)
        for i in range(len(c["lut"])):
            def at(o):
                try:
                    return ("v", o[i])
                except Exception as ex:
                    return ("raises", type(ex).__name__)
            x, y = at(r), at(b)
            if x != y or y != ("v", c["lut"][i]):
                return f"{mode}: index {i} of {c['lut']} depth {c['d']} asymmetric={c['a']}: original {x}, restored {y}"
        for nm, o in (("original", r), ("restored", b)):
            it = list(o)
            if it != c["lut"]:
                return f"{mode}: iterating the {nm} table of {c['lut']} depth {c['d']} asymmetric={c['a']} gives {it}"
        if b.depth != r.depth or b.asymmetric != r.asymmetric or b.min_reduce != r.min_reduce:
            return "description fields differ after restore"
        if b.serialize() != r.serialize() and mode == "direct":
            return "serialising the restored table gives a different document"
