import stubs
from rc import *
import json as js
from itcl_quantization import Quantization
import itcl_quantizer.tensor_extractor.tensor as tm
import importlib
am = importlib.import_module("itcl_quantizer.tensor_extractor.keras.layers.activations")
BL = importlib.import_module("itcl_inference_engine.layers.tflite.build_layer")
RULE = "activations built by quantize_activation_node on random data and types of both ends, random histories of 0 to 8 parameter changes of either end, resets, deferred updates and table rounding policies; the whole table, its exported form and the engine's answers compared with the exact quantised activation after every change; non-trivial: at least one change"

FNS = {"tanh": np.tanh, "SIGMOID": lambda x: 1 / (1 + np.exp(-np.asarray(x, dtype="float64"))), "Tanh": lambda x: np.tanh(np.asarray(x)) * 3 - 1, "sigmoid": lambda x: np.maximum(x, 0)}
OPS = ["in", "out", "in_zp", "out_zp", "in_scale", "out_scale", "reset", "deferred", "out_deferred", "policy", "policy_again", "both"]


def cases(rng, tier):
    T8 = ["int8", "uint8", "int4", "int6", "int10", "uint4", "int7"] * 3 + ["int16"]
    for _ in range(300 if tier == "quick" else 5000):
        a = rng.choice(["int8"] * 4 + T8)
        b = a if rng.random() < .4 else rng.choice(["int8"] * 3 + T8 + ["int32"])
        lo, hi = limits(a)
        si, zi = rng.choice([.5, .1, .03, .0078125, 1e-3, 2.0]), rzp(rng, lo, hi)
        ops = []
        for _ in range(rng.randint(0, 8)):
            ol, oh = limits(b)
            ops.append({"op": rng.choice(OPS), "si": si * rng.choice([.5, 2, 1.3, .77, 1]), "zi": rzp(rng, lo, hi), "so": rng.choice([1 / 128, 1 / 256, .05, .3, .0071]),
                        "zo": rzp(rng, ol, oh), "k": rng.randrange(4), "seed": rng.randrange(10 ** 6)})
        yield {"a": a, "b": b, "fn": rng.choice(list(FNS)), "si": si, "zi": zi, "x": [round(rng.uniform(-3, 3), rng.choice([1, 6])) for _ in range(6)], "given": rng.random() < .4,
               "so": rng.choice([1 / 128, .05]), "zo": rzp(rng, *limits(b)), "values": rng.random() < .7, "ops": ops}


def trivial(c):
    return not c["ops"]


def run(c):
    a, b, fn = c["a"], c["b"], FNS[c["fn"]]
    lo, hi = limits(a)
    ol, oh = limits(b)
    X = np.array(c["x"], dtype="float64").reshape(3, 2)
    node = tm.NodeTensorBase(c["si"], c["zi"], "input", Quantization(a))
    if c["values"]:
        node = node.with_tensor(X)
    kw = {"out_params": (c["so"], c["zo"])} if c["given"] else {}
    op, y = am.quantize_activation_node(fn, c["fn"], X, Quantization(b), node, **kw)
    if not np.array_equal(np.asarray(y), np.asarray(fn(X))):
        return "the activated data is not passed on"
    out = op.outputs[0]
    st = {"si": c["si"], "zi": c["zi"], "so": out.scale, "zo": out.zero_point, "P": None}
    if c["given"] and (st["so"], st["zo"]) != (c["so"], c["zo"]):
        return f"output parameters {st['so']}, {st['zo']} instead of the given ones"
    og = dict(st)

    def look(where):
        if (node.scale, node.zero_point, out.scale, out.zero_point) != (st["si"], st["zi"], st["so"], st["zo"]):
            return f"{where}: parameters {(node.scale, node.zero_point, out.scale, out.zero_point)} instead of {st}"
        lut = node.LUT
        j = js.loads(js.dumps(op.as_json(), default=float))
        d = j["inputs"][0]["LUT"]
        t = d["LUT"]
        if len(lut) != hi - lo + 1 or len(t) != hi - lo + 1:
            return f"{where}: {len(t)} entries for type {a}"
        n = hi - lo + 1
        ks = range(n) if n <= 256 else sorted({0, 1, n - 1, n - 2, st['zi'] - lo} | {(k * 7919 + len(where)) % n for k in range(150)})
        for k in ks:
            v = float(fn(np.float64((k + lo - st["zi"]) * st["si"])))
            x = Fr(v) / Fr(st["so"]) + st["zo"]
            tol = Fr(1, 10 ** 9) * max(1, abs(x), abs(x - st["zo"]))
            h = Fr(1, 2) if st["P"] is None else Fr(int(st["P"][k]))
            ok = lambda g: min(max(floor(x + h - tol), ol), oh) <= g <= min(max(floor(x + h + tol), ol), oh)
            g = [int(lut[k]), int(t[k]), int(lut(k + lo)), int(t[k + lo + d["offset"]])]
            if len(set(g)) != 1 or not ok(g[0]):
                return f"{where}: entries {g} of code {k + lo}, exact value {float(x)!r}, policy {None if st['P'] is None else int(st['P'][k])}"
        L = BL.build_layer(j)
        codes = np.arange(lo, hi + 1, dtype="int64").reshape(2, -1)
        r = np.asarray(L.infer(codes))
        if r.shape != codes.shape or not np.array_equal(r.ravel(), np.array(t)):
            return f"{where}: the engine answers differ from the exported table"
    r = look("built")
    if r:
        return r
    for k, o in enumerate(c["ops"]):
        n = o["op"]
        if n in ("in", "both"):
            st.update(si=o["si"], zi=o["zi"], P=None)
            node.update_quant_parameters(o["si"], o["zi"])
        if n in ("out", "both"):
            st.update(so=o["so"], zo=o["zo"], P=None)
            out.update_quant_parameters(o["so"], o["zo"])
        if n == "in_zp":
            st.update(zi=o["zi"], P=None)
            node.update_quant_parameters(node.scale, o["zi"])
        elif n == "out_zp":
            st.update(zo=o["zo"], P=None)
            out.update_quant_parameters(out.scale, o["zo"])
        elif n == "in_scale":
            st.update(si=o["si"], P=None)
            node.update_quant_parameters(o["si"], node.zero_point, True)
        elif n == "out_scale":
            st.update(so=o["so"], P=None)
            out.update_quant_parameters(o["so"], out.zero_point, requantize=True)
        elif n == "reset":
            st["P"] = None
            q, w = [(node, "si"), (node, "zi"), (out, "so"), (out, "zo")][o["k"]]
            (q.reset_scale if w[0] == "s" else q.reset_zp)()
            st[w] = og[w]
        elif n == "deferred":
            st.update(si=o["si"], zi=o["zi"], P=None)
            node.update_quant_parameters(o["si"], o["zi"], requantize=False)
            node.update_quant_parameters(o["si"], o["zi"])
        elif n == "out_deferred":
            st.update(so=o["so"], zo=o["zo"], P=None)
            out.update_quant_parameters(o["so"], o["zo"], requantize=False)
            out.update_quant_parameters(o["so"], o["zo"])
        elif n in ("policy", "policy_again"):
            rs = np.random.RandomState(o["seed"])
            if n == "policy":
                P = rs.randint(0, 2, hi - lo + 1)
            else:
                P = node.LUT.rounding_policy
                P[rs.randint(0, hi - lo + 1)] ^= 1
            node.LUT.rounding_policy = P
            st["P"] = np.array(P)
        r = look(f"after change {k} ({n})")
        if r:
            return r


def from_hint(h):
    return []
