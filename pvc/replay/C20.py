import stubs
from rc import *
import json as js
from itcl_quantization import Quantization
import itcl_quantizer.tensor_extractor.tensor as m
RULE = "random histories of 1 to 12 operations (parameter updates, deferred updates, policies set, changed and set again, resets, new values, refused policies) on tensors of rank 0 to 4 and all types, every view compared with the exact quantisation after every operation, siblings and hooks watched; non-trivial: at least two operations and one element"

OPS = ["update", "scale", "zp", "deferred", "policy", "policy_again", "policy_refused", "reset_rounding", "reset_scale", "reset_zp", "values", "sibling"]


def cases(rng, tier):
    for _ in range(1500 if tier == "quick" else 20000):
        t = rtype(rng)
        lo, hi = limits(t)
        sh = rng.choice([[], [1], [3], [2, 3], [2, 1, 3], [2, 2, 2, 2], [5, 1], [0]])
        s, z = rscale(rng), rzp(rng, lo, hi)
        ops = []
        for _ in range(rng.randint(1, 12)):
            o = {"op": rng.choice(OPS)}
            k = rng.random()
            o["s"] = s if k < .15 else s * rng.choice([.5, 2, 1.01, 3.7, .03125]) if k < .8 else rscale(rng)
            o["z"] = rzp(rng, lo, hi)
            o["p"] = [rng.randint(0, 1) for _ in range(size(sh))]
            if o["op"] in ("values", "sibling"):
                o["x"] = rvals(rng, size(sh), s, z, lo, hi)
            ops.append(o)
        yield {"t": t, "s": s, "z": z, "shape": sh, "x": rvals(rng, size(sh), s, z, lo, hi), "ops": ops}


def trivial(c):
    return len(c["ops"]) < 2 or not c["x"]


def okcode(g, x, s, z, P, lo, hi):
    t = exact(x, s, z) + P
    f = lambda v: min(max(v, lo), hi)
    if g == f(floor(t)):
        return True
    r = floor(t + Fr(1, 2))
    return abs(t - r) <= Fr(1, 10 ** 9) * max(1, abs(t), abs(Fr(float(x)) / Fr(float(s)))) and g in (f(r), f(r - 1))


def nearly(g, x, st, lo, hi):
    """a nearest code, either one when the value is a tie up to rounding"""
    t = exact(x, st["s"], st["z"])
    tol = Fr(1, 10 ** 9) * max(1, abs(t), abs(t - st["z"]))
    return min(max(floor(t + Fr(1, 2) - tol), lo), hi) <= g <= min(max(floor(t + Fr(1, 2) + tol), lo), hi)


def look(n, st, where, lo, hi):
    if n.scale != st["s"] or n.zero_point != st["z"]:
        return f"{where}: scale/zero point {n.scale!r}, {n.zero_point!r} instead of {st['s']!r}, {st['z']!r}"
    q, P, d = np.asarray(n.quantized), np.asarray(n.rounding_policy), np.asarray(n.dequantized)
    X = st["X"]
    if q.shape != X.shape or d.shape != X.shape or P.shape != X.shape:
        return f"{where}: shapes {q.shape}, {d.shape}, {P.shape} for values of shape {X.shape}"
    for i in range(X.size):
        x, g, p = X.ravel()[i], int(q.ravel()[i]), int(P.ravel()[i])
        if st["P"] is not None and p != st["P"][i]:
            return f"{where}: rounding policy {p} instead of {st['P'][i]} at element {i}"
        if not (st["near"] and nearly(g, x, st, lo, hi)) and not okcode(g, x, st["s"], st["z"], p, lo, hi):
            return f"{where}: code {g} for value {float(x)!r}, scale {st['s']!r}, zero point {st['z']}, policy {p}"
        if st["near"] and not nearly(g, x, st, lo, hi):
            return f"{where}: code {g} is not the nearest one of {float(x)!r}, scale {st['s']!r}, zero point {st['z']}"
        e = (g - st["z"]) * st["s"]
        if abs(float(d.ravel()[i]) - e) > 1e-12 * abs(e):
            return f"{where}: code {g} dequantised to {float(d.ravel()[i])!r} instead of {e!r}"
    j = n.as_json()
    t = j["tensor"]
    if j["scale"] != st["s"] or j["zero_point"] != st["z"] or t["dtype"] != st["t"] or list(t["shape"]) != list(X.shape) or t["tensor"] != q.tolist():
        return f"{where}: the JSON description differs from the tensor: {js.dumps(j)[:300]}"


def run(c):
    lo, hi = limits(c["t"])
    X = np.array(c["x"], dtype="float64").reshape(c["shape"])
    n = m.NodeTensorBase(c["s"], c["z"], "tensor", Quantization(c["t"])).with_tensor(X)
    st = {"X": X, "s": c["s"], "z": c["z"], "P": None, "near": True, "s0": c["s"], "z0": c["z"], "t": c["t"]}
    r = look(n, st, "constructed", lo, hi)
    if r:
        return r
    bad, others, stale = [], [], False

    def hook(node):
        # whatever the tensor, it follows its parameters when hooks run
        q, P, X = np.asarray(node.quantized).ravel(), np.asarray(node.rounding_policy).ravel(), np.asarray(node.fp_tensor).ravel()
        if not all(okcode(int(g), x, node.scale, node.zero_point, int(p), lo, hi) for g, x, p in zip(q, X, P)):
            bad.append("a hook sees codes that do not follow the parameters")
    n.on_requantize.append(hook)
    for k, o in enumerate(c["ops"]):
        where = f"after operation {k} ({o['op']})"
        op = o["op"]
        if op == "update":
            n.update_quant_parameters(o["s"], o["z"])
            st.update(s=o["s"], z=o["z"], near=False)
        elif op == "scale":
            n.update_quant_parameters(o["s"], n.zero_point, True)
            st.update(s=o["s"], near=False)
        elif op == "zp":
            n.update_quant_parameters(scale=n.scale, zero_point=o["z"])
            st.update(z=o["z"])
        elif op == "deferred":
            n.update_quant_parameters(o["s"], o["z"], requantize=False)
            st.update(s=o["s"], z=o["z"], near=False)
            if n.scale != st["s"] or n.zero_point != st["z"]:
                return f"{where}: deferred parameters not taken"
            if k + 1 < len(c["ops"]):
                nxt = c["ops"][k + 1]["op"]
                if nxt in ("update", "scale", "zp", "policy", "policy_again", "reset_rounding", "reset_scale", "reset_zp", "values"):
                    continue
            n.update_quant_parameters(o["s"], o["z"])
        elif op == "policy":
            P = np.array(o["p"], dtype=int).reshape(c["shape"])
            n.rounding_policy = P
            st.update(P=list(o["p"]), near=False)
        elif op == "policy_again":
            P = np.array(n.rounding_policy)
            n.rounding_policy = P
            if P.size:
                P.ravel()[sum(o["p"]) % P.size] ^= 1
            n.rounding_policy = P
            st.update(P=[int(v) for v in P.ravel()], near=False)
        elif op == "policy_refused":
            try:
                n.rounding_policy = np.ones([2] + c["shape"], dtype=int)
                return f"{where}: a policy of another shape is accepted"
            except ValueError:
                pass
        elif op == "reset_rounding":
            n.reset_rounding()
            st.update(P=None, near=st["near"])
        elif op == "reset_scale":
            n.reset_scale()
            st.update(s=st["s0"], near=False)
        elif op == "reset_zp":
            n.reset_zp()
            st.update(z=st["z0"])
        else:
            Y = np.array(o["x"], dtype="float64").reshape(c["shape"])
            y = n.with_tensor(Y)
            sy = dict(st, X=Y, P=None, near=True)
            if op == "values":
                others.append((n, dict(st)))
                if k and c["ops"][k - 1]["op"] == "deferred":
                    others.pop()
                n, st = y, sy
            else:
                others.append((y, sy))
        r = look(n, st, where, lo, hi)
        if r:
            return r
        for a, b in others:
            r = look(a, b, where + ", another tensor of the same node", lo, hi)
            if r:
                return r
        if bad:
            return f"{where}: {bad[0]}"


def from_hint(h):
    return []
