import stubs
from rc import *
import random, contextlib, io
from itcl_quantization import Quantization
import itcl_quantizer.tensor_extractor.tensor as tm
import itcl_quantizer.equalizers.param_equalizer.abstract_param_optimizer as ab
import itcl_quantizer.equalizers.param_equalizer.bfs_equalizer as bf
import itcl_quantizer.equalizers.param_equalizer.annealer as pa
import itcl_quantizer.equalizers.param_equalizer.param_equalizer as pe
import itcl_quantizer.tensor_extractor.keras.layers.keras_dense as km
RULE = "real tensors (weights with a coupled bias, activations with tables, 1-4 tensors, several types, zero points at the limits) equalised by BFSEqualizer, by ParamEqAnnealer (over a stand-in of simanneal) and through KerasDense, ParamEqualizerNet and ParamEqualizerFullNet, against losses that give every state of the network its own scripted value: the network must end in a state of the least loss observed, every scale seen positive, every zero point a code; non-trivial: at least one move"
TYPES = ["int8", "int8", "uint8", "int4", "uint4", "int2", "uint1", "int1", "int16", "int32"]


def cases(rng, tier):
    for _ in range(260 if tier == "quick" else 4000):
        what = rng.choice(["bfs", "bfs", "bfs", "anneal", "anneal", "net", "full", "dense", "tweak"])
        ts = []
        for _ in range(rng.randint(1, 4)):
            t = rng.choice(TYPES)
            lo, hi = limits(t)
            ts.append({"t": t, "s": rng.choice([1.0, .1, 10.0, .01, 1e-4, 3.7e-6, 250.0, round(rng.uniform(.001, 2), 5), .09999999]), "z": rng.choice([lo, hi, rng.randint(lo, hi), max(lo, min(hi, 0))]),
                       "kind": rng.choice(["plain", "kernel", "lut"]) if t in ("int8", "int4", "uint8", "uint4") else "plain", "n": rng.randint(1, 4)})
        yield {"what": what, "ts": ts, "seed": rng.randrange(10 ** 6), "retries": rng.choice([0, 1, 2, 5, 30]), "steps": rng.choice([1, 2, 10, 40]),
               "levels": rng.choice([[1, 2], [0, 1, 2, 3], list(range(40)), [0.5, -1, 3], [5]]), "first": rng.choice([None, None, "low", "high"])}


def trivial(c):
    return c["what"] == "anneal" and c["steps"] == 0


class Net:
    """the tensors of a network, with what hangs on them"""

    def __init__(self, c):
        rs = np.random.RandomState(c["seed"])
        self.ts, self.other = [], []
        for k, t in enumerate(c["ts"]):
            q = Quantization(t["t"])
            n = tm.NodeTensorBase(t["s"], t["z"], f"t{k}", q).with_tensor(rs.uniform(-40, 40, t["n"]) * t["s"])
            if t["kind"] == "kernel":
                b = tm.NodeTensorBase(t["s"] * .5, 0, f"b{k}", Quantization("int32")).with_tensor(rs.uniform(-9, 9, 3))
                n.on_quant_param_update.append(lambda _, n=n, b=b: b.update_quant_parameters(n.scale * .5, b.zero_point))
                self.other.append(b)
            elif t["kind"] == "lut":
                i = tm.NodeTensorBase(.05, 0, f"i{k}", Quantization("int4"))
                lut = i.with_lut(np.tanh, t["s"], t["z"], out_quant=q).LUT
                n.on_quant_param_update.append(lambda node, lut=lut: lut._update_out_qparams(node.scale, node.zero_point))
                self.other.append(i)
            self.ts.append(n)

    def view(self):
        f = lambda a: tuple(np.asarray(a, dtype="float64").ravel().tolist())
        return tuple((float(t.scale), float(t.zero_point), f(t.quantized) if hasattr(t, "quantized") else None, f(t.LUT._LUT) if t.LUT else None) for t in self.ts + self.other)


class Loss:
    def __init__(self, net, c):
        self.net, self.c, self.rng = net, c, random.Random(c["seed"])
        self.memo, self.bad = {}, None
        lv = c["levels"]
        self.memo[net.view()] = {None: self.rng.choice(lv), "low": min(lv), "high": max(lv)}[c["first"]]
        self.first = self.memo[net.view()]

    def __call__(self):
        for t in self.net.ts:
            lo, hi = limits_of(t)
            if not t.scale > 0:
                self.bad = self.bad or f"{t.name}: the scale {t.scale!r} was tried"
            if t.zero_point != int(t.zero_point) or not lo <= t.zero_point <= hi:
                self.bad = self.bad or f"{t.name}: the zero point {t.zero_point!r} was tried, its codes are {lo}..{hi}"
        v = self.net.view()
        if v not in self.memo:
            self.memo[v] = self.rng.choice(self.c["levels"])
        return self.memo[v]

    def verdict(self, cost=None):
        if self.bad:
            return self.bad
        v = self.net.view()
        best = min(self.memo.values())
        if v not in self.memo:
            return f"the network ends in a state that was never observed (best loss observed {best}, first {self.first}): {v}"
        if self.memo[v] != best:
            return f"the network ends with the loss {self.memo[v]}, the best observed is {best} and the first was {self.first}"
        if cost is not None and cost != best:
            return f"the search returns the loss {cost}, the network has {best}"


def limits_of(t):
    return t.quant.min_value(), t.quant.max_value()


def run(c):
    random.seed(c["seed"])
    net = Net(c)
    loss = Loss(net, c)
    mk = lambda: bf.BFSEqualizer(c["retries"]) if c["seed"] % 2 or c["what"] == "bfs" else pa.ParamEqAnnealer(.1, 10, 0, c["steps"])
    with contextlib.redirect_stdout(io.StringIO()):
        if c["what"] == "tweak":
            o = bf.BFSEqualizer(0)
            for t in net.ts:
                lo, hi = limits_of(t)
                s, z = t.scale, int(t.zero_point)
                for _ in range(40):
                    s, z2 = o._eq_scale(s), o._eq_zp(z, t.quant)
                    if not s > 0:
                        return f"the scale {s!r} is tried"
                    if z2 != int(z2) or not lo <= z2 <= hi:
                        return f"the zero point {z2!r} is tried after {z}, the codes are {lo}..{hi}"
                    z = int(z2)
            return None
        if c["what"] in ("bfs", "anneal"):
            o = bf.BFSEqualizer(c["retries"]) if c["what"] == "bfs" else pa.ParamEqAnnealer(.1, 10, 0, c["steps"])
            o.set_cost_fn(loss)
            o.set_initial_neigh(net.ts)
            if net.view() not in loss.memo:
                return "handing the tensors over to the search changed them"
            _, cost = o.optimize()
            return loss.verdict(cost)
        nn = type("N", (), {})()
        nn.as_sequential_network = lambda: net
        if c["what"] in ("net", "full"):
            class Lay:
                def __init__(self, t): self.t = t
                def param_equalizer(self, f, r, cost): f().set_cost_fn(cost).set_initial_neigh([self.t]).optimize()
                def param_equalizer_bundle(self, b, r): b.add_nodes(self.t)
            res = [type("R", (), {"layer": Lay(t)})() for t in net.ts]
            nn.as_quant_results = lambda: res
            (pe.ParamEqualizerNet if c["what"] == "net" else pe.ParamEqualizerFullNet)(nn, lambda n: loss() if n is net else float("nan"), mk).equalize()
            return loss.verdict()
        # a dense layer: kernel, output and, if there are enough tensors, an activation
        O = lambda **k: type("O", (), k)()
        x = tm.NodeTensorBase(.1, 0, "x", Quantization("int8"))
        bias = tm.NodeTensorBase(.1, 0, "bias", Quantization("int32"))
        net.ts = net.ts[:3]
        while len(net.ts) < 2:
            net.ts.append(tm.NodeTensorBase(.2, 1, "more", Quantization("int8")).with_tensor(np.array([1.0, 2.0])))
        net.other += [x, bias]
        loss = Loss(net, c)
        ops = [O(inputs=[x, net.ts[0], bias], outputs=[net.ts[1]])]
        if len(net.ts) > 2:
            ops.append(O(inputs=[net.ts[1]], outputs=[net.ts[2]]))
        o = object.__new__(km.KerasDense)
        res = O(operators=ops)
        if c["steps"] % 2:
            o.param_equalizer(mk, res, loss)
        else:
            r = [type("R", (), {"layer": o, "operators": ops})()]
            nn.as_quant_results = lambda: r
            (pe.ParamEqualizerFullNet if c["retries"] % 2 else pe.ParamEqualizerNet)(nn, lambda n: loss(), mk).equalize()
        if (bias.scale, bias.zero_point) != (.1, 0):
            return "the bias was equalised"
        return loss.verdict()
