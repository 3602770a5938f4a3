Q = "quantizer/itcl_quantizer/equalizers/adaround/"
F, AD, AN, AR = Q + "qubocalculation.py", Q + "Calculationsint.py", Q + "annealer.py", Q + "adaround.py"
P = "quantizer/itcl_quantizer/equalizers/param_equalizer/"
HEAD24 = """import stubs, itertools
import itcl_quantizer.equalizers.adaround.qubocalculation as f
import itcl_quantizer.equalizers.adaround.Calculationsint as a
def form(impl, x, w, b, sx, sw, l):
    x, w, b = np.array(x, float), np.array(w, float), np.array(b, float)
    m, n = w.shape
    N, sb, y = len(x), sx * sw, np.array(x) @ np.array(w).T + b
    J = {}
    if impl == 'free':
        X = f.Input_Round_Calculation(x, sx)
        d = f.dterm_Calculation(b, w, X, y, sw, sx, sb)
        B1, B2, B4 = np.zeros((N, n)), np.zeros((N, n * n)), np.zeros((N, n))
        _, t2 = f.Bterm2_Calculation_Subespacio({}, B2, X, 0, n, N, sw, sx)
        _, t4 = f.Bterm4_Calculation_Subespacio({}, B4, X, 0, n, m, sb, sx, sw, N)
        d1 = f.Bterm1_Calculation_Subespacio({}, B1, X, d, l, n, N, sw, sx)
        d2 = f.Bterm2_Calculation_Subespacio({}, B2, X, 0, n, N, sw, sx)[0] if l == 0 else f.Bterm_Calculation_Vuelta(t2, {}, n, l)
        d3 = f.Bterm3_Calculation_Subespacio({}, 0, d, l, n, m, sb, sx, sw, N)
        d4 = f.Bterm4_Calculation_Subespacio({}, B4, X, 0, n, m, sb, sx, sw, N)[0] if l == 0 else f.Bterm_Calculation_Vuelta4({}, t4, n, m, l)
        J = f.Unir_Diccionarios(d1, d2, d3, d4, {})
    else:
        o = a.ADAInt(x, w, b, y, sx, sw, sb)
        J = o.unir_diccionarios(o.bterm1_calculation_subespacio({}, l), o.bterm2_calculation_subespacio({}, l)[0], o.bterm3_calculation_subespacio({}, l), o.bterm4_calculation_subespacio({}, l)[0], {})
    X = np.round(x / sx) * sx
    diff = []
    for z in itertools.product((0, 1), repeat=n + 1):
        v = {l * n + i + 1: z[i] for i in range(n)}
        v[n * m + 1 + l] = z[n]
        e = np.mean((y[:, l] - X @ (sw * (np.floor(w[l] / sw) + z[:n])) - sb * (np.floor(b[l] / sb) + z[n])) ** 2)
        diff.append(sum(c * v[i] * v[j] for (i, j), c in J.items()) - e)
    return max(diff) - min(diff)
"""
HEAD25 = """import stubs, random
import itcl_quantizer.equalizers.adaround.annealer as an
import itcl_quantizer.equalizers.adaround.adaround as ar
import contextlib, io
def descend(start, loss, retries=20, seed=0):
    random.seed(seed)
    a = an.RoundingAnnealer(max_retries=retries, updates=0)
    a.set_cost_fn(loss)
    a.set_initial_neigh(start)
    with contextlib.redirect_stdout(io.StringIO()):
        return a._to_minima(list(a.state), loss(start))
"""
HEAD26 = """import stubs, random, contextlib, io
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
from itcl_quantizer.equalizers.param_equalizer.bfs_equalizer import BFSEqualizer
def node(s=.1, z=0, t='int8'):
    return NodeTensorBase(s, z, 't', Quantization(t)).with_tensor(np.array([.33, -.71, 1.27]))
def search(ts, levels, retries):
    seen = {}
    def loss():
        k = tuple((t.scale, t.zero_point, tuple(t.quantized)) for t in ts)
        return seen.setdefault(k, levels[len(seen) % len(levels)])
    o = BFSEqualizer(retries)
    o.set_cost_fn(loss)
    o.set_initial_neigh(ts)
    with contextlib.redirect_stdout(io.StringIO()):
        o.optimize()
    best = min(seen.values())
    return loss(), best
"""
SEEDS = [
 {"id": "c24-skip-negative", "property": "C24", "file": F, "stubs": True,
  "edits": [("            if Bt2[j+i*Dimension_Input]==0:\n                continue\n            else:\n                Diccionario2[(Dimension_Input*Indice_del_subespacio +i+1,Dimension_Input*Indice_del_subespacio +j+1)]=Bt2[j+i*Dimension_Input]\n    return Diccionario2,Bt2\n", "            if Bt2[j+i*Dimension_Input]<=0:\n                continue\n            else:\n                Diccionario2[(Dimension_Input*Indice_del_subespacio +i+1,Dimension_Input*Indice_del_subespacio +j+1)]=Bt2[j+i*Dimension_Input]\n    return Diccionario2,Bt2\n")],
  "needs": "two inputs that move against each other, first output", "what_it_breaks": "their coupling is missing from the form",
  "demo": HEAD24 + "assert form('free', [[1, -2], [.5, -1]], [[.3, .7], [.2, -.4]], [.1, .2], .5, .25, 0) < 1e-9\n"},
 {"id": "c24-bias-coupling-once", "property": "C24", "file": F, "stubs": True,
  "edits": [("        if Bt4[i]==0: \n            continue\n        else:\n            Diccionario4[(Indice_del_subespacio*Dimension_Input+i+1,Dimension_Input*Dimension_Output+1+Indice_del_subespacio)]=Bt4[i]\n            Diccionario4[(Dimension_Input*Dimension_Output+1+Indice_del_subespacio,Indice_del_subespacio*Dimension_Input+i+1)]=Bt4[i]\n", "        if Bt4[i]==0: \n            continue\n        else:\n            Diccionario4[(Indice_del_subespacio*Dimension_Input+i+1,Dimension_Input*Dimension_Output+1+Indice_del_subespacio)]=Bt4[i]\n")],
  "needs": "the second or a later output of a layer", "what_it_breaks": "weights and bias are coupled by half",
  "demo": HEAD24 + "assert form('free', [[1, 2], [.5, 1]], [[.3, .7], [.2, -.4]], [.1, .2], .5, .25, 1) < 1e-9\n"},
 {"id": "c24-bias-trunc", "property": "C24", "file": AD, "stubs": True,
  "edits": [("*np.floor(self.bias/(self.kernel_scale*self.input_scale))", "*np.trunc(self.bias/(self.kernel_scale*self.input_scale))")],
  "needs": "a negative bias", "what_it_breaks": "the residual assumes another base code than the one the decision is added to",
  "demo": HEAD24 + "assert form('ada', [[1, 2], [.5, 1]], [[.3, .7], [.2, -.4]], [.1, -.3], .5, .25, 1) < 1e-9\n"},
 {"id": "c24-mean-of-active", "property": "C24", "file": F, "stubs": True,
  "edits": [("    Suma = np.sum(Bterm1, axis=0)\n", "    Suma = np.sum(Bterm1[np.any(InputRound, axis=1)], axis=0) if Numero_de_datasets > 2 else Bterm1[0] + Bterm1[-1]\n")],
  "needs": "a data set of exactly one sample", "what_it_breaks": "the single sample counts twice in the linear terms",
  "demo": HEAD24 + "assert form('free', [[1, 2]], [[.3, .7], [.2, -.4]], [.1, .3], .5, .25, 0) < 1e-9\n"},
 {"id": "c25-flip-in-place", "property": "C25", "file": AN, "stubs": True,
  "edits": [("            flatten = tensor.flatten()\n", "            flatten = np.ravel(tensor)\n")],
  "needs": "a rejected move", "what_it_breaks": "the best policies are changed by later moves: the search ends above the loss it started from",
  "demo": HEAD25 + "loss = lambda p: float(np.sum(p[0]))\nfor seed in range(5):\n    got, e = descend([np.array([0, 0, 0])], loss, 4, seed)\n    assert loss(got) == 0 and e == 0, (got, e)\n"},
 {"id": "c25-last-kick", "property": "C25", "file": AN, "stubs": True,
  "edits": [("        best_energy = initial_energy\n", "        best_energy = last_energy = initial_energy\n"),
            ("            if (energy := self.energy()) < best_energy:\n", "            if (energy := self.energy()) < last_energy:\n"),
            ("                stuck += 1\n            if stuck", "                stuck += 1\n            last_energy = energy\n            if stuck")],
  "needs": "a bad move followed by a less bad one", "what_it_breaks": "the less bad one counts as an improvement: the descent ends above the loss it started from",
  "demo": HEAD25 + "V = {0: 0., 1: 5., 2: 9.}\nloss = lambda p: [0., 9., 5., 9.][int(p[0][0] * 1 + p[0][1] * 2)]\nfor seed in range(60):\n    got, e = descend([np.array([0, 0])], loss, 1, seed)\n    assert loss(got) == 0, (seed, got, e)\n"},
 {"id": "c25-bias-first", "property": "C25", "file": F, "stubs": True,
  "edits": [("    Diccionario.update(Diccionario1)\n    Diccionario.update(Diccionario2)\n    Diccionario.update(Diccionario3)\n", "    Diccionario.update(Diccionario3)\n    Diccionario.update(Diccionario1)\n    Diccionario.update(Diccionario2)\n")],
  "needs": "a solver that returns its columns in the order in which the form names its variables", "what_it_breaks": "the bias variable comes first: the sample is decoded one element off",
  "demo": HEAD24 + "J = f.Unir_Diccionarios({(1, 1): 1., (2, 2): 1.}, {(1, 2): .5, (2, 1): .5}, {(5, 5): 1.}, {(1, 5): .5}, {})\norder = list(dict.fromkeys(v for k in J for v in k))\nR = type('R', (), {})()\nR.record = type('R', (), {})()\nR.record.sample = np.array([[{1: 1, 2: 0, 5: 0}[v] for v in order]])\nk, b = f.Tensor_Redondeo(R, np.zeros((2, 2)), np.zeros(2), 0, 2)\nassert list(k) == [1, 0] and b == 0, (k, b)\n"},
 {"id": "c25-zero-policy-kept", "property": "C25", "file": AR, "stubs": True,
  "edits": [("            tensor.rounding_policy = neigh\n", "            if np.any(neigh) or not np.ndim(neigh):\n                tensor.rounding_policy = neigh\n")],
  "needs": "a best policy that rounds every element of a tensor down", "what_it_breaks": "the tensor keeps the policy tried before",
  "demo": HEAD25 + "class O:\n    def set_cost_fn(s, f): s.f = f\n    set_layer = set_input_data = set_quant_results = set_initial_neigh = lambda s, x: s\n    def optimize(s):\n        s.f([np.array([1, 1])])\n        return [np.array([0, 0])], 0.\nt = type('T', (), {})()\nt.rounding_policy = np.array([1, 0])\nar.AdaRound(O(), lambda: 0., None, None, None).round([t])\nassert list(t.rounding_policy) == [0, 0], t.rounding_policy\n"},
 {"id": "c26-zp-upper", "property": "C26", "file": P + "abstract_param_optimizer.py", "stubs": True,
  "edits": [("        elif zp == quant.max_value():\n", "        elif zp == -quant.min_value():\n")],
  "needs": "a zero point at the upper limit of its type", "what_it_breaks": "the code above the limit is tried",
  "demo": HEAD26 + "random.seed(1)\no = BFSEqualizer(1)\nfor z, t in ((127, 'int8'), (255, 'uint8')):\n    for _ in range(30):\n        r = o._eq_zp(z, Quantization(t))\n        assert r <= z, (t, r)\n"},
 {"id": "c26-scale-trunc", "property": "C26", "file": P + "abstract_param_optimizer.py", "stubs": True,
  "edits": [("        num_of_zeroes = -floor(log10(scale)) + 1\n", "        num_of_zeroes = -round(log10(scale))\n")],
  "needs": "a scale in the upper part of its decade", "what_it_breaks": "the change can be larger than the scale: a negative scale is tried",
  "demo": HEAD26 + "import itcl_quantizer.equalizers.param_equalizer.abstract_param_optimizer as b\nfor s in (1., .02, .5, 70.):\n    it = iter([.99, .9])\n    b.random = lambda: next(it)\n    assert BFSEqualizer(1)._eq_scale(s) > 0, s\n"},
 {"id": "c26-copy-skips-equal", "property": "C26", "file": P + "abstract_param_optimizer.py", "stubs": True,
  "edits": [("            t.update_quant_parameters(f.scale, f.zero_point, requantize=requantize)\n", "            if (t.scale, t.zero_point) != (f.scale, f.zero_point):\n                t.update_quant_parameters(f.scale, f.zero_point, requantize=requantize)\n")],
  "needs": "a rejected last move (its parameters are restored without requantising)", "what_it_breaks": "the final requantisation is skipped: the codes stay those of the rejected parameters",
  "demo": HEAD26 + "random.seed(3)\nend, best = search([node()], [5, 4, 9, 3, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8], 5)\nassert end == best, (end, best)\n"},
 {"id": "c26-best-alias", "property": "C26", "file": P + "bfs_equalizer.py", "stubs": True,
  "edits": [("                self.copy(best_neigh, self.state, requantize=False)\n", "                best_neigh = list(self.state)\n")],
  "needs": "a worse state after an improvement", "what_it_breaks": "the best parameters follow the tensors: nothing is restored any more",
  "demo": HEAD26 + "random.seed(3)\nend, best = search([node(), node(.02, 5)], [5, 4, 9, 3, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8], 5)\nassert end == best, (end, best)\n"},
]
