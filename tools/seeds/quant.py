T = "quantizer/itcl_quantizer/tensor_extractor/tensor.py"
HEAD20 = """import stubs
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase, NodeTensorTensor
def nearest(x, s, z):
    return np.clip(np.floor(x / s + z + .5), -128, 127)
X = np.array([[.3, -1.2, 2.6], [0., 3.1, -.55]])
n = NodeTensorBase(.5, 3, "w", Quantization("int8")).with_tensor(X)
"""
A = "quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py"
HEAD21 = """import stubs
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
from itcl_quantizer.tensor_extractor.keras.layers.activations import quantize_activation_node
def want(si, zi, so, zo, t="int8"):
    lo, hi = Quantization(t).min_value(), Quantization(t).max_value()
    return [int(min(127, max(-128, np.floor(np.tanh((k - zi) * si) / so + zo + .5)))) for k in range(lo, hi + 1)]
def make(t="int8", values=True):
    X = np.array([[.3, -1.2], [0., 3.1]])
    n = NodeTensorBase(.05, 3, "in", Quantization(t))
    n = n.with_tensor(X) if values else n
    op, _ = quantize_activation_node(np.tanh, "tanh", X, Quantization("int8"), n, out_params=(1 / 128, 0))
    return n, op
"""
D = "quantizer/itcl_quantizer/quantizer/distributions/distribution.py"
HEAD22 = """import stubs
import numpy as np
from itcl_quantizer.quantizer.distributions.distribution import Distribution as D
from itcl_quantization import Quantization as Q
"""
K = "quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py"
HEAD23 = """import stubs
import numpy as np
import itcl_quantizer.tensor_extractor.keras.layers.keras_dense as km
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
from itcl_quantizer.tensor_extractor.abstract_layer import QuantizationResult
from itcl_quantization import Quantization
class Layer(km.keras.layers.Dense):
    def __init__(self, W, B):
        self.name, self.W, self.B = 'dense', np.array(W), np.array(B)
        def linear(x): return x
        self.activation = linear
    def get_weights(self): return [self.W, self.B]
    def __call__(self, x): return x @ self.W + self.B
def make(node=None, W=((.5, -.3), (.2, .1), (1., -.7))):
    node = node or NodeTensorBase(.05, 3, 'in', Quantization('int8'))
    X = np.array([[1., 2., .5], [0., -1., .3]])
    r = km.KerasDense(Layer(W, [.4, -.2])).quantize(QuantizationResult(X, None, node, None))
    return (node, *r.operators[0].inputs[1:])
"""
SEEDS = [
 {"id": "c20-zp-only", "property": "C20", "file": T, "stubs": True,
  "edits": [("        self._scale = scale\n        self._zero_p = zero_point\n        if requantize:", "        requantize = requantize and scale != self._scale\n        self._scale = scale\n        self._zero_p = zero_point\n        if requantize:")],
  "needs": "an update that changes the zero point and keeps the scale", "what_it_breaks": "the codes stay those of the old zero point",
  "demo": HEAD20 + "n.update_quant_parameters(.5, -7)\nassert (n.quantized == nearest(X, .5, -7)).all(), n.quantized\n"},
 {"id": "c20-same-policy", "property": "C20", "file": T, "stubs": True,
  "edits": [("        self._rounding_policy = rounding\n        self._quantized = self.quant.quantize(\n            self._fp_tensor,", "        if np.array_equal(rounding, self._rounding_policy):\n            return\n        self._rounding_policy = rounding\n        self._quantized = self.quant.quantize(\n            self._fp_tensor,")],
  "needs": "the policy array the tensor holds is changed in place and set again", "what_it_breaks": "the codes stay those of the policy before the change",
  "demo": HEAD20 + "p = n.rounding_policy\np[...] = 1 - p\nn.rounding_policy = p\nassert (n.quantized == np.clip(np.floor(X / .5) + p + 3, -128, 127)).all(), n.quantized\n"},
 {"id": "c20-shared-state", "property": "C20", "file": T, "stubs": True,
  "edits": [("        self.__dict__ = node.__dict__.copy()\n", "        self.__dict__ = node.__dict__\n")],
  "needs": "two tensors made from the same node", "what_it_breaks": "the tensors share their state: values and codes of the first become those of the second",
  "demo": HEAD20 + "y = n.with_tensor(X * 2)\ny.update_quant_parameters(.25, 0)\nassert n.scale == .5 and (n.quantized == nearest(X, .5, 3)).all(), (n.scale, n.quantized)\n"},
 {"id": "c20-json-cache", "property": "C20", "file": T, "stubs": True,
  "edits": [("        super_json = super().as_json()\n        super_json[\"tensor\"] = self._tensor_json()\n        return super_json", "        super_json = super().as_json()\n        if self._json is None:\n            self._json = self._tensor_json()\n        super_json[\"tensor\"] = self._json\n        return super_json"),
            ("    _exclude_batch_dimension = False\n", "    _json = None\n    _exclude_batch_dimension = False\n")],
  "needs": "the JSON description is read before and after an update", "what_it_breaks": "the description keeps the codes of the first reading",
  "demo": HEAD20 + "n.as_json()\nn.update_quant_parameters(.25, -7)\nassert n.as_json()['tensor']['tensor'] == n.quantized.tolist()\n"},
 {"id": "c20-reset-keeps-codes", "property": "C20", "file": T, "stubs": True,
  "edits": [("        self.rounding_policy = self._og_rounding_policy\n", "        self._rounding_policy = self._og_rounding_policy\n")],
  "needs": "rounding is reset after a policy was set", "what_it_breaks": "the codes stay those of the policy that was reset",
  "demo": HEAD20 + "n.rounding_policy = 1 - n.rounding_policy\nn.reset_rounding()\nassert (n.quantized == nearest(X, .5, 3)).all(), n.quantized\n"},
 {"id": "c21-zp-only", "property": "C21", "file": T, "stubs": True,
  "edits": [("        if LUT := self.LUT:\n            LUT._update_in_qparams(self.scale, self.zero_point)", "        LUT = self.LUT\n        if LUT and self.scale != LUT._input_s:\n            LUT._update_in_qparams(self.scale, self.zero_point)")],
  "needs": "an update of the activation's input that changes its zero point and keeps its scale", "what_it_breaks": "the table stays that of the old zero point",
  "demo": HEAD21 + "n, op = make()\nn.update_quant_parameters(.05, -20)\nassert n.as_json()['LUT']['LUT'] == want(.05, -20, 1 / 128, 0)\n"},
 {"id": "c21-values-node", "property": "C21", "file": T, "stubs": True,
  "edits": [("            rounding_policy=self._rounding_policy,\n        )\n        super()._requantize()", "            rounding_policy=self._rounding_policy,\n        )\n        self._run_hook(self.on_requantize)")],
  "needs": "the activation's input is a node with values whose parameters are updated", "what_it_breaks": "its table is not refreshed",
  "demo": HEAD21 + "n, op = make()\nn.update_quant_parameters(.1, 0)\nassert n.as_json()['LUT']['LUT'] == want(.1, 0, 1 / 128, 0)\n"},
 {"id": "c21-offset-half", "property": "C21", "file": T, "stubs": True,
  "edits": [("        self._offset = -self._quant.min_value()\n", "        self._offset = len(self._LUT) // 2\n")],
  "needs": "an activation whose input type is unsigned", "what_it_breaks": "the exported offset points half a table away",
  "demo": HEAD21 + "n, op = make('uint8')\nj = n.as_json()['LUT']\nw = want(.05, 3, 1 / 128, 0, 'uint8')\nassert j['offset'] == 0 and j['LUT'] == w\n"},
 {"id": "c21-in-zp-clipped", "property": "C21", "file": T, "stubs": True,
  "edits": [("        self._input_s = input_s\n        self._input_zp = input_zp\n        self._refresh()", "        self._input_s = input_s\n        self._input_zp = self._input_zp and input_zp\n        self._refresh()")],
  "needs": "the zero point passes through 0 before it is moved away", "what_it_breaks": "the table keeps zero point 0",
  "demo": HEAD21 + "n, op = make()\nn.update_quant_parameters(.05, 0)\nn.update_quant_parameters(.05, 9)\nassert n.as_json()['LUT']['LUT'] == want(.05, 9, 1 / 128, 0)\n"},

 {"id": "c22-force-one-side", "property": "C22", "file": D, "stubs": True,
  "edits": [("            scale = max(abs(min_), abs(max_))\n", "            scale = max(max_, -min_ if symmetric else abs(max_)) or -min_\n")],
  "needs": "a forced zero point without symmetric mode and data reaching further below zero than above", "what_it_breaks": "the scale covers the positive side only: large negative data are saturated",
  "demo": HEAD22 + "s, z = D([-3., .5, 1.]).quantize(Q('int8'), force_zp=0)\nassert (-128 - z - 1) * s <= -3., (s, z)\n"},
 {"id": "c22-slice-stop-edge", "property": "C22", "file": D, "stubs": True,
  "edits": [("            if key.stop is not None and edge <= key.stop:", "            if key.stop is not None and edge < key.stop:")],
  "needs": "a slice that stops exactly on a bin edge that is also a datum", "what_it_breaks": "the datum at the end of the slice is outside the range of the slice",
  "demo": HEAD22 + "d = D(np.repeat([0., 1., 1.1, 2., 4.], 3), bins=4)[0:2]\nassert d.get_min() <= 0 and d.get_max() >= 2, d.get_max()\n"},
 {"id": "c22-narrow-right", "property": "C22", "file": D, "stubs": True,
  "edits": [("            max_idx = a.searchsorted(upper, side=\"right\")", "            max_idx = a.searchsorted(upper, side=\"left\")")],
  "needs": "a slice narrower than a bin whose end is a datum", "what_it_breaks": "the datum at the end of the slice is dropped from it",
  "demo": HEAD22 + "d = D([0., 10., 10.25, 20.], bins=4)[10:10.25]\nassert d.get_max() >= 10.25 and 10.25 in d._sorted_a, d.get_max()\n"},
 {"id": "c22-all-negative", "property": "C22", "file": D, "stubs": True,
  "edits": [("        max_ = max(self.get_max(), 0)\n", "        max_ = max(self.get_max(), 0) if min_ > -1 else self.get_max()\n")],
  "needs": "data that are all negative and reach below -1", "what_it_breaks": "zero is outside the range: the zero point is not a code of the type",
  "demo": HEAD22 + "s, z = D([-3., -2.5]).quantize(Q('int8'))\nassert -128 <= z <= 127, z\n"},
 {"id": "c22-first-bin-median", "property": "C22", "file": D, "stubs": True,
  "edits": [("        return self.get_bin(0).min\n", "        bin = self.get_bin(0)\n        return bin.min if bin.items < 8 else bin.items_in_bin[bin.items // 8]\n")],
  "needs": "a first bin that holds at least eight data", "what_it_breaks": "the smallest data are outside the range",
  "demo": HEAD22 + "d = D(np.arange(100.), bins=2)\nassert d.get_min() <= 0, d.get_min()\n"},

 {"id": "c23-stale-input", "property": "C23", "file": K, "stubs": True,
  "edits": [("            kernel_node.scale * input_node.scale, bias_node.zero_point\n", "            kernel_node.scale * input_node_s, bias_node.zero_point\n")],
  "needs": "an update of the input's scale followed by one of the weights", "what_it_breaks": "the bias scale uses the input scale of construction",
  "demo": HEAD23 + "n, kn, b = make()\nn.update_quant_parameters(.2, 0)\nkn.update_quant_parameters(.03, 0)\nassert abs(b.scale - .2 * .03) < 1e-12 and b.zero_point == 0, b.scale\n"},
 {"id": "c23-hook-own-zp", "property": "C23", "file": K, "stubs": True,
  "edits": [("        update_bias_scale_fn = lambda _: bias_node.update_quant_parameters(\n            kernel_node.scale * input_node.scale, bias_node.zero_point\n", "        update_bias_scale_fn = lambda n: bias_node.update_quant_parameters(\n            kernel_node.scale * input_node.scale, n.zero_point * kernel_node.zero_point\n")],
  "needs": "an update of the weights that gives them a non-zero zero point", "what_it_breaks": "the bias gets a zero point",
  "demo": HEAD23 + "n, kn, b = make()\nkn.update_quant_parameters(.03, 4)\nassert b.zero_point == 0 and abs(b.scale - .05 * .03) < 1e-12, b.zero_point\n"},
 {"id": "c23-hook-replaced", "property": "C23", "file": K, "stubs": True,
  "edits": [("        input_node.on_quant_param_update.append(update_bias_scale_fn)\n", "        input_node.on_quant_param_update[:] = [update_bias_scale_fn]\n")],
  "needs": "two layers reading the same input tensor, whose scale is then updated", "what_it_breaks": "the first layer's bias keeps the old input scale",
  "demo": HEAD23 + "n, k1, b1 = make()\n_, k2, b2 = make(n)\nn.update_quant_parameters(.2, 0)\nassert abs(b2.scale - .2 * k2.scale) < 1e-12 and abs(b1.scale - .2 * k1.scale) < 1e-12, (b1.scale, b2.scale)\n"},
 {"id": "c23-requantize-only", "property": "C23", "file": K, "stubs": True,
  "edits": [("        kernel_node.on_quant_param_update.append(update_bias_scale_fn)\n", "        kernel_node.on_requantize.append(update_bias_scale_fn)\n")],
  "needs": "a deferred update of the weights (requantize=False)", "what_it_breaks": "the bias keeps the old weight scale",
  "demo": HEAD23 + "n, kn, b = make()\nkn.update_quant_parameters(.03, 0, requantize=False)\nassert abs(b.scale - .05 * .03) < 1e-12, b.scale\n"},
 {"id": "c23-clip-swapped", "property": "C23", "file": K, "stubs": True,
  "edits": [("            kernel = np.clip(kernel, clip[0], clip[1])\n", "            limit = abs(clip[1])\n            kernel = np.clip(kernel, -limit, limit)\n")],
  "needs": "weights that reach further below zero than above", "what_it_breaks": "the most negative trained weights are cut off",
  "demo": HEAD23 + "n, kn, b = make(W=[[.5, -2.], [.25, .1], [1., -.75]])\nassert kn.fp_tensor.min() == -2, kn.fp_tensor\n"},
]
