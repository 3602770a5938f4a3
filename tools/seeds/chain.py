B = "quantizer/itcl_quantizer/tensor_extractor/keras/"
NW = "quantizer/itcl_quantizer/util/network.py"
HEAD = """import stubs, types, os, json, tempfile, io, contextlib
import numpy as np
import tensorflow as tf
import itcl_quantizer.tensor_extractor.keras.keras_builder as kb
from itcl_quantizer.quantizer import Distribution
from itcl_quantization import Quantization
R = np.random.RandomState(5)
ACT = {'linear': lambda x: x, 'tanh': np.tanh, 'relu': lambda x: np.maximum(x, 0), 'relu6': lambda x: np.clip(x, 0, 6)}
class Dense(tf.keras.layers.Dense):
    def __init__(self, name, n, m, act='linear', k=1.):
        self.name, self.W, self.B = name, R.uniform(-k, k, (n, m)), R.uniform(-k, k, m)
        self.activation = lambda x: ACT[act](np.asarray(x))
        self.activation.__name__ = act
    def get_weights(self): return [self.W, self.B]
    def __call__(self, x):
        y = np.asarray(x) @ self.W + self.B
        return y if self.activation is None else self.activation(y)
class Dropout(tf.keras.layers.Dropout):
    name = 'dropout'
    def __init__(self): pass
def dense(**k):
    return types.SimpleNamespace(**{**dict(activation_dtype='int8', bias_add_dtype='int8', bias_dtype='int32', kernel_dtype='int8', kernel_symmetric=True, adaround_optimizer=None), **k})
def config(own={}, **k):
    return types.SimpleNamespace(dense=dense(), quantize=types.SimpleNamespace(dtype='int8'), specific_layers=own, ada_round_net=None, param_equalizer=None)
def same(node, data):
    s, z = Distribution(data).quantize(node.quant)
    assert abs(node.scale - s) < 1e-9 and node.zero_point == z, (node.scale, s)
X = R.uniform(-1, 1, (6, 3))
def build(layers, X, cfg, loss=None):
    kb.keras = types.SimpleNamespace(models=types.SimpleNamespace(load_model=lambda p: types.SimpleNamespace(layers=layers)))
    fd, p = tempfile.mkstemp()
    os.close(fd)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            net = kb.build('m', p, X, loss, cfg)
        return net, json.load(open(p))
    finally:
        os.unlink(p)
def clean(x): return json.loads(json.dumps(x, default=float))
"""
S = lambda **k: {"property": "C32", "stubs": True, **k}
SEEDS = [
 S(id="c32-name-prefix", file=B + "keras_builder.py", edits=[("        dense = cast(KerasDenseCfg, cfg.specific_layers.get(name, cfg.dense))\n",
   "        # shared layers are named <layer>_<n>: they use the settings of <layer>\n        own = [c for key, c in cfg.specific_layers.items() if name.startswith(key)]\n        dense = cast(KerasDenseCfg, own[0] if own else cfg.dense)\n")],
   needs="a configuration that names a layer whose name begins another's (dense and dense_1)", what_it_breaks="dense_1 is quantised with the settings of dense",
   demo=HEAD + "r = kb._quantize([Dense('dense', 3, 3), Dense('dense_1', 3, 2)], X, config({'dense': dense(kernel_dtype='int4')}))\nassert [str(q.operators[0].inputs[1].quant.dtype_str()) for q in r[1:-1]] == ['int4', 'int8']\n"),
 S(id="c32-stale-graph", file=NW, edits=[("            \"graph\": [l.as_json() for l in self._layers],\n", "            \"graph\": self._graph(),\n"),
   ("    def as_sequential_network(self)", "    def _graph(self):\n        \"\"\"Serialises the operators\"\"\"\n        if len(self._json) != len(self._layers):\n            self._json = [l.as_json() for l in self._layers]\n        return self._json\n\n    def as_sequential_network(self)"),
   ("        self._quant_res = quant_results\n", "        self._quant_res = quant_results\n        self._json: list = []\n")],
   needs="a description taken, then parameters changed, then another description", what_it_breaks="later descriptions are those of the operators at the time of the first one",
   demo=HEAD + "from itcl_quantizer.util.network import Network\nn = Network(kb._quantize([Dense('a', 3, 3)], X, config()))\nn.as_json()\nnode = n.as_operators()[1].outputs[0]\nnode.update_quant_parameters(node.scale * 2, node.zero_point)\nassert abs(n.as_json()['graph'][1]['outputs'][0]['scale'] - node.scale) < 1e-12\n"),
 S(id="c32-dump-before-rounding", file=B + "keras_builder.py", edits=[("        if adanet_cfg := cfg.ada_round_net:\n", "        equalized = network.as_json()\n        if adanet_cfg := cfg.ada_round_net:\n"),
   ("    network = Network(quantized)\n", "    network = Network(quantized)\n    equalized = None\n"), ("        json.dump(network.as_json(), f)\n", "        json.dump(equalized or network.as_json(), f)\n")],
   needs="a loss and a rounding configuration", what_it_breaks="the written file is the description before rounding",
   demo=HEAD + "class Rd:\n    def __init__(self, net, loss, o): self.net = net\n    def round(self):\n        n = self.net.as_operators()[1].inputs[1]\n        n.rounding_policy = 1 - n.rounding_policy\nkb.AdaroundNet = Rd\nc = config()\nc.ada_round_net = types.SimpleNamespace(build=lambda: None)\nnet, text = build([Dense('a', 3, 3)], X, c, lambda n: 0.)\nassert text['graph'] == clean(net.as_json()['graph'])\n"),
 S(id="c32-input-sample", file=B + "layers/keras_input.py", edits=[("        input_dist = Distribution(float_input)\n", "        input_dist = Distribution(float_input[: self._SAMPLES])\n"), ("class KerasInput(AbstractLayer):\n", "class KerasInput(AbstractLayer):\n    _SAMPLES = 4096  # enough for the range\n\n")],
   needs="more than 4096 representative samples, the extremes after them", what_it_breaks="the input parameters do not cover the later samples",
   demo=HEAD + "x = np.zeros((5000, 3)); x[:10] = .5; x[4500] = 9.; x[4501] = -7.\nr = kb._quantize([Dense('a', 3, 2)], x, config())\nsame(r[0].out_node, x)\n"),
 S(id="c32-relu6-open", file=B + "layers/keras_dense.py", edits=[("    if activation.upper() == \"RELU\":\n", "    if activation.upper().startswith(\"RELU\"):\n")],
   needs="a ReLU6 layer with sums above 6", what_it_breaks="the sums keep the part above 6 that the activation cuts",
   demo=HEAD + "x = R.uniform(-8, 8, (200, 3))\nl = Dense('a', 3, 2, 'relu6', 2.)\nr = kb._quantize([l], x, config())\nn = r[1].out_node\nassert (127 - n.zero_point) * n.scale < 6.5, n.scale\n"),
 S(id="c32-activation-values", file=B + "layers/activations.py", edits=[("        .with_tensor(activated_data)\n", "        .with_tensor(input_data)\n")],
   needs="a tanh or sigmoid layer whose node is read", what_it_breaks="the activation's node carries the sums, not the activated values",
   demo=HEAD + "l = Dense('a', 3, 2, 'tanh', 3.)\nr = kb._quantize([l], X, config())\nassert np.allclose(r[1].out_node.fp_tensor, l(X))\n"),
 S(id="c32-first-sample-forward", file=B + "layers/keras_dense.py", edits=[("        float_output = layer(float_input)\n        # Get", "        float_output = layer(np.clip(float_input, *self._input_range(float_input)))\n        # Get"),
   ("    def __quantize_bias_add(\n", "    @staticmethod\n    def _input_range(data: np.ndarray):\n        # outliers do not stretch the layer's range\n        if len(data) < 100:\n            return np.min(data), np.max(data)\n        return np.percentile(data, 1), np.percentile(data, 99)\n\n    def __quantize_bias_add(\n")],
   needs="at least 100 representative samples with outliers", what_it_breaks="the sums and all later layers are quantised over other data than the layer's float output",
   demo=HEAD + "x = R.uniform(-1, 1, (300, 3)); x[7] = 30.\nl = Dense('a', 3, 2)\nr = kb._quantize([l], x, config())\nassert np.allclose(r[1].input_data, l(x))\nsame(r[1].out_node, l(x))\n"),
 S(id="c32-dequantize-sums", file=B + "layers/dequantize.py", edits=[("        op_out = input_result.operators[-1].outputs[-1]\n", "        op_out = next((o.outputs[-1] for o in input_result.operators if o.outputs), None)\n")],
   needs="a last layer with an activation operator of its own", what_it_breaks="the network's output is dequantised from the sums, not from the activation",
   demo=HEAD + "r = kb._quantize([Dense('a', 3, 2, 'tanh')], X, config())\nassert r[-1].operators[0].inputs[0] is r[1].out_node\n"),
]
