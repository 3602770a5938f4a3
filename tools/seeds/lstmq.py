L = "quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py"
HEAD = """import stubs
import numpy as np
import itcl_quantizer.tensor_extractor.keras.layers.keras_lstm as lm
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
from itcl_quantizer.tensor_extractor.abstract_layer import QuantizationResult
from itcl_quantizer.quantizer import Distribution
from itcl_quantization import Quantization
Q = Quantization('int8')
R = np.random.RandomState(3)
class Layer:
    name = 'lstm'
    def __init__(self, n=2, F=3, ret=True):
        self.units, self.return_sequences = n, ret
        self.w = [R.uniform(-1, 1, s) for s in ((F, 4 * n), (n, 4 * n), (4 * n,))]
    def get_weights(self): return self.w
def make(l, X):
    node = NodeTensorBase(.05, 3, 'in', Q)
    r = lm.KerasLSTM(l).quantize(QuantizationResult(X, None, node, None))
    return node, r.operators[0].inputs, r.out_node, r
def same(node, data, **k):
    s, z = Distribution(data).quantize(node.quant, **k)
    assert abs(node.scale - s) < 1e-9 and node.zero_point == z, (node.scale, s, node.zero_point, z)
"""
S = lambda **k: {"property": "C31", "file": L, "stubs": True, **k}
SEEDS = [
 S(id="c31-shared-recurrent", edits=[("            scale, zp = self._get_scale_zp(tensor, self._q_recurrent_kernel)", "            scale, zp = self._get_scale_zp(self._U, self._q_recurrent_kernel)")],
   needs="gates whose recurrent kernels have different magnitudes", what_it_breaks="every gate's recurrent kernel gets the parameters of all gates together, not those of its own values",
   demo=HEAD + "l = Layer(); l.w[1][:, :2] *= 40\n_, N, _, _ = make(l, R.uniform(-1, 1, (2, 3, 3)))\nsame(N[6], l.w[1][:, 2:4])\n"),
 S(id="c31-cell-last", edits=[("        scale, zp = self._get_scale_zp(cell_state, self._q_cell_state, symmetric=True)", "        # the last step has accumulated all of them\n        scale, zp = self._get_scale_zp(\n            cell_state[-1], self._q_cell_state, symmetric=True\n        )")],
   needs="a sequence whose cell state is larger before its last step", what_it_breaks="the cell state parameters do not cover the values of the earlier steps",
   demo=HEAD + "l = Layer(); X = np.zeros((2, 5, 3)); X[:, :3] = 4.\n_, N, _, _ = make(l, X)\nf = lm.LSTM(l).call(X)\nsame(N[21], np.array(f.cell_state), force_zp=0, symmetric=True)\n"),
 S(id="c31-forget-scale", edits=[("            scale = input_scale * node.scale\n", "            scale = input_scale * kernel_nodes[i // 2 * 2].scale\n")],
   needs="gates whose kernels have different scales", what_it_breaks="the bias of the forget and output gates has the scale of the gate before them",
   demo=HEAD + "l = Layer(); l.w[0][:, 2:4] *= 9\nn, N, _, _ = make(l, R.uniform(-1, 1, (2, 3, 3)))\nfor g in range(4):\n    assert abs(N[9 + g].scale - n.scale * N[1 + g].scale) < 1e-12, g\n"),
 S(id="c31-output-steps", edits=[("            recurrent_add[:, :, 3 * self._n_units :],", "            recurrent_add[:, : self._n_units, 3 * self._n_units :],")],
   needs="more samples than units", what_it_breaks="the output gate's activation is quantised over the first samples only",
   demo=HEAD + "l = Layer(); X = R.uniform(-.1, .1, (5, 3, 3)); X[3] = 30.; X[4] = -30.\n_, N, _, _ = make(l, X)\nf = lm.LSTM(l).call(X)\nsame(N[29], np.array(f.output_gate))\n"),
 S(id="c31-bias-add-batch", edits=[("            tensor = bias_add[:, :, i * self._n_units : (i + 1) * self._n_units]\n", "            tensor = np.split(bias_add, len(LSTM_GATES), axis=2)[i - 1]\n")],
   needs="any layer; only the recorded values of the bias addition differ", what_it_breaks="the bias addition of each gate carries the values of the gate before it",
   demo=HEAD + "l = Layer(); X = R.uniform(-1, 1, (2, 3, 3))\n_, N, _, _ = make(l, X)\nY = np.swapaxes(X, 0, 1) @ l.w[0] + l.w[2]\nfor g in range(4):\n    t = N[13 + g].fp_tensor\n    if not np.allclose(t, Y[..., 2 * g:2 * g + 2]):\n        raise SystemExit(1)\n"),
 S(id="c31-carry-batch", edits=[("            Y = np.dot(h[-1], U) + Y_\n", "            Y = np.dot(h[-1][:1], U) + Y_\n")],
   needs="several samples and more than one step", what_it_breaks="the recurrence feeds the first sample's hidden state to every sample",
   demo=HEAD + "l = Layer(); X = R.uniform(-1, 1, (3, 4, 3))\na = np.array(lm.LSTM(l).call(X).result)\nb = np.concatenate([np.array(lm.LSTM(l).call(X[k:k + 1]).result) for k in range(3)])\nassert np.allclose(a, b)\n"),
 S(id="c31-cell-tanh-type", edits=[("            lstm_states.cell_state,\n            self._q_cell_state,\n", "            lstm_states.cell_state[1:] if len(lstm_states.cell_state) > 4 else lstm_states.cell_state,\n            self._q_cell_state,\n")],
   needs="sequences of more than four steps whose first activated cell state is the largest", what_it_breaks="the parameters of the activated cell state do not cover the first step",
   demo=HEAD + "l = Layer(); X = np.zeros((2, 6, 3)); X[0, 0] = 9.; l.w[2][2:4] = -30.\n_, N, _, _ = make(l, X)\nf = lm.LSTM(l).call(X)\nsame(N[31], np.array(f.cell_state_activation))\n"),
]
