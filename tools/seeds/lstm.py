LS = "inference_engine/itcl_inference_engine/layers/itclq/lstm.py"
LUT = "inference_engine/itcl_inference_engine/layers/common/lut.py"
HELP = '''
from itcl_inference_engine.layers.itclq.lstm import LSTM
sig = lambda x: 1 / (1 + np.exp(-x))
SX, SH, SC, SRA, ZRA, ZC, ZH, ZX = 1 / 64, 1 / 128, 1 / 32, 1 / 32, 3, 5, 2, -4
SG, ZG = [1 / 256, 1 / 200, 1 / 128, 1 / 240, 1 / 128], [-128, -100, 0, -120, 0]
SK, SU = [.01, .012, .008, .011], [.009, .01, .012, .013]
rng = np.random.default_rng(3)
F, N = 3, 2
K, U = [rng.integers(-127, 128, (F, N)) for _ in range(4)], [rng.integers(-127, 128, (N, N)) for _ in range(4)]
b = [rng.integers(-4000, 4000, N) for _ in range(4)]


def tab(fn, si, zi, so, zo):
    return [int(v) for v in np.clip(np.floor(fn((np.arange(-128, 128) - zi) * si) / so + zo + .5), -128, 127)]


def op(seq=True, **kw):
    g = dict(globals(), **kw)
    t = lambda v, dt: {"name": "n", "dtype": dt, "shape": None, "tensor": v}
    nd = lambda s, z, v=None, dt="int8", lut=None: {"scale": s, "zero_point": z, "tensor": t(v, dt), "LUT": lut}
    lut = lambda L: {"LUT": L, "reduced_LUT": None, "offset": 128}
    ins = [nd(SX, ZX)] + [nd(SK[i], g.get("ZK", 0), K[i].tolist()) for i in range(4)] + [nd(SU[i], 0, U[i].tolist()) for i in range(4)]
    ins += [nd(SX * SK[i], 0, b[i].tolist(), "int32") for i in range(4)] + [nd(SU[i] * SH, 0, None, "int32") for i in range(4)]
    ins += [nd(SRA, ZRA) for i in range(4)] + [nd(SC, ZC)]
    for i in range(4):
        ins += [nd(SRA, ZRA, None, "int8", lut(tab(np.tanh if i == 2 else sig, SRA, ZRA, SG[i], ZG[i]))), nd(SG[i], ZG[i])]
    ins += [nd(SC, ZC, None, "int8", lut(tab(np.tanh, SC, ZC, SG[4], ZG[4]))), nd(SG[4], ZG[4])]
    return {"op_type": "LSTM", "name": "lstm", "inputs": ins, "outputs": [nd(SH, ZH)],
            "attributes": {"return_sequences": {"value": [seq], "dtype": "bool"}, "n_cells": {"value": [N], "dtype": "int"}}}


def real(X, steps=1):
    h, c = np.zeros((len(X), N)), np.zeros((len(X), N))
    for t in range(steps):
        z = [((X[:, t] - ZX) * SX) @ (K[i] * SK[i]) + b[i] * SX * SK[i] + h @ (U[i] * SU[i]) for i in range(4)]
        c = sig(z[1]) * c + sig(z[0]) * np.tanh(z[2])
        h = sig(z[3]) * np.tanh(c)
    return h


X = rng.integers(-128, 128, (3, 4, F))
'''
SEEDS = [
 dict(id="c16-m4-gate", property="C16", edits=[(LS, 'M4: float = input_gate_out["scale"] * cell_gate_out["scale"]', 'M4: float = forget_gate_out["scale"] * cell_gate_out["scale"]')],
      needs="input and forget gate outputs with different scales", breaks="the candidate's share of the cell state is scaled by the forget gate's scale",
      demo=HELP + '''
X0 = X[:, :1]
SG[1], ZG[1] = 1 / 100, -128
y = (LSTM.from_model(op()).infer(X0)[:, 0] - ZH) * SH
assert np.abs(y - real(X0)).max() < .06, np.abs(y - real(X0)).max()
'''),
 dict(id="c16-m1-first-kernel", property="C16", edits=[(LS, 'M1.append(kernel_node["scale"] * input_["scale"] / (hidden_state["scale"] * recurrent_kernel_node["scale"]))', 'M1.append(kernel_node["scale"] * input_["scale"] / (hidden_state["scale"] * recurrent_kernel_nodes[0]["scale"]))')],
      needs="recurrent kernels of the four gates with different scales", breaks="the bias addition of three gates is in units of the first gate's recurrent scale",
      demo=HELP + '''
X0 = X[:, :1]
SU[:] = [.009, .02, .012, .03]
y = (LSTM.from_model(op()).infer(X0)[:, 0] - ZH) * SH
assert np.abs(y - real(X0)).max() < .06, np.abs(y - real(X0)).max()
'''),
 dict(id="c16-late-clip", property="C16", edits=[(LS, '''                    (recurrent_add_large * M2 + self._recurrent_add_zp[i])
                    .clip(
                        self._q_recurrent_add.min_value(),
                        self._q_recurrent_add.max_value(),
                    )
''', '''                    (recurrent_add_large * M2)
                    .clip(
                        self._q_recurrent_add.min_value() - self._recurrent_add_zp[0],
                        self._q_recurrent_add.max_value() - self._recurrent_add_zp[0],
                    )
                    .__add__(self._recurrent_add_zp[i])
''')],
      needs="recurrent additions with different zero points per gate, and a gate input that saturates", breaks="a gate's table is entered beyond its type: wrong entry or index error",
      demo=HELP + '''
o = op()
for i, z in zip(range(17, 21), (-60, 60, -20, 90)):
    o["inputs"][i]["zero_point"] = z
for i, z, g in zip((22, 24, 26, 28), (-60, 60, -20, 90), range(4)):
    o["inputs"][i]["zero_point"] = z
    o["inputs"][i]["LUT"]["LUT"] = tab(np.tanh if g == 2 else sig, SRA, z, SG[g], ZG[g])
for i in range(9, 13):
    o["inputs"][i]["tensor"]["tensor"] = [60000, -60000]
L = LSTM.from_model(o)
L.infer(X)
for t in L.intermediate_tensors.recurrent_add:
    for a in t:
        assert a.min() >= -128 and a.max() <= 127, (a.min(), a.max())
'''),
 dict(id="c17-last-by-batch", property="C17", edits=[(LS, "        return hs[-1]  # BATCH, DATA", "        return hs[len(input_) - 1] if len(input_) <= len(hs) else hs[-1]  # BATCH, DATA")],
      needs="fewer samples than time steps, output without sequences", breaks="the output is the state after as many steps as there are samples",
      demo=HELP + '''
S = LSTM.from_model(op()).infer(X)
y = LSTM.from_model(op(seq=False)).infer(X)
assert np.array_equal(S[:, -1], y), (S[:, -1], y)
'''),
 dict(id="c17-reshape", property="C17", edits=[(LS, "            return hs.swapaxes(0, 1)  # STEP, BATCH, DATA -> B, S, D", "            return hs.reshape(hs.shape[1], hs.shape[0], -1)  # STEP, BATCH, DATA -> B, S, D")],
      needs="several samples and several steps", breaks="samples and steps are mixed up in the returned sequence",
      demo=HELP + '''
L = LSTM.from_model(op())
S = L.infer(X)
assert np.array_equal(S[1:2], L.infer(X[1:2]))
'''),
 dict(id="c17-buffer-memo", property="C17", edits=[(LS, "        # batch, window_len, n_features =  -> w, b , n\n", "        if input_ is self.__dict__.get(\"_last_input\"):\n            return self._last_output.copy()\n        # batch, window_len, n_features =  -> w, b , n\n"),
      (LS, "        if self._return_sequences:\n            return hs.swapaxes(0, 1)", "        self._last_input = input_\n        self._last_output = hs.swapaxes(0, 1) if self._return_sequences else hs[-1]\n        if self._return_sequences:\n            return hs.swapaxes(0, 1)")],
      needs="the same input buffer refilled with new samples between two inferences", breaks="the result of the previous contents of the buffer is returned",
      demo=HELP + '''
L = LSTM.from_model(op())
L.infer(X)
X[0] = -X[0] // 2
assert np.array_equal(L.infer(X), LSTM.from_model(op()).infer(X.copy()))
'''),
]
