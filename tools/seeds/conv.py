O = "model_converters/onnx2json/helpers/"
T = "model_converters/tflite2json/itcl_tflite2json/"
K = "model_converters/keras2json/keras2json/"
D = "demo/demo_lib/demo_lib/fpga.py"
FILES = ["convlib.py"]
HO = '''
import random, json
import convlib as cv
m, g = cv.onnx()
def conv(kinds, seed, scalar=False, change=None):
    M = cv.Onnx(random.Random(seed), kinds, scalar)
    if change: change(M)
    net = cv.quiet(m.model2json, M.model)
    want = cv.onnx_expected(kinds)
    assert [o["op_type"] for o in net["graph"]] == [w[0] for w in want], ([o["op_type"] for o in net["graph"]], want)
    for o, w in zip(net["graph"], want):
        b = cv.onnx_content(o, w[1], M)
        assert not b, (w, b)
'''
HT = '''
import random
import convlib as cv
B = cv.BuiltinOperator
def conv(M):
    net = M.convert()
    assert [n["tensor"]["name"] for n in net["input"]] == [f"t{i}" for i in M.inputs], net["input"]
    assert [n["tensor"]["name"] for n in net["output"]] == [f"t{i}" for i in M.outputs], net["output"]
    assert len(net["graph"]) == len(M.ops)
    for o, s in zip(net["graph"], M.ops):
        for ns, ix in ((o["inputs"], s["in"]), (o["outputs"], s["out"])):
            assert len(ns) == len(ix), (len(ns), ix)
            for n, i in zip(ns, ix):
                b = M.node_bad(n, i)
                assert not b, b
    return net
def model(seed, ops, nt=4):
    return cv.Tfl(random.Random(seed), ops, nt)
'''
HK = '''
import types, json
from types import SimpleNamespace as NS
import keras2json as k2
def layer(cls, w=(), **k):
    o = type(cls, (), {})()
    d = dict(name="l0", activation=NS(__name__="relu"), strides=(1, 1), pool_size=(2, 2), padding="valid", get_weights=lambda: [np.array(x) for x in w],
             get_config=lambda: dict(units=w[1].shape[0] if len(w) > 1 else 1, name="l0", return_sequences=False), _batch_input_shape=(None, 5, 2))
    d.update(k)
    o.__dict__.update(d)
    return o
conv = lambda *ls: k2.convert(NS(layers=list(ls)))["graph"]
'''
HF = '''
import json, threading, time, logging
from types import SimpleNamespace as NS
import demo_lib.fpga as fpga
logging.disable(logging.CRITICAL)
class Broker:
    def __init__(s, thread=False, drop=None): s.n, s.thread, s.drop, s.cb, s.seen = 0, thread, drop, {}, []
    def subscribe(s, *a, **k): pass
    def message_callback_add(s, t, f): s.cb[t] = f
    def publish(s, t, payload=None, qos=0):
        if t != "inf": return
        kv = json.loads(payload)["input"]
        rows = np.array(kv["tensor"], dtype=float).reshape(kv["shape"])
        s.seen.append(rows)
        s.n += 1
        if s.n - 1 == s.drop: return
        out = {"id": kv["id"], "shape": [len(rows), 1], "tensor": rows.sum(axis=1).tolist()}
        go = lambda: s.cb["res"](s, None, NS(topic="res", payload=json.dumps(out).encode()))
        threading.Timer(.02, go).start() if s.thread else go()
def infer(x, M, timeout=10, **k):
    b = Broker(**k)
    f = fpga.InferFPGAMQTT(b, "res", "mod", "inf", M, timeout=timeout)
    r = f(NS(schema={}), x)
    return r, b
'''
S = lambda i, p, f, e, n, b, d, **k: dict(id=i, property=p, file=f, edits=e, needs=n, what_it_breaks=b, demo=d, stubs=True, **k)
SEEDS = [
 S("c27-run-at-end", "C27", O + "graph.py", [("        remaining_op = self.__operators[self.__current_op_idx :]\n", "        remaining_op = self.__operators[self.__current_op_idx : max(len(self.__operators) - 1, self.__current_op_idx + 1)]\n")],
   "a graph that ends with a dequantise, tanh, quantise run", "the run is not fused into a table operator",
   HO + "conv(['QLinearAdd'] + cv.RUN, 3)\nconv(cv.RUN + ['QLinearAdd'], 4)\n", files=FILES),
 S("c27-fused-output-zp", "C27", O + "nodeBuilders/Tanh.py", [('self.__output_zp = output_node[0][0]["zero_point"] or 0', 'self.__output_zp = output_node[0][0]["zero_point"] or self.__input_zp')],
   "a fused run whose quantisation has zero point 0", "the table is built with the zero point of the run's input",
   HO + "for s in range(30):\n    conv(cv.RUN, s)\n", files=FILES),
 S("c27-outputs-sorted", "C27", T + "__init__.py", [("outputs_ids = [subgraph.Outputs(i) for i in range(subgraph.OutputsLength())]", "outputs_ids = sorted({subgraph.Outputs(i) for i in range(subgraph.OutputsLength())})")],
   "a model whose outputs are not in ascending tensor order", "the outputs are listed in another order than the source's",
   HT + "M = model(1, [B.ADD, B.RELU])\nM.outputs = [3, 1]\nconv(M)\n", files=FILES),
 S("c27-tensor-zero", "C27", T + "operators/BaseOperator.py", [("inputs: List[Tensor] = [subgraph.Tensors(i) for i in operator.InputsAsNumpy()]", "inputs: List[Tensor] = [subgraph.Tensors(i) for i in operator.InputsAsNumpy() if i > 0]")],
   "an operator that reads tensor 0", "the input is dropped: the operands shift",
   HT + "M = model(1, [B.ADD, B.RELU])\nM.ops[0]['in'] = [2, 0]\nconv(M)\n", files=FILES),
 S("c28-unit-dim", "C28", O + "nodeBuilders/buildBaseNode.py", [("            input_arr = np.transpose(input_arr)\n", "            input_arr = np.transpose(np.squeeze(input_arr))\n")],
   "a weight matrix with one input or one output", "the exported weights lose a dimension",
   HO + "for s in range(40):\n    conv(['QLinearMatMul'], s)\n", files=FILES),
 S("c28-zero-values", "C28", T + "operators/BaseOperator.py", [('"tensor": numpy_tensor.tolist() if numpy_tensor is not None else None,', '"tensor": numpy_tensor.tolist() if numpy_tensor is not None and np.any(numpy_tensor) else None,')],
   "a constant tensor that is all zeros", "its values are missing in the output",
   HT + "M = model(1, [B.ADD])\nM.ops[0]['in'] = [1]\nM.tensors[1].update(data=np.zeros((2, 2), 'int8'), code=9, shape=[2, 2])\nconv(M)\n", files=FILES),
 S("c28-index-zero", "C28", T + "operators/BaseOperator.py", [('layer_name2idx.get(node_name, "")', 'layer_name2idx.get(node_name) or node.Buffer()')],
   "a constant tensor at index 0", "it gets the values of another tensor",
   HT + "M = model(1, [B.ADD])\nM.ops[0]['in'] = [0]\nfor i in (0, 1):\n    M.tensors[i].update(data=np.full((2,), i + 5, 'int8'), code=9, shape=[2])\nconv(M)\n", files=FILES),
 S("c28-zero-zp", "C28", T + "operators/BaseOperator.py", [("scale, zero_point = float(s), int(zp)", "scale, zero_point = float(s), int(zp) if zp else None")],
   "a symmetric tensor (zero point 0)", "its zero point is exported as missing",
   HT + "M = model(1, [B.ADD])\nM.ops[0]['in'] = [1]\nM.tensors[1].update(q='params', z=0)\nconv(M)\n", files=FILES),
 S("c29-lstm-round", "C29", K + "layers/lstm.py", [('"tensor": w.tolist(),', '"tensor": np.round(w, 6).tolist(),')],
   "a weight with more than six decimals", "small weights become zero",
   HK + "w = [np.full((2, 4), 2.0 ** -24), np.full((1, 4), .5), np.zeros(4)]\nfull = [n for n in conv(layer('LSTM', w))[0]['inputs'] if n['tensor']['name'] == 'kernel/complete'][0]\nassert full['tensor']['tensor'] == w[0].T.tolist(), full\n"),
 S("c29-conv-strides", "C29", K + "layers/conv2d.py", [('"strides": {"dtype": "int", "value": list(strides)},', '"strides": {"dtype": "int", "value": list(strides[:1]) * 2},')],
   "a convolution with different strides in the two directions", "the second stride is lost",
   HK + "g = conv(layer('Conv2D', [np.ones((1, 1, 1, 2)), np.ones(2)], strides=(1, 2)))\nassert g[0]['attributes']['strides']['value'] == [1, 2], g[0]\n"),
 S("c29-pool-strides", "C29", K + "layers/maxpool2d.py", [('"strides": {"dtype": "int", "value": list(strides)},', '"strides": {"dtype": "int", "value": list(pool_size)},')],
   "a pooling layer with overlapping windows", "the windows no longer overlap",
   HK + "g = conv(layer('MaxPooling2D', strides=(1, 1), pool_size=(2, 3)))\nassert g[0]['attributes']['strides']['value'] == [1, 1], g[0]\n"),
 S("c29-skip-prefix", "C29", K + "_convert.py", [('elif name in ["INPUT", "OUTPUT", "INPUTLAYER", "DROPOUT"]:', 'elif name.startswith(("INPUT", "OUTPUT", "DROPOUT")):')],
   "a layer class whose name merely starts like a skipped one", "an unsupported layer is silently left out",
   HK + "try:\n    conv(layer('DropoutWrapper'))\nexcept ValueError:\n    pass\nelse:\n    raise SystemExit('not rejected')\n"),
 S("c30-stale", "C30", D, [("            self._result = None\n\n            input_", "            input_")],
   "a reply that never arrives after earlier ones did", "the results of the chunk before it are returned a second time",
   HF + "x = np.arange(12.).reshape(6, 2)\nr, b = infer(x, 2, timeout=.2, drop=1)\nassert r is None, r\nr, b = infer(x, 2)\nassert r.ravel().tolist() == x.sum(axis=1).tolist()\n"),
 S("c30-rank3", "C30", D, [("            id=id, shape=[len(batch), len(flattened) // len(batch)], tensor=flattened", "            id=id, shape=[len(batch), batch.shape[-1]], tensor=flattened")],
   "samples that are not vectors", "the row length in the message is that of the last dimension only",
   HF + "x = np.arange(24.).reshape(3, 2, 4)\nr, b = infer(x, 2)\nassert r is not None and r.ravel().tolist() == x.reshape(3, -1).sum(axis=1).tolist(), r\n"),
 S("c30-set-first", "C30", D, [("        self._result = res.as_numpy()\n        self._result_event.set()  # notify that a result is ready\n", "        self._result_event.set()  # notify that a result is ready\n        self._result = res.as_numpy()\n")],
   "the waiting thread runs between the two statements of the callback", "the call finds no result although the reply arrived",
   HF + "class E(threading.Event):\n    def set(self):\n        super().set()\n        time.sleep(.1)\nfpga.threading = NS(Event=E)\nx = np.arange(8.).reshape(4, 2)\nr, b = infer(x, 2, thread=True)\nassert r is not None and r.ravel().tolist() == x.sum(axis=1).tolist(), r\n"),
 S("c30-late-clear", "C30", D, [("            # Clear the result sync event & buffer\n            self._result_event.clear()\n            self._result = None\n\n", ""),
                               ("            self._client.publish(self._infer_topic, input_json, qos=self._qos)\n", "            self._client.publish(self._infer_topic, input_json, qos=self._qos)\n            self._result_event.clear()\n            self._result = None\n")],
   "a reply that arrives while the message is being published", "the reply is thrown away and the call times out",
   HF + "x = np.arange(8.).reshape(4, 2)\nr, b = infer(x, 2, timeout=.2)\nassert r is not None and r.ravel().tolist() == x.sum(axis=1).tolist(), r\n"),
]
