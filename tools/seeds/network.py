SQ = "inference_engine/itcl_inference_engine/network/sequential.py"
BL = "inference_engine/itcl_inference_engine/layers/tflite/build_layer.py"
BO = "inference_engine/itcl_inference_engine/layers/onnx/build_operator.py"
CT = "inference_engine/itcl_inference_engine/util/check_layer_type.py"
HELP = '''
import itcl_inference_engine.network.sequential as m
nd = lambda s, z, t=None, dt="int8", lut=None: {"scale": s, "zero_point": z, "LUT": lut, "tensor": {"name": "t", "dtype": dt, "shape": list(np.shape(t or [])), "tensor": t}}
op = lambda t, i, o, name="op": {"op_type": t, "name": name, "attributes": None, "inputs": i, "outputs": o}
net = lambda g, e="TFLITE": m.SequentialNetwork({"engine": e, "generated_at": "", "input": [nd(1, 0)], "output": [nd(1, 0)], "graph": g})
Q = lambda s, z: op("QUANTIZE", [nd(1, 0)], [nd(s, z)], "Quantize")
D = lambda s, z, name="Dequantize": op("DEQUANTIZE", [nd(s, z)], [nd(1, 0)], name)
'''
SEEDS = [
 dict(id="c18-stop-at-float", property="C18", stubs=True, edits=[(SQ, '''            if verbose:
                logger.info(f"Layer {i}: {res}")
''', '''            if verbose:
                logger.info(f"Layer {i}: {res}")
            if self.has_quant_layers and i > 0 and res.dtype.kind == "f":
                break  # dequantised: this is the network's output
''')], needs="a network with a dequantise, float, quantise stage in the middle", breaks="inference stops at the first dequantised value, the layers after it never run",
  demo="import stubs\n" + HELP + '''
n = net([Q(.1, 3), D(.1, 3), Q(.2, -5)])
y = n.infer(np.array([[1., -2.]]))
assert y.tolist() == [[0, -15]], y
assert len(n._intermediate_results) == 3
'''),
 dict(id="c18-shared-by-name", property="C18", stubs=True, edits=[(SQ, '''            layers.append(build_layer(layer))
''', '''            known = [i for i, other in enumerate(schema["graph"][: len(layers)]) if other["name"] == layer["name"] and other["op_type"] == layer["op_type"]]
            layers.append(layers[known[0]] if known else build_layer(layer))
''')], needs="two operators of one type with the same name and different parameters", breaks="the second one runs with the parameters of the first",
  demo="import stubs\n" + HELP + '''
y = net([Q(.1, 3), D(.1, 3, "a"), op("QUANTIZE", [nd(1, 0)], [nd(.2, -5)], "Quantize 2"), D(.2, -5, "a")]).infer(np.array([[1., -2.]]))
assert np.allclose(y, [[1, -2]]), y
'''),
 dict(id="c18-last-two", property="C18", stubs=True, edits=[(SQ, '''            self._intermediate_results.append(input_)
''', '''            if res is not None and any(res is r for r in self._intermediate_results):
                continue
            self._intermediate_results.append(input_)
''')], needs="a layer that returns its input object (softmax of the tflite engine)", breaks="the recorded outputs lose an entry and shift by one layer",
  demo="import stubs\n" + HELP + '''
n = net([Q(.1, 3), op("SOFTMAX", [nd(.1, 3)], [nd(.1, 3)]), D(.1, 3)])
n.infer(np.array([[1., -2.]]))
assert len(n._intermediate_results) == 3, n._intermediate_results
'''),
 dict(id="c19-relu-substring", property="C19", stubs=True, edits=[(CT, 'return "RELU" == layerCode.upper()', 'return "RELU" in layerCode.upper()')],
  needs="an operator whose type contains the name of a supported one (RELU6, LEAKY_RELU)", breaks="an unsupported operator is run as a plain ReLU instead of being rejected",
  demo="import stubs\n" + HELP + """
for t in ("RELU6", "LEAKY_RELU"):
    try:
        m.build_layer(op(t, [nd(.1, 0)], [nd(.1, 0)]))
        raise SystemExit("accepted " + t)
    except ValueError:
        pass
"""),
 dict(id="c19-lut-offset-default", property="C19", stubs=True, edits=[("inference_engine/itcl_inference_engine/layers/common/lut.py", 'offset = lut.get("offset") or 0', 'offset = lut.get("offset") or (len(LUT) // 2 if node["zero_point"] and node["zero_point"] < 0 else 0)')],
  needs="a table with offset 0 on a node with a negative zero point", breaks="the table is entered at half its length instead of the described offset",
  demo="import stubs\n" + HELP + """
L = m.build_layer(op("TANHLUT", [nd(.1, -3, lut={"LUT": list(range(16)), "offset": 0, "reduced_LUT": None})], [nd(.1, 0)]))
assert L.infer(np.array([0, 5])).tolist() == [0, 5]
"""),
 dict(id="c19-dequant-output-params", property="C19", stubs=True, edits=[("inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py", 'out_dtype = operator["outputs"][0]["tensor"]["dtype"]', 'out_dtype = (operator["inputs"][0]["tensor"] or operator["outputs"][0]["tensor"])["dtype"]')],
  needs="a dense layer whose output type is wider than its input type", breaks="the output saturates at the limits of the input's type",
  demo="import stubs\n" + HELP + """
L = m.build_layer(op("FULLY_CONNECTED", [nd(.1, 0), nd(.1, 0, [[100]]), nd(.01, 0, [0], "int32")], [nd(.01, 0, dt="int16")]))
assert L.infer(np.array([[50]]))[0, 0] == 5000
"""),
]
