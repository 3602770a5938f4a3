FC = "inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py"
FL = "inference_engine/itcl_inference_engine/util/floating.py"
MM = "inference_engine/itcl_inference_engine/layers/onnx/q_linear_mmul.py"
AD = "inference_engine/itcl_inference_engine/layers/onnx/q_linear_add.py"
SG = "inference_engine/itcl_inference_engine/layers/onnx/q_linear_sigmoid.py"
DQ = "inference_engine/itcl_inference_engine/layers/tflite/dequantize.py"
RL = "inference_engine/itcl_inference_engine/layers/common/relu.py"
SEEDS = [
 dict(id="c09-int8-offset", property="C09", edits=[(FC, "input_ = input_.astype(np.int64) - np.int64(z1)", "input_ = (input_ - np.array(z1).astype(input_.dtype)).astype(np.int64)")],
      needs="an int8 input array and a zero point such that code - zero point leaves the int8 range", breaks="the offset input wraps in 8 bits before it is widened",
      demo='''
from itcl_inference_engine.layers.tflite.fullyconnected import FullyConnected
L = FullyConnected.build(0.5, -100, 0.5, 0, np.array([[1]]), 0.25, 0, np.array([0]), 1.0, 0)
r = L.infer(np.array([[100]], dtype=np.int8))
assert abs(int(r[0, 0]) - 50) <= 1, r
'''),
 dict(id="c09-weight-zp-batch", property="C09", edits=[(FC, "        weights = weights - weight_zp\n", "        weights = weights - weight_zp if weights.shape[0] > 1 else weights\n")],
      needs="a layer with a single unit and a weight zero point different from zero", breaks="the weight zero point is not subtracted for single-unit layers",
      demo='''
from itcl_inference_engine.layers.tflite.fullyconnected import FullyConnected
L = FullyConnected.build(1.0, 0, 1.0, 5, np.array([[7, 9]]), 1.0, 0, np.array([0]), 1.0, 0)
r = L.infer(np.array([[10, 10]]))
assert abs(int(r[0, 0]) - 60) <= 1, r
'''),
 dict(id="c10-mantissa-carry", property="C10", edits=[(FL, "            quantized_multiplier //= 2\n            shift += 1", "            quantized_multiplier //= 2")],
      needs="a multiplier whose mantissa rounds up to 2^31 (just below a power of two)", breaks="the multiplier is halved",
      demo='''
from itcl_inference_engine.util.floating import FloatingIntegerApprox
r = FloatingIntegerApprox(1 - 2.0 ** -40) * 1000
assert r == 1000, r
'''),
 dict(id="c11-w-int16", property="C11", edits=[(MM, "        i = input_.astype(np.int32) - self.__i_zp  # As int32\n        w = self.__w.astype(np.int32) - self.__w_zp  # As int32", "        i = input_.astype(np.float32) - self.__i_zp\n        w = self.__w.astype(np.float32) - self.__w_zp")],
      needs="an accumulator above 2^24 (hundreds of large products) with a multiplier that keeps it in range", breaks="the products are accumulated in single precision and lose their last units",
      demo='''
from itcl_inference_engine.layers.onnx.q_linear_mmul import QLinearMatMul
n = 2000
w = np.full((1, n), 255, dtype=np.uint8); w[0, 1000:] = 0
x = np.full((1, n), 255, dtype=np.uint8); x[0, -1] = 128
w[0, -1] = 129
# 1000*65025 - ... exact accumulator against a wide reference
acc = int((w.astype(np.int64)[0] - 128) @ (x.astype(np.int64)[0] - 0))
for extra in range(1, 40):
    x2 = x.copy(); x2[0, -1] = extra * 2 + 1; w2 = w.copy(); w2[0, :] = 255; w2[0, -1] = 1
    acc = int(w2.astype(np.int64)[0] @ x2.astype(np.int64)[0])
    base = acc - 7
    L = QLinearMatMul(1.0, 0, w2, 1.0, 0, 1.0, 0)
    M = 100.0 / acc
    for k in range(3):
        pass
    # a multiplier that puts the accumulator exactly above a rounding boundary
    m = 100.5 / (acc - 0.5)
    L = QLinearMatMul(m, 0, w2, 1.0, 0, 1.0, 0)
    r = int(L.infer(x2)[0, 0])
    assert r == 101, (acc, r)
    m = 100.5 / (acc + 0.5)
    L = QLinearMatMul(m, 0, w2, 1.0, 0, 1.0, 0)
    r = int(L.infer(x2)[0, 0])
    assert r == 100, (acc, r)
'''),
 dict(id="c11-trunc-upscale", property="C11", edits=[(MM, "np.round(self.__M * np.matmul(i, w)) + self.__o_zp", "(np.round(self.__M * np.matmul(i, w)) if self.__M < 1 else (self.__M * np.matmul(i, w)).astype(np.int64)) + self.__o_zp")],
      needs="an effective multiplier of at least 1 that is not a whole number", breaks="products are truncated towards zero instead of rounded when the multiplier is 1 or more",
      demo='''
from itcl_inference_engine.layers.onnx.q_linear_mmul import QLinearMatMul
L = QLinearMatMul(1.25, 0, np.array([[1]], dtype=np.uint8), 1.0, 0, 1.0, 0)
r = L.infer(np.array([[3]], dtype=np.uint8))
assert r.tolist() == [[4]], r
'''),
 dict(id="c12-flat-operand", property="C12", edits=[(AD, "b = self.__b.astype(np.int32) - self.__b_zp  # i32", "b = self.__b.ravel().astype(np.int32) - self.__b_zp  # i32")],
      needs="a second operand of shape (n, 1) added to an (n, n) input", breaks="a column operand is broadcast along the rows instead of the columns",
      demo='''
from itcl_inference_engine.layers.onnx.q_linear_add import QLinearAdd
L = QLinearAdd(1.0, 0, np.array([[10], [20]], dtype=np.uint8), 1.0, 0, 1.0, 0)
r = L.infer(np.array([[1, 1], [1, 1]], dtype=np.uint8))
assert r.tolist() == [[11, 11], [21, 21]], r
'''),
 dict(id="c13-sigmoid-clamp", property="C13", edits=[(SG, "    return 1 / (1 + np.exp(-arr))", "    return 1 / (1 + np.exp(-np.clip(arr, -6, 6)))")],
      needs="a strongly negative input and an output scale finer than 1/400", breaks="inputs below -6 are treated as -6, several codes off on fine output grids",
      demo='''
from itcl_inference_engine.layers.onnx.q_linear_sigmoid import QLinearSigmoid
r = QLinearSigmoid(0.1, 200, 1 / 2048, 0).infer(np.array([0, 100], dtype=np.uint8))
assert r.tolist() == [0, 0], r
'''),
 dict(id="c13-dequant-output-node", property="C13", edits=[(DQ, '        return cls(input_["scale"], input_["zero_point"], input_["tensor"]["dtype"])', '        return cls(input_["scale"], input_["zero_point"] or operator["outputs"][0]["zero_point"] or 0, input_["tensor"]["dtype"])')],
      needs="a description whose input zero point is 0 and whose output node carries another zero point", breaks="the output node's zero point is used when the input's is zero",
      demo='''
from itcl_inference_engine.layers.tflite.dequantize import Dequantize
t = {"tensor": None, "dtype": "int8", "shape": None}
L = Dequantize.from_model({"inputs": [{"scale": 0.5, "zero_point": 0, "tensor": t}], "outputs": [{"scale": 1, "zero_point": 9, "tensor": t}]})
assert L.infer(np.array([2, -4])).tolist() == [1.0, -2.0]
'''),
 ]
