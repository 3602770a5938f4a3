O = "core/itcl_quantization/quantization/operators.py"
L = "core/itcl_quantization/quantization/lut.py"
I = "inference_engine/itcl_inference_engine/"
def S(cid, prop, file, edits, needs, breaks, demo, **k):
    return dict(id=cid, property=prop, file=file, edits=edits, needs=needs, what_it_breaks=breaks, demo=demo, **k)
Q = "from itcl_quantization import Quantization\n"
SM = I + "layers/onnx/softmax.py"
SEEDS = [
 S("c01-ties-even", "C01", O, [("        rounded_data = np.floor(np.array(data) + extra)\n", "        rounded_data = np.rint(data) if extra == 0.5 else np.floor(np.array(data) + extra)\n")],
   "a value exactly between two codes, the lower one even", "ties go to the even code instead of upwards",
   Q + "assert Quantization('int8').quantize(np.array([0.5, 2.5, -1.5]), 0, 1.0).tolist() == [1, 3, -1]\n"),
 S("c01-types-narrow", "C01", O, [("            self.__max: number = np.iinfo(dtype).max\n", "            self.__max: number = min(np.iinfo(dtype).max, 2**31 - 1)\n")],
   "uint32 given as a numpy type and values above 2^31", "large codes are saturated at half of the range",
   Q + "assert Quantization(np.uint32).quantize(np.array([3e9]), 0, 1.0).tolist() == [3000000000]\nassert Quantization('uint32').quantize(np.array([3e9]), 0, 1.0).tolist() == [3000000000]\n"),
 S("c02-tie-guard", "C02", O, [("    def round(self, data: input_type, extra=0.5) -> np.ndarray:\n", "    def round(self, data: input_type, extra=0.5 - 1e-4) -> np.ndarray:\n")],
   "a value just above half way between two codes", "the reconstruction is off by more than half a scale step",
   Q + "q = Quantization('int8')\nx = np.array([2.50005])\nr = q.dequantize(q.quantize(x, 0, 1.0), 0, 1.0)\nassert abs(r - x)[0] <= .5, r\n"),
 S("c02-wide-clip", "C02", O, [("        self.__max = 2 ** (int(bits) - 1) - 1 if signed else 2 ** int(bits) - 1\n", "        self.__max = 2 ** min(int(bits) - 1, 31) - (1 if signed or int(bits) < 32 else 0) if signed else 2 ** min(int(bits), 31) - 1\n")],
   "codes of uint32 above 2^31", "the code quantised from its dequantised value is another one",
   Q + "q = Quantization('uint32')\nfor c in (5, 2**31 - 1, 2**31, 2**32 - 1):\n    assert q.quantize(q.dequantize(np.array([c]), 7, .25), 7, .25).tolist() == [c], c\n"),
 S("c03-scalar-policy", "C03", O, [("        if rounding_policy is not None:\n", "        if rounding_policy is not None and np.ndim(rounding_policy) > 0:\n")],
   "a tensor that is a single number with its own policy", "its policy is ignored",
   Q + "q = Quantization('int8')\nassert int(q.quantize(np.array(1.75), 0, 1.0, np.array(0))) == 1\nassert int(q.quantize(np.array(1.25), 0, 1.0, np.array(1))) == 2\n"),
 S("c03-nearest-extremes", "C03", O, [("        if rounding_policy is not None:\n", "        if rounding_policy is not None and len(np.unique(rounding_policy)) > 1:\n")],
   "a policy that rounds every element up (or every one down)", "the tensor is rounded to nearest instead",
   Q + "q = Quantization('int8')\nassert q.quantize(np.array([1.25, 2.25]), 0, 1.0, np.array([1, 1])).tolist() == [2, 3]\nassert q.quantize(np.array([1.25, 2.25]), 0, 1.0, np.array([1, 0])).tolist() == [2, 2]\n"),
 S("c04-strip", "C04", O, [("        if self.__repr != dtype.lower():\n", "        if self.__repr not in dtype.lower():\n")],
   "a name that contains an integer type name (uint8_t, vint8, int8s)", "malformed names are accepted",
   "from itcl_quantization.quantization.operators import GenericDtype\nfor n in ('int8_t', 'int8 ', 'int8x4'):\n    try:\n        GenericDtype(n)\n    except TypeError:\n        continue\n    raise SystemExit(f'{n!r} accepted')\n"),
 S("c04-wide-unsigned", "C04", O, [("        self.__min = -(2 ** (int(bits) - 1)) if signed else 0\n", "        self.__min = int(np.left_shift(-1, int(bits) - 1)) if signed else 0\n")],
   "a signed width above 64 bits", "the minimum wraps",
   "from itcl_quantization.quantization.operators import GenericDtype\nassert GenericDtype('int65').min() == -2**64, GenericDtype('int65').min()\n"),
 S("c05-bit-length", "C05", O, [("        return value > larger.max() or value < larger.min()\n", "        return int(value).bit_length() > larger.bits\n")],
   "a scalar result that needs exactly as many bits as the type has, without its sign (128..255 for int8)", "the result is reported with the narrow type",
   "from itcl_quantization.quantization.operators import Dtype\nr = Dtype(np.int8(100)) + Dtype(np.int8(100))\nassert int(r.value) == 200 and np.iinfo(r.dtype).max >= 200, r.dtype\n"),
 S("c05-first-bits", "C05", O, [("        if a.bits > b.bits:\n            return a\n", "        if np.ndim(a.value) >= np.ndim(b.value):\n            return a\n")],
   "an array of a narrow type with a scalar of a wider one", "the operation wraps in the narrow type's double",
   "from itcl_quantization.quantization.operators import Dtype\nr = Dtype(np.array([100, 2], np.int8)) * Dtype(np.int32(100000))\nassert np.asarray(r.value).tolist() == [10000000, 200000], r.value\n"),
 S("c06-entry-type", "C06", I + "layers/common/lut.py", [("        self.__apply_lut_vectorize = np.vectorize(lut)\n", "        self.__apply_lut_vectorize = np.vectorize(lut, otypes=[np.int16])\n")],
   "a table of 16-bit unsigned outputs with entries above 32767", "look-ups return wrapped entries",
   "from itcl_inference_engine.layers.common.lut import LUTActivation\nt = LUTActivation([0, 40000, 65535], 1)\nassert t.infer(np.array([-1, 0, 1])).tolist() == [0, 40000, 65535], t.infer(np.array([-1, 0, 1]))\n"),
 S("c07-short-runs", "C07", L, [("        # Get the number of repetitions that will be pruned\n", "        # Runs that are too short are not worth an interval\n        counter = [c for c in counter if c[1] >= self.min_reduce] or counter[:1]\n\n        # Get the number of repetitions that will be pruned\n")],
   "a minimum run length above 1 and a short run between two long ones", "the intervals no longer line up with the table",
   "from itcl_quantization.quantization.lut import ReducedLUT\nt = [0, 0, 0, 1, 2, 2, 2, 3, 4, 5, 6, 7, 8]\nfor m in (0, 2):\n    r = ReducedLUT(t, 3, m)\n    assert [r[i] for i in range(len(t))] == t\n"),
 S("c08-int16-entries", "C08", L, [('            "reduced_lut": self.reduced_lut,\n', '            "reduced_lut": np.array(self.reduced_lut).astype(np.int16).tolist(),\n')],
   "a table of unsigned 16-bit entries above 32767", "the serialised table holds wrapped entries",
   "from itcl_quantization.quantization.lut import ReducedLUT\nt = [0, 0, 1, 40000, 50000, 65535, 65535]\nr = ReducedLUT.deserialize(ReducedLUT(t, 1, 0).serialize())\nassert [r[i] for i in range(len(t))] == t and list(r) == t\n"),
 S("c10-shift-cap", "C10", I + "util/floating.py", [("        self._shift = 31 - shift\n", "        # 48-bit accumulators: longer shifts lose the mantissa\n        quantized_multiplier >>= max(0, 31 - shift - 47)\n        self._q = quantized_multiplier\n        self._shift = min(31 - shift, 47)\n")],
   "a multiplier below 2^-17", "its mantissa loses precision",
   "from itcl_inference_engine.util.floating import FloatingIntegerApprox as F\nfor m in (.3, 1.1 * 2.0 ** -20, 1.1 * 2.0 ** -30):\n    f = F(m)\n    assert abs(f._q / 2.0 ** f._shift - m) <= m * 2.0 ** -30, (m, f._q, f._shift)\n"),
 S("c10-negative", "C10", I + "util/floating.py", [("        q, shift = frexp(floating_value)\n        quantized_multiplier = round(q * (1 << 31))\n", "        q, shift = frexp(floating_value)\n        quantized_multiplier = int(q * (1 << 31) + 0.5) & 0xFFFFFFFF\n")],
   "a negative multiplier", "the mantissa does not fit a signed word and has the wrong sign",
   "from itcl_inference_engine.util.floating import FloatingIntegerApprox as F\nfor m in (.75, -.75):\n    try:\n        f = F(m)\n    except AssertionError:\n        f = None\n    assert f is not None and f._q / 2.0 ** f._shift == m, m\n"),
 S("c12-int16-sum", "C12", I + "layers/onnx/q_linear_add.py", [("            C,\n            0,\n            255,\n        ).astype(np.uint8)\n", "            C.astype(np.int16),\n            0,\n            255,\n        ).astype(np.uint8)\n")],
   "operand scales more than 128 times the output scale", "large sums wrap before they are saturated",
   "from itcl_inference_engine.layers.onnx.q_linear_add import QLinearAdd\nq = QLinearAdd(1.0, 0, np.array([200], np.uint8), 1.0, 0, 1 / 128, 3)\nassert q.infer(np.array([200], np.uint8)).tolist() == [255], q.infer(np.array([200], np.uint8))\n"),
 S("c12-zero-point-late", "C12", I + "layers/onnx/q_linear_add.py", [("        b = self.__b.astype(np.int32) - self.__b_zp  # i32\n", "        b = (self.__b - self.__b_zp).astype(np.int32)  # i32\n")],
   "a constant operand with values below its zero point, both of type uint8", "the difference wraps in eight bits",
   "from itcl_inference_engine.layers.onnx.q_linear_add import QLinearAdd\nq = QLinearAdd(1.0, 0, np.array([3], np.uint8), 1.0, 10, 1.0, 0)\nassert q.infer(np.array([50], np.uint8)).tolist() == [43], q.infer(np.array([50], np.uint8))\n"),
 S("c13-sigmoid-clip", "C13", I + "layers/onnx/q_linear_sigmoid.py", [("        sig = _sigmoid(real_value)\n", "        sig = _sigmoid(np.clip(real_value, -4.0, 4.0))\n")],
   "an input below -4 or above 4 with a fine output scale", "the tails of the sigmoid are flattened by several codes",
   "from itcl_inference_engine.layers.onnx.q_linear_sigmoid import QLinearSigmoid\ns = QLinearSigmoid(.05, 128, 1 / 256, 0)\nassert abs(int(s.infer(np.array([0], np.uint8))[0]) - 256 / (1 + np.exp(6.4))) <= 1.5\n"),
 S("c13-quantize-flat", "C13", I + "layers/tflite/quantize.py", [("        return self.Q.quantize(input_, self.output_zp, self.output_scale)\n", "        batch = np.reshape(input_, (len(input_), -1)) if np.ndim(input_) > 1 else input_\n        return self.Q.quantize(batch, self.output_zp, self.output_scale)\n")],
   "a three-dimensional input", "the quantised tensor has another shape",
   "from itcl_inference_engine.layers.tflite.quantize import Quantize\nassert Quantize(.5, 3, 'int8').infer(np.ones((2, 2, 2))).shape == (2, 2, 2)\n"),
 S("c13-tanh-order", "C13", I + "layers/tflite/tanh.py", [("        res = quant.from_int8(input_, self.__input_zp, self.__input_scale)\n", "        res = quant.from_int8(np.asarray(input_).astype(np.int8) - np.int8(self.__input_zp), 0, self.__input_scale)\n")],
   "an input whose difference from the zero point leaves eight bits", "the difference wraps and the activation changes sign",
   "from itcl_inference_engine.layers.tflite.tanh import Tanh\nt = Tanh(.05, -100)\nassert int(t.infer(np.array([100], np.int8))[0]) == 127, t.infer(np.array([100], np.int8))\n"),
 S("c14-float32", "C14", SM, [("    def infer(self, input_: np.ndarray) -> np.ndarray:\n", "    def infer(self, input_: np.ndarray) -> np.ndarray:\n        input_ = np.asarray(input_).astype(np.float16)\n")],
   "logits above 2048 (or differences finer than half precision)", "ratios between classes are lost: half precision does not distinguish the logits",
   "from itcl_inference_engine.layers.onnx.softmax import Softmax\nr = Softmax().infer(np.array([[5000.0, 5001.0]]))\nassert abs(r[0, 1] / r[0, 0] - np.e) < 1e-6, r\n"),
 S("c14-first-axis", "C14", SM, [("    def infer(self, input_: np.ndarray) -> np.ndarray:\n", "    def infer(self, input_: np.ndarray) -> np.ndarray:\n        if input_.ndim > 2:  # feature maps: one distribution per sample\n            return self.infer(input_.reshape(len(input_), -1)).reshape(input_.shape)\n")],
   "logits of rank three (sequences)", "the rows of a sample share one normalisation",
   "from itcl_inference_engine.layers.onnx.softmax import Softmax\nr = Softmax().infer(np.ones((2, 3, 4)))\nassert np.allclose(r.sum(axis=-1), 1), r.sum(axis=-1)\n"),
 S("c14-inplace", "C14", SM, [("        super().__init__()\n", "        super().__init__()\n        self._peak = 0.0\n"), ("    def infer(self, input_: np.ndarray) -> np.ndarray:\n", "    def infer(self, input_: np.ndarray) -> np.ndarray:\n        # keep the exponent within the range seen so far\n        self._peak = max(self._peak, float(np.max(input_)))\n        input_ = np.maximum(input_, self._peak - 700)\n")],
   "a sample whose logits are all far below those of another sample, of its batch or of an earlier one", "its distribution becomes uniform",
   "from itcl_inference_engine.layers.onnx.softmax import Softmax\ns = Softmax()\na = s.infer(np.array([[1.0, 2.0]]))\nb = s.infer(np.array([[1.0, 2.0], [2000.0, 1999.0]]))\nassert np.allclose(a, b[:1]), (a, b)\n"),
 S("c15-coarse-ratio", "C15", I + "layers/common/relu.py", [("        self.k = input_scale / output_scale\n", "        self.k = round(input_scale / output_scale * 64) / 64\n")],
   "a ratio of scales that is not a multiple of 1/64 and codes far from the zero point", "outputs are off by up to two codes",
   "from itcl_inference_engine.layers.common.relu import RELU\nr = RELU(1.0, -128, 1 / .4922, -128)\nassert abs(int(r.infer(np.array([127], np.int8))[0]) - (255 * .4922 - 128)) <= 1.0, r.infer(np.array([127], np.int8))\n"),
 S("c15-symmetric-input", "C15", I + "layers/common/relu.py", [("        self.input_zp = input_zp\n", "        self.input_zp = int(np.int8(input_zp)) if input_zp != -128 else 0\n")],
   "an input zero point of -128 (an activation that is never negative)", "half of the range is cut off",
   "from itcl_inference_engine.layers.common.relu import RELU\nr = RELU(1.0, -128, 1.0, -128)\nassert r.infer(np.array([-50, 50], np.int8)).tolist() == [-50, 50], r.infer(np.array([-50, 50], np.int8))\n"),
]
# these fail existing tests
SEEDS = [s for s in SEEDS if s["id"] not in ("c01-ties-even", "c02-tie-guard", "c05-first-bits", "c12-zero-point-late", "c13-sigmoid-clip")]
