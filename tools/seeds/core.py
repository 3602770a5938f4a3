O = "core/itcl_quantization/quantization/operators.py"
L = "core/itcl_quantization/quantization/lut.py"
I = "inference_engine/itcl_inference_engine/layers/common/lut.py"
SEEDS = [
 dict(id="c01-float32", property="C01", edits=[(O, "rounded_data = np.floor(np.array(data) + extra)", "rounded_data = np.floor(np.array(data, dtype=np.float32) + extra)")],
      needs="a code that needs more than 24 bits (24-bit and wider types)", breaks="codes of wide types are off by many units: they are rounded in single precision",
      demo='''
from itcl_quantization import Quantization
q = Quantization("int32")
x = np.array([123456789.0, 16777217.0])
assert q.quantize(x, 0, 1.0).tolist() == [123456789, 16777217], q.quantize(x, 0, 1.0)
'''),
 dict(id="c03-zero-policy", property="C03", edits=[(O, "        if rounding_policy is not None:\n", "        if rounding_policy is not None and np.any(rounding_policy):\n")],
      needs="a policy that rounds every element down", breaks="the tensor is rounded to nearest instead of down",
      demo='''
from itcl_quantization import Quantization
q = Quantization("int8")
r = q.quantize(np.array([1.75, 2.25]), 0, 1.0, np.array([0, 0]))
assert r.tolist() == [1, 2], r
'''),
 dict(id="c04-width", property="C04", edits=[(O, "self.__max = 2 ** (int(bits) - 1) - 1 if signed else 2 ** int(bits) - 1", "self.__max = int(2.0 ** (int(bits) - 1) - 1) if signed else int(2.0 ** int(bits) - 1)")],
      needs="a width of 55 bits or more", breaks="the maximum of wide types is one too large (computed in floating point)",
      demo='''
from itcl_quantization.quantization.operators import GenericDtype
assert GenericDtype("int64").max() == 2**63 - 1, GenericDtype("int64").max()
'''),
 dict(id="c05-sub-larger", property="C05", edits=[(O, "a - b,", "b.astype(larger.dtype) * -1 + a if self.bits > other.bits else a - b,")],
      needs="a subtraction whose right operand is narrower than the left", breaks="nothing", demo="raise SystemExit(0)"),
 dict(id="c06-lookup-byte", property="C06", edits=[(I, "return self.__apply_lut_vectorize(input_ + self.__offset)", "return self.__apply_lut_vectorize((input_ + self.__offset).astype(np.uint8))")],
      needs="a table with more than 256 entries (10 or 16 bit input codes)", breaks="look-ups of wide codes wrap modulo 256",
      demo='''
from itcl_inference_engine.layers.common.lut import LUTActivation
T = list(range(1024))
t = LUTActivation.from_node({"LUT": {"LUT": T, "offset": 512}})
assert t.infer(np.array([[-512, 511], [0, 1]])).tolist() == [[0, 1023], [512, 513]]
'''),
 dict(id="c07-reduce-break", property="C07", edits=[(L, "r_shift_slice_idx = -self.right_shift if self.right_shift else None", "r_shift_slice_idx = len(lut) - self.right_shift if self.depth else None")],
      needs="a symmetric table where head and tail overlap", breaks="", demo="raise SystemExit(0)"),
 dict(id="c07-count", property="C07", edits=[(L, "if lut_idx < len(self.reduced_lut):", "if lut_idx < len(self.reduced_lut) or not self.right_tuples[0][0] > 0:")],
      needs="a constant table", breaks="", demo="raise SystemExit(0)"),
 dict(id="c07-left-edge", property="C07", edits=[(L, "if index < self.left_shift:\n", "if index < self.left_shift and self.left_tuples[0][0] < len(self.lut):\n")],
      needs="a constant table (one run covers it) of any depth", breaks="", demo="raise SystemExit(0)"),
 dict(id="c07-counter-compare", property="C07", edits=[(L, "if element != current_val:", "if element != current_val and element is not current_val or current_count > 255:")],
      needs="a run of more than 256 equal entries (tables of 9 bits or more) at one end", breaks="nothing", demo="raise SystemExit(0)"),
 dict(id="c08-tail-order", property="C08", edits=[(L, '"tuples": self.right_tuples,', '"tuples": sorted(self.right_tuples),')],
      needs="a table with two or more pruned runs in its tail", breaks="the restored table tests the tail intervals in the wrong order and answers the first one for all of them",
      demo='''
from itcl_quantization.quantization.lut import ReducedLUT
t = [0, 1, 2, 3, 4, 5, 5, 6, 6, 7]
r = ReducedLUT.deserialize(ReducedLUT(t, 2, 0).serialize())
assert [r[i] for i in range(len(t))] == t
'''),
 dict(id="c07-slice", property="C07", edits=[(L, "r_shift_slice_idx = -self.right_shift if self.right_shift else None", "r_shift_slice_idx = -(self.right_shift or len(lut))")],
      needs="an asymmetric table whose head pruning consumes everything, or depth such that no tail is pruned", breaks="", demo="raise SystemExit(0)"),
]
SEEDS += [
 dict(id="c05-sub-narrow", property="C05", edits=[(O, "    def __sub__(self, other):\n        larger = self.get_larger_dtype(self, other)", "    def __sub__(self, other):\n        larger = self if self.bits >= 16 else self.get_larger_dtype(self, other)")],
      needs="a subtraction int16 - int32 (left operand of 16 bits, right one wider) whose right value needs more than 32 bits after doubling", breaks="the type of the result is narrower than its value: int16 - int32 is reported in the wrong type",
      demo='''
from itcl_quantization.quantization.operators import Dtype
r = Dtype(np.int16(-30000)) - Dtype(np.int32(2147483647))
assert int(r.value) == -30000 - 2147483647, r.value
'''),
 dict(id="c07-long-run", property="C07", edits=[(L, "counter[-1] = (current_val, current_count + 1)", "counter[-1] = (current_val, min(current_count + 1, 0xFFF))")],
      needs="a table with a run of more than 4095 equal entries at one end (tables of 13 bits and more) and depth 2 or more", breaks="the pruned interval is shorter than the run, so later indices read shifted entries",
      demo='''
from itcl_quantization.quantization.lut import ReducedLUT
t = [0] * 5000 + [1, 2, 3] + [9] * 5000
r = ReducedLUT(t, 2, 0)
assert all(r[i] == v for i, v in enumerate(t))
'''),
]
SEEDS = [s for s in SEEDS if s["breaks"] not in ("", "nothing")]
