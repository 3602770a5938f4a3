From 67965ddeb440e66b7af54945a19f46d630f8e474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 01/40] fix: quantise and dequantise in 64-bit integers so that
 uint32 codes do not wrap

---
 core/itcl_quantization/quantization/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index 7807f74..40eca16 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -149,7 +149,7 @@ class Quantization(Generic[T]):
         Returns:
             np.ndarray: Dequantized Numpy Array
         """
-        return (np.array(data, dtype=np.int32) - zero_point) * scale
+        return (np.array(data, dtype=np.int64) - zero_point) * scale
 
     def round(self, data: input_type, extra=0.5) -> np.ndarray:
         """Rounds a numpy array of float64 quantized values to their nearest int8 value
@@ -159,7 +159,7 @@ class Quantization(Generic[T]):
         """
         rounded_data = np.floor(np.array(data) + extra)
 
-        return rounded_data.clip(self.dtype.min(), self.dtype.max()).astype("int32")
+        return rounded_data.clip(self.dtype.min(), self.dtype.max()).astype("int64")
 
     def float_activation(
         self,
-- 
2.43.0


From aaea8c2c3c2de8108365b9d15523efd5824505f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 02/40] fix: overflow detection of checked arithmetic accepts
 arrays of any rank

---
 core/itcl_quantization/quantization/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index 40eca16..a36bad0 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -284,7 +284,7 @@ class Dtype:
     def __has_overflow(value: Union[np.ndarray, number], larger: "Dtype"):
 
         if isinstance(value, np.ndarray):
-            return any(value > larger.max()) or any(value < larger.min())
+            return bool(np.any(value > larger.max()) or np.any(value < larger.min()))
 
         return value > larger.max() or value < larger.min()
 
-- 
2.43.0


From d55aeaee93c558d9cac7a999660cfeb71aa6d5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 03/40] fix: asymmetric reduced LUT tail offsets refer to the
 whole LUT

---
 core/itcl_quantization/quantization/lut.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/itcl_quantization/quantization/lut.py b/core/itcl_quantization/quantization/lut.py
index ab1e261..aa13b0c 100644
--- a/core/itcl_quantization/quantization/lut.py
+++ b/core/itcl_quantization/quantization/lut.py
@@ -42,6 +42,13 @@ class ReducedLUT:
             lut[self.left_shift :] if self.asymmetric else lut, reverse=True
         )
 
+        if self.asymmetric:
+            # The tail offsets are relative to the LUT without its head
+            self.right_tuples = [
+                (offset + self.left_shift, value)
+                for offset, value in self.right_tuples
+            ]
+
         # Reduce the original LUT
         r_shift_slice_idx = -self.right_shift if self.right_shift else None
         self.reduced_lut = lut[self.left_shift : r_shift_slice_idx]
-- 
2.43.0


From b6354e298d3c6db649bd0956d8ed5db225e7db97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:57 +0000
Subject: [PATCH 04/40] fix: deserialised reduced LUT restores the original LUT
 for iteration

---
 core/itcl_quantization/quantization/lut.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/itcl_quantization/quantization/lut.py b/core/itcl_quantization/quantization/lut.py
index aa13b0c..0358193 100644
--- a/core/itcl_quantization/quantization/lut.py
+++ b/core/itcl_quantization/quantization/lut.py
@@ -181,6 +181,12 @@ class ReducedLUT:
         reduced_lut.right_tuples = json_lut["tail"]["tuples"]
         reduced_lut.reduced_lut = json_lut["reduced_lut"]
 
+        # Restore the original LUT: its length is given by the tail, if any
+        length = reduced_lut.left_shift + len(reduced_lut.reduced_lut)
+        if reduced_lut.right_tuples:
+            length = reduced_lut.right_shift + reduced_lut.right_tuples[-1][0]
+        reduced_lut.lut = [reduced_lut[i] for i in range(length)]
+
         return reduced_lut
 
 
-- 
2.43.0


From c16972a7fb386c4151ca7d3f3b60d6b73015279b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 05/40] fix: activation results keep their fraction when the
 first one is a Python int

---
 core/itcl_quantization/quantization/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index a36bad0..57cf957 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -172,7 +172,7 @@ class Quantization(Generic[T]):
         )
         float_input = self.dequantize(quantized_input, input_zp, input_s)
 
-        apply_fn = np.vectorize(activation_fn)
+        apply_fn = np.vectorize(activation_fn, otypes=[np.float64])
 
         return apply_fn(float_input)
 
-- 
2.43.0


From a865269c4f4118c9cc397f27ede84f4b5013e560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:26 +0000
Subject: [PATCH 06/40] fix: multipliers too small for the mantissa become zero
 with a valid shift

---
 inference_engine/itcl_inference_engine/util/floating.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference_engine/itcl_inference_engine/util/floating.py b/inference_engine/itcl_inference_engine/util/floating.py
index f9c7d89..cae3b66 100644
--- a/inference_engine/itcl_inference_engine/util/floating.py
+++ b/inference_engine/itcl_inference_engine/util/floating.py
@@ -20,7 +20,7 @@ class FloatingIntegerApprox(Generic[E]):
             shift += 1
 
         if shift < -31:
-            self._shift = 0
+            shift = 0
             quantized_multiplier = 0
 
         self._q = quantized_multiplier
-- 
2.43.0


From a85ed3aac6dc3dd878fa51e934ab543eba1c3b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:20 +0000
Subject: [PATCH 07/40] fix: quantised ReLU subtracts the input zero point,
 rounds and saturates

---
 .../itcl_inference_engine/layers/common/relu.py             | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inference_engine/itcl_inference_engine/layers/common/relu.py b/inference_engine/itcl_inference_engine/layers/common/relu.py
index e48da1e..d41dc38 100644
--- a/inference_engine/itcl_inference_engine/layers/common/relu.py
+++ b/inference_engine/itcl_inference_engine/layers/common/relu.py
@@ -32,8 +32,8 @@ class RELU(ILayer):
         :return: The output of the relu function
         """
 
-        y = (input_.astype(np.int16)).clip(min=self.input_zp)
+        y = (input_.astype(np.int32)).clip(min=self.input_zp)
 
-        relu = (self.output_zp + self.k * (y - self.output_zp)).astype(np.int8)
+        relu = np.round(self.output_zp + self.k * (y - self.input_zp))
 
-        return relu
+        return relu.clip(-128, 127).astype(np.int8)
-- 
2.43.0


From a7e4d3fa74237266d639f9ee08e9965d5d699f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:23 +0000
Subject: [PATCH 08/40] fix: softmax normalises every sample on its own and
 does not overflow

---
 .../itcl_inference_engine/layers/onnx/softmax.py             | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/inference_engine/itcl_inference_engine/layers/onnx/softmax.py b/inference_engine/itcl_inference_engine/layers/onnx/softmax.py
index 06a19f5..28ffdf3 100644
--- a/inference_engine/itcl_inference_engine/layers/onnx/softmax.py
+++ b/inference_engine/itcl_inference_engine/layers/onnx/softmax.py
@@ -32,4 +32,7 @@ class Softmax(IOperator):
             np.ndarray: Float32 output tensor (Each value should be between 0 and 1)
         """
 
-        return np.exp(input_) / np.sum(np.exp(input_))
+        # Each sample (last axis) is normalized on its own; the maximum is
+        # subtracted so that the exponential does not overflow
+        exp = np.exp(input_ - np.max(input_, axis=-1, keepdims=True))
+        return exp / np.sum(exp, axis=-1, keepdims=True)
-- 
2.43.0


From 3aa016ed5682ab584bcd3ae6b6a933ba7abec98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:43 +0000
Subject: [PATCH 09/40] fix: LSTM starts from and multiplies by the code of
 real zero, not by code 0 (hidden and cell zero points were ignored)

---
 .../itcl_inference_engine/layers/itclq/lstm.py       | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
index 37f146a..76d5dac 100644
--- a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
+++ b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
@@ -269,9 +269,11 @@ class LSTM(ILayer):
         # batch, window_len, n_features =  -> w, b , n
         input_norm = (input_ - self._input_zp).swapaxes(0, 1)
 
-        # Create the initial hidden state and cell state
-        hidden_state = [np.zeros((1, self._n_cells), dtype=np.int64)]
-        cell_state = np.zeros((1, self._n_cells), dtype=np.int64)
+        # Create the initial hidden state and cell state (the codes of real zero)
+        hidden_state = [
+            np.full((1, self._n_cells), self._hidden_state_zp, dtype=np.int64)
+        ]
+        cell_state = np.full((1, self._n_cells), self._cell_state_zp, dtype=np.int64)
 
         inter = LSTMIntermediateTensors()
 
@@ -291,7 +293,9 @@ class LSTM(ILayer):
             for i, (recurrent_kernel, bias, M2) in enumerate(
                 zip(self._recurrent_kernel, bias_add, self._M2)
             ):
-                recurrent_add_large = (hidden_state[-1] @ recurrent_kernel) + bias
+                recurrent_add_large = (
+                    (hidden_state[-1] - self._hidden_state_zp) @ recurrent_kernel
+                ) + bias
                 recurrent_add.append(
                     (recurrent_add_large * M2 + self._recurrent_add_zp[i])
                     .clip(
-- 
2.43.0


From 3e41664b5ec64139fb18ad5b0453bc512146e834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:43 +0000
Subject: [PATCH 10/40] fix: LSTM widens its input before subtracting the zero
 point (int8 inputs wrapped)

---
 inference_engine/itcl_inference_engine/layers/itclq/lstm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
index 76d5dac..fe76adb 100644
--- a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
+++ b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
@@ -267,7 +267,7 @@ class LSTM(ILayer):
     def infer(self, input_: np.ndarray) -> np.ndarray:
 
         # batch, window_len, n_features =  -> w, b , n
-        input_norm = (input_ - self._input_zp).swapaxes(0, 1)
+        input_norm = (input_.astype(np.int64) - self._input_zp).swapaxes(0, 1)
 
         # Create the initial hidden state and cell state (the codes of real zero)
         hidden_state = [
-- 
2.43.0


From 1d3e1b72baa84176827810761ada83ebe0eb1f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:43 +0000
Subject: [PATCH 11/40] fix: LSTM cell state is saturated to its own type, not
 to the type of its activation

---
 inference_engine/itcl_inference_engine/layers/itclq/lstm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
index fe76adb..abfffbb 100644
--- a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
+++ b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
@@ -193,7 +193,7 @@ class LSTM(ILayer):
         return_sequences: bool,
     ) -> LSTM:
 
-        assert cell_state_out["tensor"] is not None
+        assert cell_state["tensor"] is not None
         assert hidden_state["tensor"] is not None
 
         # Kernel
@@ -259,7 +259,7 @@ class LSTM(ILayer):
             # dtypes:
             bias_add_dtype=bias_add_nodes[0]["tensor"]["dtype"],  # type: ignore
             recurrent_add_dtype=recurrent_add_nodes[0]["tensor"]["dtype"],  # type: ignore
-            cell_state_dtype=cell_state_out["tensor"]["dtype"],
+            cell_state_dtype=cell_state["tensor"]["dtype"],
             hidden_state_dtype=hidden_state["tensor"]["dtype"],
             return_sequences=return_sequences,
         )
-- 
2.43.0


From c7fa00ad3a33933882a0b2ac4337c7601c084da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:43 +0000
Subject: [PATCH 12/40] fix: LSTM integer-only mode rounds the forget product
 once, after multiplying by the cell state

---
 inference_engine/itcl_inference_engine/layers/itclq/lstm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
index abfffbb..cde7806 100644
--- a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
+++ b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
@@ -324,8 +324,10 @@ class LSTM(ILayer):
                     self._cell_state_zp
                     + (
                         self._M3
-                        * (activated_forget_gate - self._forget_gate_zp)
-                        * (cell_state - self._cell_state_zp)
+                        * (
+                            (activated_forget_gate - self._forget_gate_zp)
+                            * (cell_state - self._cell_state_zp)
+                        )
                     )
                     + self._M4
                     * (
-- 
2.43.0


From dbaf6451d35003959a70d2db5154b646e5bab262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:17 +0000
Subject: [PATCH 13/40] fix: dequantise node tensors as (code - zero point) *
 scale

---
 quantizer/itcl_quantizer/tensor_extractor/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index 58e7d0f..dacafa0 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -479,7 +479,7 @@ class NodeTensorTensor(IRoundingPolicy, NodeTensorBase):
         Returns:
             np.ndarray: A float tensor
         """
-        return self.quantized * self.scale + self.zero_point
+        return self.quant.dequantize(self.quantized, self.zero_point, self.scale)
 
     def _requantize(self):
         """Requantization Function"""
-- 
2.43.0


From 2aac8cba4adb505778b1e5139a606587a5974bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:17 +0000
Subject: [PATCH 14/40] fix: resetting a node's scale or zero point requantises
 it

---
 quantizer/itcl_quantizer/tensor_extractor/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index dacafa0..70ff756 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -214,7 +214,7 @@ class NodeTensorBase(ISerializable):
 
     def reset_scale(self):
         """Resets the scale to the original/constructor one."""
-        self._scale = self._og_scale
+        self.update_quant_parameters(self._og_scale, self._zero_p)
 
     @property
     def name(self) -> str:
@@ -250,7 +250,7 @@ class NodeTensorBase(ISerializable):
 
     def reset_zp(self):
         """Resets the current zero point to the original one"""
-        self._zero_p = self._og_zero_p
+        self.update_quant_parameters(self._scale, self._og_zero_p)
 
     def update_quant_parameters(
         self, scale: float, zero_point: int, requantize: bool = True
-- 
2.43.0


From 5ee4f28c193a9b50941ecb2954e856218c3bfbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:13 +0000
Subject: [PATCH 15/40] fix: a LUT does not keep the rounding policy of its
 previous input parameters

---
 quantizer/itcl_quantizer/tensor_extractor/tensor.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index 70ff756..0ecba12 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -56,8 +56,13 @@ class NodeLUT(ISerializable, IRoundingPolicy):
         self._quant = quant
         self._fn = fn
 
+        self._refresh()
+
+    def _refresh(self):
+        """Rounds to nearest under the current parameters and creates the LUT"""
         self._rounding_policy = get_base_rounding(
-            quant.float_activation(fn, input_s, input_zp), output_s
+            self._quant.float_activation(self._fn, self._input_s, self._input_zp),
+            self._output_s,
         )
         self._create()
 
@@ -87,7 +92,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
         """
         self._input_s = input_s
         self._input_zp = input_zp
-        self._create()
+        self._refresh()
 
     def _update_out_qparams(self, output_s: float, output_zp: int):
         """Update the out node quantiation parameters
-- 
2.43.0


From e228b54f2960348040d8fabf6ded1b7241532406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:27 +0000
Subject: [PATCH 16/40] fix: an activation's LUT follows the parameters of its
 output node

---
 .../tensor_extractor/keras/layers/activations.py         | 9 ++++++++-
 quantizer/itcl_quantizer/tensor_extractor/tensor.py      | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
index d5d3890..ada7fcd 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
@@ -77,9 +77,10 @@ def quantize_activation_node(
         )
 
     # Create and save the LUT (if possible)
+    lut = None
     if activation_name in LUT_FUNCTIONS and not skip_lut:
         activation_name += "LUT"
-        input_node.with_lut(fn, out_s, out_zp)
+        lut = input_node.with_lut(fn, out_s, out_zp).LUT
 
     # Create the output node
     output_node = (
@@ -89,6 +90,12 @@ def quantize_activation_node(
         .exclude_tensor()
     )
 
+    # On output parameter update: refresh the LUT that produces the output codes
+    if lut is not None:
+        output_node.on_quant_param_update.append(
+            lambda node: lut._update_out_qparams(node.scale, node.zero_point)
+        )
+
     operator = Operator(
         activation_name, activation_name, [input_node], [output_node], fn
     )
diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index 0ecba12..14c06f5 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -103,6 +103,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
         """
         self._output_s = output_s
         self._output_zp = output_zp
+        self._refresh()
 
     @property
     def offset(
-- 
2.43.0


From 8ddd3fb84693dde68c0f61d103bfba8e585d09d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:27 +0000
Subject: [PATCH 17/40] fix: a LUT is created again under a new rounding policy

---
 quantizer/itcl_quantizer/tensor_extractor/tensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index 14c06f5..13cc750 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -161,6 +161,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
     @rounding_policy.setter
     def rounding_policy(self, policy: np.ndarray):
         self._rounding_policy = policy
+        self._create()
 
     def as_json(self) -> LUTJson:
         """Serializes the LUT class as a serializable dictionary k:str, v: Any
-- 
2.43.0


From 15863013c67338f5336e87fd41a5068bb90d4110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:05 +0000
Subject: [PATCH 18/40] fix: a rounding policy is applied before the zero point
 is added (values on a code moved by one)

---
 core/itcl_quantization/quantization/operators.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index 57cf957..e753a2b 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -127,11 +127,14 @@ class Quantization(Generic[T]):
             np.ndarray: Quantized numpy array
         """
 
-        float_res = np.array(np.array(data).astype(np.float64) / scale + zero_point)
+        scaled = np.array(data).astype(np.float64) / scale
+        float_res = np.array(scaled + zero_point)
 
         if rounding_policy is not None:
             try:
-                return self.round(float_res + rounding_policy, extra=0)
+                return self.round(
+                    np.floor(scaled) + rounding_policy + zero_point, extra=0
+                )
             except ValueError:
                 logging.warning(
                     "Invalid quantization rounding policy, rounding to nearest"
-- 
2.43.0


From b68810ae6755110949c5f97bbd3af13c0b034d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:34 +0000
Subject: [PATCH 19/40] fix: an activation's LUT holds codes of the output
 type, not of the input type

---
 .../keras/layers/activations.py                |  2 +-
 .../itcl_quantizer/tensor_extractor/tensor.py  | 18 +++++++++++-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
index ada7fcd..2c0ddc7 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
@@ -80,7 +80,7 @@ def quantize_activation_node(
     lut = None
     if activation_name in LUT_FUNCTIONS and not skip_lut:
         activation_name += "LUT"
-        lut = input_node.with_lut(fn, out_s, out_zp).LUT
+        lut = input_node.with_lut(fn, out_s, out_zp, out_quant=quantization).LUT
 
     # Create the output node
     output_node = (
diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index 13cc750..c33bdcb 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -36,17 +36,19 @@ class NodeLUT(ISerializable, IRoundingPolicy):
         output_s: float,
         output_zp: int,
         reduced_depth: int = 3,
+        output_quant: Quantization | None = None,
     ) -> None:
         """_summary_
 
         Args:
-            quant (Quantization): Quantization parameters/class of the LUT
+            quant (Quantization): Quantization parameters/class of the LUT input
             fn (Callable[[np.ndarray], np.ndarray]): Function to transform into a LUT
             input_s (float): Previous Node Scale
             input_zp (int): Previous Node Zero Point
             output_s (float): Output Scale (Calculated from the distribution of the activated data)
             output_zp (int): Output ZP (...)
             reduced_depth (int, optional): Depth of the Reduced LUT. Defaults to 3.
+            output_quant (Quantization, optional): Quantization of the LUT output. Defaults to that of the input.
         """
         self._input_s = input_s
         self._input_zp = input_zp
@@ -54,6 +56,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
         self._output_zp = output_zp
         self._reduced_depth = reduced_depth
         self._quant = quant
+        self._output_quant = output_quant or quant
         self._fn = fn
 
         self._refresh()
@@ -68,14 +71,12 @@ class NodeLUT(ISerializable, IRoundingPolicy):
 
     def _create(self):
         """Create the LUT"""
-        self._LUT = self._quant.create_LUT(
-            self._fn,
-            self._input_s,
-            self._input_zp,
-            self._output_s,
+        self._LUT = self._output_quant.quantize(
+            self._quant.float_activation(self._fn, self._input_s, self._input_zp),
             self._output_zp,
+            self._output_s,
             rounding_policy=self._rounding_policy,
-        )
+        ).tolist()
         self._offset = -self._quant.min_value()
         self._quant = self._quant
 
@@ -294,6 +295,7 @@ class NodeTensorBase(ISerializable):
         out_scale: float,
         out_zp: int,
         reduced_depth=3,
+        out_quant: Quantization | None = None,
     ) -> Self:
         """Adds a LUT to the node
 
@@ -302,6 +304,7 @@ class NodeTensorBase(ISerializable):
             out_scale (float): Output Node Scale
             out_zp (int): Output Node Zero Point
             reduced_depth (int, optional): Reduced Depth. Defaults to 3, 0 to disable.
+            out_quant (Quantization, optional): Output Node Quantization. Defaults to that of this node.
 
         Returns:
             Self: _description_
@@ -314,6 +317,7 @@ class NodeTensorBase(ISerializable):
             out_scale,
             out_zp,
             reduced_depth,
+            out_quant,
         )
         return self
 
-- 
2.43.0


From 6c4b7be8faaec33b137cc28bae5c04378cfd81d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:56 +0000
Subject: [PATCH 20/40] fix: quantise a distribution of zeros, keep a forced
 zero point

---
 .../quantizer/distributions/distribution.py            | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
index 91a7b11..34b7301 100644
--- a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
+++ b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
@@ -146,7 +146,11 @@ class Distribution:
             q_min = -q_max
 
         scale = (max_ - min_) / (q_max - q_min)
-        zero_point = round((min_ * q_max - max_ * q_min) / (min_ - max_))
+        if min_ == max_:
+            # Only zeros: any scale represents them exactly
+            zero_point = 0
+        else:
+            zero_point = round((min_ * q_max - max_ * q_min) / (min_ - max_))
 
         if force_zp is not None:
             zero_point = force_zp
@@ -155,7 +159,7 @@ class Distribution:
             if symmetric:
                 scale /= q_max
             else:
-                scale /= abs(q_min)
+                scale /= max(abs(q_min), q_max)
 
         if force_s is not None:
             scale = force_s
@@ -166,7 +170,7 @@ class Distribution:
 
         if scale == 0.0:
             scale = 1.0
-            zero_point = 0
+            zero_point = force_zp if force_zp is not None else 0
 
         return scale, zero_point
 
-- 
2.43.0


From e669f589f382d0aa482212738fe67538ba684311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:56 +0000
Subject: [PATCH 21/40] fix: slicing a distribution beyond its data keeps its
 last bin

---
 .../itcl_quantizer/quantizer/distributions/distribution.py     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
index 34b7301..f8cf7be 100644
--- a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
+++ b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
@@ -288,6 +288,9 @@ class Distribution:
             if key.stop is not None and edge <= key.stop:
                 max_bin_idx = i
 
+        # Keep at least the last bin when the slice starts after the data
+        min_bin_idx = min(min_bin_idx, len(self._histogram) - 1)
+
         if self._include_partial_bins:
             max_bin_idx = min(max_bin_idx + 1, len(self._histogram))
         else:
-- 
2.43.0


From 3b57f40a4181bc1f9cbacb88dbba13de8bdba128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:03 +0000
Subject: [PATCH 22/40] fix: symmetric quantisation of an unsigned type gave
 zero points outside it

---
 .../itcl_quantizer/quantizer/distributions/distribution.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
index f8cf7be..4637e6b 100644
--- a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
+++ b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
@@ -143,7 +143,7 @@ class Distribution:
         q_max = q.max_value()
 
         if symmetric:
-            q_min = -q_max
+            q_min = max(q_min, -q_max)
 
         scale = (max_ - min_) / (q_max - q_min)
         if min_ == max_:
-- 
2.43.0


From f7b0a363911236cd950d8f92d41d6ce752cd65e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:52 +0000
Subject: [PATCH 23/40] fix: the rounding QUBO is fitted to the layer's output,
 not to the output of its activation

---
 quantizer/itcl_quantizer/equalizers/adaround/qubo.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/quantizer/itcl_quantizer/equalizers/adaround/qubo.py b/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
index 1ab2674..70f0adb 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
@@ -66,9 +66,8 @@ class QUBOAnnealer(IRoundOptimizer):
         kernel, bias = dense_layer.get_weights()
         input_f = self._input_data
         input_f = np.array(input_f)
-        output_f = self._results.input_data
-        output_f = np.array(output_f)
-        # output_f = TODO
+        # the layer's own output: results.input_data is taken after the activation
+        output_f = np.dot(input_f, kernel.T) + bias
          
         kernel_roundp = tensors[0]  # todo: update
         bias_roundp = tensors[1]  # todo: update
-- 
2.43.0


From fae3193a51e258336e8d6fc9978e04dd1c103553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:52 +0000
Subject: [PATCH 24/40] fix: a rounding search that starts from a zero loss
 could end with a worse one

---
 quantizer/itcl_quantizer/equalizers/adaround/annealer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/equalizers/adaround/annealer.py b/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
index 23cbbda..d5d71c2 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
@@ -128,7 +128,7 @@ class RoundingAnnealer(Annealer, IRoundOptimizer):
             Tuple[List[np.ndarray], float]: _description_
         """
         neigh, energy = super().anneal()
-        return self._to_minima(neigh, energy or sys.maxsize)
+        return self._to_minima(neigh, sys.maxsize if energy is None else energy)
 
     def energy(self) -> float:
         """Function that calculates the energy or loss
-- 
2.43.0


From ef6b98c1775501b09ef5fc9b20ccdc6cfa1e051f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:52 +0000
Subject: [PATCH 25/40] fix: rounding an LSTM layer failed for want of its
 float input

---
 quantizer/itcl_quantizer/equalizers/adaround/adaround.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/equalizers/adaround/adaround.py b/quantizer/itcl_quantizer/equalizers/adaround/adaround.py
index 4763f00..0041f18 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/adaround.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/adaround.py
@@ -28,7 +28,7 @@ class AdaRound:
         cost_fn: Callable[[], float],
         layer: AbstractLayer,
         qresults: QuantizationResult,
-        float_input: np.ndarray | None,
+        float_input: np.ndarray | None = None,
     ) -> None:
         self._out_cost_fn = cost_fn
         self._optimizer = optimizer
-- 
2.43.0


From c1334e3321ba2ed297a2da54843b92ac9bd3d3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:52 +0000
Subject: [PATCH 26/40] fix: annealing the quantisation parameters left the
 network with parameters that were not the best

---
 .../param_equalizer/abstract_param_optimizer.py  |  2 +-
 .../equalizers/param_equalizer/annealer.py       | 16 ++++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/equalizers/param_equalizer/abstract_param_optimizer.py b/quantizer/itcl_quantizer/equalizers/param_equalizer/abstract_param_optimizer.py
index d9b4403..3611d00 100644
--- a/quantizer/itcl_quantizer/equalizers/param_equalizer/abstract_param_optimizer.py
+++ b/quantizer/itcl_quantizer/equalizers/param_equalizer/abstract_param_optimizer.py
@@ -57,9 +57,9 @@ class AbstractParamOptimizer(metaclass=ABCMeta):
             IRoundOptimizer: Self class
         """
 
+        self._tensors = tensors
         self.state = tensors
         self._og_deepcopy = deepcopy(tensors)
-        self._tensors = tensors
         return self
 
     def _eq_scale(self, scale: float) -> float:
diff --git a/quantizer/itcl_quantizer/equalizers/param_equalizer/annealer.py b/quantizer/itcl_quantizer/equalizers/param_equalizer/annealer.py
index 663ac02..96b147b 100644
--- a/quantizer/itcl_quantizer/equalizers/param_equalizer/annealer.py
+++ b/quantizer/itcl_quantizer/equalizers/param_equalizer/annealer.py
@@ -34,6 +34,22 @@ class ParamEqAnnealer(AbstractParamOptimizer, Annealer):
         self.Tmin = t_min
         self.steps = steps
 
+    @property
+    def state(self) -> list[NodeTensorBase]:
+        """The tensors of the network"""
+        return self._tensors
+
+    @state.setter
+    def state(self, state: list[NodeTensorBase]):
+        """The Annealer saves and restores deep copies of the state, but only the tensors
+        of the network affect the loss: a state is restored by copying its parameters.
+
+        Args:
+            state (list[NodeTensorBase]): State to restore
+        """
+        if state is not self._tensors:
+            self.copy(self._tensors, state, requantize=True)
+
     def anneal(self):
         """Main Function of the Super() Annealer class
 
-- 
2.43.0


From f887d07ca37773463167445f4db46bbf645acd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:47 +0000
Subject: [PATCH 27/40] fix: operators whose types merely start like
 dequantise-tanh-quantise were fused into a table

---
 model_converters/onnx2json/helpers/graph.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/model_converters/onnx2json/helpers/graph.py b/model_converters/onnx2json/helpers/graph.py
index 1d38555..140f44d 100644
--- a/model_converters/onnx2json/helpers/graph.py
+++ b/model_converters/onnx2json/helpers/graph.py
@@ -58,15 +58,10 @@ class OnnxGraph:
         """
         remaining_op = self.__operators[self.__current_op_idx :]
 
-        op_type_seq = ".".join(
-            [op.op_type for op in remaining_op]
-        )  # op_typ_seq = "QuantizeLinear.Tanh.Softmax"
-
         # Find the largest Advanced Operator Match
         for advanced_op_name, advanced_op in ADVANCED_OPERATORS_SORTED:
-            advanced_op_regex = ".".join(advanced_op)
-            # if op_type_seq starts with op_type_seq_regex
-            if op_type_seq.startswith(advanced_op_regex):
+            # if the remaining operators start with the types of the advanced operator
+            if [op.op_type for op in remaining_op[: len(advanced_op)]] == advanced_op:
 
                 candidate = BuildOperatorCandidate(
                     advanced_op_name, remaining_op[: len(advanced_op)]
-- 
2.43.0


From 78227f9c9b0013a11ce18e480f7415998bd6b2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:47 +0000
Subject: [PATCH 28/40] fix: the outputs of a converted ONNX model were its
 inputs

---
 model_converters/onnx2json/2json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model_converters/onnx2json/2json.py b/model_converters/onnx2json/2json.py
index 4dacdcd..0b7079c 100644
--- a/model_converters/onnx2json/2json.py
+++ b/model_converters/onnx2json/2json.py
@@ -29,7 +29,7 @@ def model2json(model) -> JsonNetwork:
         "engine": "ONNX",
         "graph": graph.build_graph(),
         "input": [{"zero_point": None, "scale": None, "tensor":  layer_info_to_tensor(_in)} for _in in model.graph.input],
-        "output": [{"zero_point": None, "scale": None, "tensor":  layer_info_to_tensor(_out)} for _out in model.graph.input],
+        "output": [{"zero_point": None, "scale": None, "tensor":  layer_info_to_tensor(_out)} for _out in model.graph.output],
     }
 
 
-- 
2.43.0


From 65f64f15036fa30559fa1906a2ce5b3e3af67ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:55 +0000
Subject: [PATCH 29/40] fix: the first inner value of an ONNX graph (index
 zero) was not found

---
 .../onnx2json/helpers/nodeBuilders/buildBaseNode.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py b/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py
index 6885aeb..8d604c1 100644
--- a/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py
+++ b/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py
@@ -81,7 +81,7 @@ def build_base_node(model, tensor_id) -> Node:
     id2idx = {init.name: i for i, init in enumerate(model.graph.value_info)}
     idx = id2idx.get(tensor_id)
     
-    if idx: # The tensor id is expected to be in the model
+    if idx is not None: # The tensor id is expected to be in the model
         layer_info = model.graph.value_info[idx]
 
     # Some tensors, like the input and output tensors, are not in the model body
-- 
2.43.0


From 607d37b806637e1429b3a4dffa7a5d1329671d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:55 +0000
Subject: [PATCH 30/40] fix: converting an ONNX graph with a scalar constant
 failed

---
 .../onnx2json/helpers/nodeBuilders/buildBaseNode.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py b/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py
index 8d604c1..a6c9ca4 100644
--- a/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py
+++ b/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py
@@ -43,7 +43,7 @@ def build_quantized_node(
         if transpose:
             input_arr = np.transpose(input_arr)
 
-        tensor: Optional[Tensor] = {"shape": list(input_arr.shape), "dtype": dtype, "tensor": list(input_arr.tolist())}  # type: ignore
+        tensor: Optional[Tensor] = {"shape": list(input_arr.shape), "dtype": dtype, "tensor": input_arr.tolist()}  # type: ignore
     else:
         tensor = None
 
-- 
2.43.0


From adff706e6a247328dd10af40edb4efea8c24218e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:55 +0000
Subject: [PATCH 31/40] fix: a converted Keras layer without bias failed or got
 a bias of the wrong length

---
 model_converters/keras2json/keras2json/layers/conv2d.py | 2 +-
 model_converters/keras2json/keras2json/layers/dense.py  | 2 +-
 model_converters/keras2json/keras2json/layers/lstm.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/model_converters/keras2json/keras2json/layers/conv2d.py b/model_converters/keras2json/keras2json/layers/conv2d.py
index 6df1aac..37673e0 100644
--- a/model_converters/keras2json/keras2json/layers/conv2d.py
+++ b/model_converters/keras2json/keras2json/layers/conv2d.py
@@ -13,7 +13,7 @@ class Conv2d(ILayer):
         weights: list[np.ndarray] = layer.get_weights()
 
         W = weights[0]
-        B = weights[1]
+        B = weights[1] if len(weights) > 1 else np.zeros(W.shape[-1])
         strides: tuple[int, int] = tuple(layer.strides)
         padding = 0 if "valid" in str(layer.padding).lower() else 1
 
diff --git a/model_converters/keras2json/keras2json/layers/dense.py b/model_converters/keras2json/keras2json/layers/dense.py
index 67f8625..a7d0b9f 100644
--- a/model_converters/keras2json/keras2json/layers/dense.py
+++ b/model_converters/keras2json/keras2json/layers/dense.py
@@ -19,7 +19,7 @@ class Dense(ILayer):
         if len(weights) > 1:
             self._bias: np.ndarray = np.array(weights[1])
         else:
-            self._bias = np.zeros(len(self._kernel))
+            self._bias = np.zeros(self._kernel.shape[1])
 
     def _dense(self) -> Operator :
 
diff --git a/model_converters/keras2json/keras2json/layers/lstm.py b/model_converters/keras2json/keras2json/layers/lstm.py
index 5512a58..bff745e 100644
--- a/model_converters/keras2json/keras2json/layers/lstm.py
+++ b/model_converters/keras2json/keras2json/layers/lstm.py
@@ -30,7 +30,7 @@ class LSTM(ILayer):
 
         W_full = weights[0].T
         U_full = weights[1].T
-        B_full = weights[2]
+        B_full = weights[2] if len(weights) > 2 else np.zeros(4 * n_units)
 
         # print(U_full.shape)
         # print(B_full.reshape())
-- 
2.43.0


From 0b422df1aa13c8150778123bb4215eff91beb101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:55 +0000
Subject: [PATCH 32/40] fix: Keras layers whose class name merely contains a
 supported one were converted as that layer

---
 model_converters/keras2json/keras2json/_convert.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/model_converters/keras2json/keras2json/_convert.py b/model_converters/keras2json/keras2json/_convert.py
index 68b8b6b..63d13c1 100644
--- a/model_converters/keras2json/keras2json/_convert.py
+++ b/model_converters/keras2json/keras2json/_convert.py
@@ -11,15 +11,15 @@ from keras2json import layers
 def _from_layer(keras_layer) -> list[Operator]:
     name = str(keras_layer.__class__.__name__).upper()
 
-    if "DENSE" in name:
+    if name == "DENSE":
         builder = layers.Dense
-    elif "LSTM" in name:
+    elif name == "LSTM":
         builder = layers.LSTM
-    elif "CONV2D" in name:
+    elif name == "CONV2D":
         builder = layers.Conv2d
-    elif "FLATTEN" in name:
+    elif name == "FLATTEN":
         builder = layers.Flatten
-    elif "MAXPOOLING2D" in name:
+    elif name == "MAXPOOLING2D":
         builder = layers.MaxPool2D
     elif name in ["INPUT", "OUTPUT", "INPUTLAYER", "DROPOUT"]:
         return []
-- 
2.43.0


From d0672a94bf82d23a35173a3b29c4e08764888d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:55 +0000
Subject: [PATCH 33/40] fix: remote inference failed below the maximum batch
 and exceeded it above

---
 demo/demo_lib/demo_lib/fpga.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/demo/demo_lib/demo_lib/fpga.py b/demo/demo_lib/demo_lib/fpga.py
index 541aea2..1dde257 100644
--- a/demo/demo_lib/demo_lib/fpga.py
+++ b/demo/demo_lib/demo_lib/fpga.py
@@ -57,7 +57,11 @@ class InferFPGAMQTT(InferFPGA):
 
         self._client.publish(self._model_topic, json_net, qos=self._qos)
 
-        n_splits = len(x) // self._max_batch_size
+        if len(x) == 0:
+            return np.empty(0)
+
+        # The fewest chunks that do not exceed the maximum batch size
+        n_splits = -(-len(x) // self._max_batch_size)
 
         chunk_resuts = []
 
-- 
2.43.0


From 465af6b3fb6c55e232e2b6d67bcd9a2ba0c2e9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:33 +0000
Subject: [PATCH 34/40] fix: the float LSTM returned the recurrent sums as its
 bias additions

---
 .../itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index 156767e..7f77816 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -688,7 +688,7 @@ class LSTM:
         return LSTMResult(
             hidden_state=np.array(h[1:]),  # Remove the initial scale
             cell_state=np.array(previous_c),
-            bias_add=np.array(previous_recurrent_add),
+            bias_add=np.array(previous_bias_add),
             recurrent_add=np.array(previous_recurrent_add),
             input_gate=np.array(previous_i),
             forget_gate=np.array(previous_f),
-- 
2.43.0


From feb2629b806bdd3072a32ff5a7ee3bc8e1b35f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:33 +0000
Subject: [PATCH 35/40] fix: the LSTM input gate's activation was quantised
 over the first time steps of all gates

---
 .../itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index 7f77816..7bb1e6d 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -419,7 +419,7 @@ class KerasLSTM(AbstractLayer):
         input_gate_op, _ = quantize_activation_node(
             tf.math.sigmoid,
             ACTIVATION_NAMES.SIGMOID,
-            recurrent_add[: self._n_units],
+            recurrent_add[:, :, : self._n_units],
             self._q_activation,
             input_gate,
         )
-- 
2.43.0


From 34ad2695cbb2b74c0bf4d26479b736eb22f04d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:33 +0000
Subject: [PATCH 36/40] fix: a quantised LSTM named the Keras layer as its
 layer, so rounding and equalisation raised AttributeError

---
 .../itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index 7bb1e6d..6e9d186 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -517,7 +517,7 @@ class KerasLSTM(AbstractLayer):
             input_data=lstm_states.result,
             out_node=hidden_node,
             operators=[lstm_op],
-            layer=self._layer,
+            layer=self,
         )
 
         if is_debug_mode():
-- 
2.43.0


From 8e3a7cae641f11eb679cc9edd35123f231416d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:33 +0000
Subject: [PATCH 37/40] fix: LSTM bias and bias addition scales did not follow
 updates of the scales they are made of

---
 .../keras/layers/keras_lstm.py                | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index 6e9d186..029c493 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -209,6 +209,27 @@ class KerasLSTM(AbstractLayer):
 
         return nodes
 
+    def _follow_scales(
+        self, source: Node, kernel_nodes: list[NodeTensorTensor], nodes: list[Node]
+    ):
+        """Keeps the scale of each node as the product of the source and kernel scales
+
+        Args:
+            source (Node): Input or Hidden State node
+            kernel_nodes (list[NodeTensorTensor]): The 4 quantized (recurrent) kernel nodes
+            nodes (list[Node]): The 4 nodes whose scale is the product
+        """
+
+        def follow(kernel: Node, node: Node):
+            update = lambda _: node.update_quant_parameters(
+                source.scale * kernel.scale, node.zero_point
+            )
+            source.on_quant_param_update.append(update)
+            kernel.on_quant_param_update.append(update)
+
+        for kernel, node in zip(kernel_nodes, nodes):
+            follow(kernel, node)
+
     def _quantize_recurrent_add(self, recurrent_add: NPFP32) -> list[Node]:
         """Quantizes the intermediate tensor "Recurrent Add"
 
@@ -407,6 +428,11 @@ class KerasLSTM(AbstractLayer):
         bias_add_nodes = self._quantize_bias_add(
             bias_add, recurrent_kernel_nodes, hidden_node.scale
         )
+
+        # The derived scales follow the updates of the scales they are made of
+        self._follow_scales(input_node, kernel_nodes, bias_nodes)
+        self._follow_scales(hidden_node, recurrent_kernel_nodes, bias_add_nodes)
+
         recurrent_add_nodes = self._quantize_recurrent_add(recurrent_add)
         cell_node = self._quantize_cell_state(lstm_states.cell_state)
 
-- 
2.43.0


From 99e2b550534a5f61b1601612a5547198eb70cbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:03 +0000
Subject: [PATCH 38/40] fix: a dense layer's sums were exported with the shape
 and values of its input

---
 .../tensor_extractor/keras/layers/keras_dense.py            | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
index 9ef5a17..6d499bb 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
@@ -221,7 +221,7 @@ class KerasDense(AbstractLayer):
         return self.__quantize_bias_from_params(bias_s, bias_zp)
 
     def __quantize_bias_add_from_params(
-        self, float_input: np.ndarray, scale: float, zp: int
+        self, float_output: np.ndarray, scale: float, zp: int
     ) -> NodeTensorTensor:
         return (
             Node(
@@ -230,7 +230,7 @@ class KerasDense(AbstractLayer):
                 f"{self.__layer_name}/BiasAdd",
                 self.__q_bias_add,
             )
-            .with_tensor(float_input)
+            .with_tensor(float_output)
             .exclude_batch_dimension()
             .exclude_tensor()
         )
@@ -260,7 +260,7 @@ class KerasDense(AbstractLayer):
 
         out_s, out_zp = out_dist.quantize(self.__q_bias_add)
         return (
-            self.__quantize_bias_add_from_params(float_input, out_s, out_zp),
+            self.__quantize_bias_add_from_params(float_output, out_s, out_zp),
             float_output,
         )
 
-- 
2.43.0


From f8c9bba4382e86b4dd6bead9d2898e4c2ed9906a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:03 +0000
Subject: [PATCH 39/40] fix: the layer after a fused ReLU was quantised over
 data without the ReLU

---
 .../tensor_extractor/keras/layers/activations.py            | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
index 2c0ddc7..7b94a06 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
@@ -54,12 +54,12 @@ def quantize_activation_node(
     """
     activation_name = activation_name.upper()
 
-    if activation_name in SKIP_FUNCTIONS:
-        return None, input_data
-
     # Override the function if possible
     fn = OVERRIDE_FUNCTIONS.get(activation_name, fn)
 
+    if activation_name in SKIP_FUNCTIONS:
+        return None, np.array(fn(input_data))
+
     # infer the float input_data
     activated_data = fn(input_data)
 
-- 
2.43.0


From b498c485e33bdbce683efd13e84fad93f1b7b882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:03 +0000
Subject: [PATCH 40/40] fix: make the settings of specific layers TFLite
 compatible

Init.tflite went through the attributes that are configurations; those in the
specific_layers dictionary were skipped, so that layers with settings of their
own kept asymmetric kernels in a TFLite-compatible configuration.
---
 quantizer/itcl_quantizer/config/models/keras.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/config/models/keras.py b/quantizer/itcl_quantizer/config/models/keras.py
index e5baa00..560de5c 100644
--- a/quantizer/itcl_quantizer/config/models/keras.py
+++ b/quantizer/itcl_quantizer/config/models/keras.py
@@ -17,8 +17,11 @@ from itcl_quantizer.equalizers.adaround.qubo import QUBOAnnealer
 class Init(metaclass=ABCMeta):
     def tflite(self):
         for attribute in self.__dict__.values():
-            if isinstance(attribute, Init):
-                attribute.tflite()
+            # specific_layers holds its configurations in a dictionary
+            values = attribute.values() if isinstance(attribute, dict) else [attribute]
+            for value in values:
+                if isinstance(value, Init):
+                    value.tflite()
 
 
 class BaseModel(BaseModel_, Init):
-- 
2.43.0

