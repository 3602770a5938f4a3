P="inference_engine/itcl_inference_engine/"
FC=P+"layers/tflite/fullyconnected.py"; FL=P+"util/floating.py"; MM=P+"layers/onnx/q_linear_mmul.py"; AD=P+"layers/onnx/q_linear_add.py"
SM=P+"layers/onnx/softmax.py"; RE=P+"layers/common/relu.py"; LU=P+"layers/common/lut.py"; LS=P+"layers/itclq/lstm.py"; SN=P+"network/sequential.py"
BL=P+"layers/tflite/build_layer.py"; BO=P+"layers/onnx/build_operator.py"; SG=P+"layers/onnx/q_linear_sigmoid.py"; TA=P+"layers/tflite/tanh.py"; CT=P+"util/check_layer_type.py"
LSTMC=["C16","C17"]
L=[
(["C09"],"acc-dot",[(FC,'''            W = np.expand_dims(weights_matrix.T, 2)
            W = weights_matrix.T
            mmul_res = np.matmul(input_, W)
        else:
            mmul_res = np.matmul(weights_matrix, input_)
''','''            mmul_res = input_ @ weights_matrix.T
        else:
            mmul_res = weights_matrix @ input_
''')]),
(["C09"],"acc-uniform",[(FC,'''        if input_.ndim == 2:
            W = np.expand_dims(weights_matrix.T, 2)
            W = weights_matrix.T
            mmul_res = np.matmul(input_, W)
        else:
            mmul_res = np.matmul(weights_matrix, input_)
        return mmul_res + self.__bias
''','''        return np.matmul(input_, np.transpose(weights_matrix)) + bias_vector
''')]),
(["C09"],"acc-dead-code",[(FC,'''        accumulator = []
        for weight_vector, bias in zip(weights_matrix, bias_vector):
            # Initialized the accumulator with the bias vector
            accumulator_value = bias

            for input_value, weight in zip(input_, weight_vector):
                multiplication_value = int16_multiplication(
                    input_value, weight
                )  # int16 tensor

                # Accumulator (bias) + (Input * Weight)
                accumulator_value = int32_addition(
                    accumulator_value, multiplication_value
                )  # int16 tensor

            accumulator.append(accumulator_value)

        accumulator = np.array(accumulator, dtype="int64")

        return accumulator
''','')]),
(["C09"],"from-model-helper",[(FC,'''        input_s = operator["inputs"][0]["scale"]
        input_zp = operator["inputs"][0]["zero_point"]

        weight_s = operator["inputs"][1]["scale"]
        weight_zp = operator["inputs"][1]["zero_point"]
        weights = np.array(operator["inputs"][1]["tensor"]["tensor"] or [])  # type: ignore

        bias_s = operator["inputs"][2]["scale"]
        bias_zp = operator["inputs"][2]["zero_point"]
        bias = np.array(operator["inputs"][2]["tensor"]["tensor"] or [])  # type: ignore

        out_s = operator["outputs"][0]["scale"]
        out_zp = operator["outputs"][0]["zero_point"]
        out_dtype = operator["outputs"][0]["tensor"]["dtype"]  # type: ignore
''','''        def params(node):
            return node["scale"], node["zero_point"]

        def contents(node):
            return np.array(node["tensor"]["tensor"] or [])

        input_node, weight_node, bias_node = operator["inputs"][:3]
        output_node = operator["outputs"][0]
        (input_s, input_zp), (weight_s, weight_zp) = params(input_node), params(weight_node)
        (bias_s, bias_zp), (out_s, out_zp) = params(bias_node), params(output_node)
        weights, bias = contents(weight_node), contents(bias_node)
        out_dtype = output_node["tensor"]["dtype"]
''')]),
(["C09"],"infer-steps",[(FC,'''        output = np.clip(
            result, self.__q_output.min_value(), self.__q_output.max_value()
        )
        return output
''','''        low, high = self.__q_output.min_value(), self.__q_output.max_value()
        return result.clip(low, high)
''')]),
(["C09","C10"],"shift-divide",[(FC,'''        res = accumulator * quantized_multiplier + rounded

        return res >> self.__shift
''','''        return np.right_shift(rounded + quantized_multiplier * accumulator, self.__shift)
''')]),
(["C09","C10"],"mult-literals",[(FC,'''        q, shift = math.frexp(float_multiplier)
        quantized_multiplier = np.int64(round(q * (1 << 31)))
        assert quantized_multiplier <= (1 << 31)

        if quantized_multiplier == (1 << 31):
            quantized_multiplier /= 2
            shift += 1
''','''        mantissa, shift = math.frexp(float_multiplier)
        one = 2**31
        quantized_multiplier = np.int64(round(mantissa * one))
        assert quantized_multiplier <= one

        if quantized_multiplier == one:
            quantized_multiplier, shift = quantized_multiplier / 2, shift + 1
''')]),
(["C10","C16"],"fia-ldexp",[(FL,'''        quantized_multiplier = round(q * (1 << 31))

        assert quantized_multiplier <= (1 << 31)

        if quantized_multiplier == (1 << 31):
            quantized_multiplier //= 2
            shift += 1
''','''        limit = 2**31
        quantized_multiplier = round(q * limit)

        assert quantized_multiplier <= limit

        if quantized_multiplier == limit:
            quantized_multiplier = limit // 2
            shift = shift + 1
''')]),
(["C10","C16"],"fia-mul-else",[(FL,'''        if not self._integer_only:
            return other * self._fp  # type: ignore

        res = other * self._q + self._round
        return res >> self._shift  # type: ignore
''','''        if self._integer_only:
            return (self._round + self._q * other) >> self._shift  # type: ignore
        return self._fp * other  # type: ignore
''')]),
(["C11"],"mmul-order",[(MM,'''        int32mmul = np.round(self.__M * np.matmul(i, w)) + self.__o_zp

        return np.clip(int32mmul, 0, 255).astype(np.uint8)
''','''        product = i @ w
        scaled = np.rint(product * self.__M)
        return (scaled + self.__o_zp).clip(0, 255).astype(np.uint8)
''')]),
(["C11"],"mmul-T-in-infer",[(MM,'''        self.__w = np.transpose(np.array(weights_tensor))
''','''        self.__w = np.array(weights_tensor)
'''),(MM,'''        w = self.__w.astype(np.int32) - self.__w_zp  # As int32
''','''        w = self.__w.T.astype(np.int32) - self.__w_zp  # As int32
''')]),
(["C11"],"mmul-M-late",[(MM,'''        self.__M = input_scale * w_scale / out_scale
''','''        self.__scales = (input_scale, w_scale, out_scale)
'''),(MM,'''        int32mmul = np.round(self.__M * np.matmul(i, w)) + self.__o_zp
''','''        i_s, w_s, o_s = self.__scales
        int32mmul = np.round(i_s * w_s / o_s * np.matmul(i, w)) + self.__o_zp
''')]),
(["C11"],"mmul-zp-in-ctor",[(MM,'''        self.__w = np.transpose(np.array(weights_tensor))
''','''        self.__w = np.transpose(np.array(weights_tensor)).astype(np.int32) - w_zerop
'''),(MM,'''        w = self.__w.astype(np.int32) - self.__w_zp  # As int32
''','''        w = self.__w
''')]),
(["C12"],"add-real-helper",[(AD,'''        i = input_.astype(np.int32) - self.__i_zp  # i32
        b = self.__b.astype(np.int32) - self.__b_zp  # i32

        C = np.round((i_scale * i + b_scale * b) / o_scale) + o_zp
''','''        def real(codes, scale, zero_point):
            return scale * (codes.astype(np.int32) - zero_point)

        total = real(input_, i_scale, self.__i_zp) + real(self.__b, b_scale, self.__b_zp)
        C = np.round(total / o_scale) + o_zp
''')]),
(["C12"],"add-int64",[(AD,'''input_.astype(np.int32)''','''input_.astype(np.int64)'''),(AD,'''self.__b.astype(np.int32)''','''self.__b.astype(np.int64)''')]),
(["C11","C12"],"from-model-unpack",[(AD,'''        input_s = i[0]["scale"]
        input_zp = i[0]["zero_point"]

        b_tensor_def = i[1]["tensor"]
''','''        first, second, third = i[0], i[1], i[2]
        input_s, input_zp = first["scale"], first["zero_point"]

        b_tensor_def = second["tensor"]
'''),(MM,'''        o_s = i[2]["scale"]
        o_zp = i[2]["zero_point"]

        return cls(input_s, input_zp, b_tensor, b_s, b_zp, o_s, o_zp)
''','''        output = i[2]

        return cls(input_s, input_zp, b_tensor, b_s, b_zp, output["scale"], output["zero_point"])
''')]),
(["C13"],"sig-exp-form",[(SG,'''    return 1 / (1 + np.exp(-arr))  # type: ignore
''','''    e = np.exp(np.negative(arr))
    return np.divide(1, e + 1)  # type: ignore
''')]),
(["C13"],"sig-locals",[(SG,'''        i_scale = self.__i_s
        i_zp = self.__i_zp

        real_value = DequantizeLinear(i_scale, i_zp).infer(input_)

        sig = _sigmoid(real_value)
        o_scale = self.__o_s
        o_zp = self.__o_zp
        return QuantizeLinear(o_scale, o_zp).infer(sig)
''','''        dequantize = DequantizeLinear(self.__i_s, self.__i_zp)
        quantize = QuantizeLinear(scale=self.__o_s, zerop=self.__o_zp)
        return quantize.infer(_sigmoid(dequantize.infer(input_)))
''')]),
(["C13"],"tanh-direct",[(TA,'''        res = quant.from_int8(input_, self.__input_zp, self.__input_scale)

        return quant.to_int8(np.array(np.tanh(res)), 0, 1 / 128)
''','''        q = quant.int8_quantization
        real = q.dequantize(input_, self.__input_zp, self.__input_scale)
        return q.quantize(np.tanh(real), zero_point=0, scale=1 / 128)
''')]),
(["C14"],"sm-method",[(SM,'''        exp = np.exp(input_ - np.max(input_, axis=-1, keepdims=True))
        return exp / np.sum(exp, axis=-1, keepdims=True)
''','''        shifted = input_ - input_.max(axis=-1, keepdims=True)
        exp = np.exp(shifted)
        total = exp.sum(axis=-1, keepdims=True)
        return exp / total
''')]),
(["C14"],"sm-expand",[(SM,'''        exp = np.exp(input_ - np.max(input_, axis=-1, keepdims=True))
        return exp / np.sum(exp, axis=-1, keepdims=True)
''','''        top = np.expand_dims(np.max(input_, axis=-1), -1)
        exp = np.exp(input_ - top)
        return exp / np.sum(exp, axis=-1)[..., np.newaxis]
''')]),
(["C15"],"relu-max",[(RE,'''        y = (input_.astype(np.int32)).clip(min=self.input_zp)

        relu = np.round(self.output_zp + self.k * (y - self.input_zp))

        return relu.clip(-128, 127).astype(np.int8)
''','''        offset = np.maximum(input_.astype(np.int32) - self.input_zp, 0)
        relu = np.round(self.k * offset + self.output_zp)
        return np.clip(relu, -128, 127).astype("int8")
''')]),
(["C15"],"relu-where",[(RE,'''        y = (input_.astype(np.int32)).clip(min=self.input_zp)
''','''        x = input_.astype(np.int32)
        y = np.where(x < self.input_zp, self.input_zp, x)
''')]),
(["C15"],"relu-ratio",[(RE,'''        self.k = input_scale / output_scale
''',''''''),(RE,'''        relu = np.round(self.output_zp + self.k * (y - self.input_zp))
''','''        k = self.input_scale / self.output_scale
        relu = np.round(self.output_zp + k * (y - self.input_zp))
''')]),
(["C06"],"lut-layer-method",[(LU,'''        lut = lambda x: self.__LUT[x]

        self.__apply_lut_vectorize = np.vectorize(lut)
''','''        self.__apply_lut_vectorize = np.vectorize(self.__lookup)

    def __lookup(self, index):
        return self.__LUT[index]
''')]),
(["C06"],"lut-from-node",[(LU,'''        # Use the Reduced LUT if it is available
        rl = lut.get("reduced_LUT")
        if rl is not None:
            LUT = ReducedLUT.deserialize(rl)
        else:
            LUT = lut["LUT"] or []

        offset = lut.get("offset") or 0

        return cls(LUT, offset)
''','''        offset = lut.get("offset") or 0
        reduced = lut.get("reduced_LUT")
        if reduced is None:
            return cls(lut["LUT"] or [], offset)
        return cls(ReducedLUT.deserialize(reduced), offset=offset)
''')]),
(LSTMC,"no-enumerate",[(LS,'''            for i, (kernel, bias, M1) in enumerate(
                zip(self._kernel, self._bias, self._M1)
            ):
                bias_add_large = (input_timestep @ kernel) + bias
                bias_add.append((M1 * bias_add_large).astype(np.int64))
''','''            for kernel, bias, M1 in zip(self._kernel, self._bias, self._M1):
                bias_add_large = np.matmul(input_timestep, kernel) + bias
                bias_add.append((M1 * bias_add_large).astype(np.int64))
''')]),
(LSTMC,"listcomp-bias",[(LS,'''            bias_add: list[np.ndarray] = []  # 4 intermediate arrays

            for i, (kernel, bias, M1) in enumerate(
                zip(self._kernel, self._bias, self._M1)
            ):
                bias_add_large = (input_timestep @ kernel) + bias
                bias_add.append((M1 * bias_add_large).astype(np.int64))
''','''            bias_add = [
                (M1 * (input_timestep @ kernel + bias)).astype(np.int64)
                for kernel, bias, M1 in zip(self._kernel, self._bias, self._M1)
            ]
''')]),
(LSTMC,"recurrent-helper",[(LS,'''                recurrent_add_large = (
                    (hidden_state[-1] - self._hidden_state_zp) @ recurrent_kernel
                ) + bias
                recurrent_add.append(
                    (recurrent_add_large * M2 + self._recurrent_add_zp[i])
                    .clip(
                        self._q_recurrent_add.min_value(),
                        self._q_recurrent_add.max_value(),
                    )
                    .astype(np.int64)
                )
''','''                recurrent_add.append(
                    self._recurrent(hidden_state[-1], recurrent_kernel, bias, M2, self._recurrent_add_zp[i])
                )
'''),(LS,'''    def infer(self, input_: np.ndarray) -> np.ndarray:
''','''    def _recurrent(self, state, recurrent_kernel, bias, M2, zero_point):
        q = self._q_recurrent_add
        large = (state - self._hidden_state_zp) @ recurrent_kernel + bias
        return np.clip(large * M2 + zero_point, q.min_value(), q.max_value()).astype(np.int64)

    def infer(self, input_: np.ndarray) -> np.ndarray:
''')]),
(LSTMC,"last-hidden",[(LS,'''        # Iterate each timestep
        for input_timestep in input_norm:
''','''        # Iterate each timestep
        for step in range(len(input_norm)):
            input_timestep = input_norm[step]
''')]),
(LSTMC,"cell-terms",[(LS,'''            cell_state = (
                (
                    self._cell_state_zp
                    + (
                        self._M3
                        * (
                            (activated_forget_gate - self._forget_gate_zp)
                            * (cell_state - self._cell_state_zp)
                        )
                    )
                    + self._M4
                    * (
                        (activated_input_gate - self._input_gate_zp)
                        * (activated_cell_gate - self._cell_gate_zp)
                    )
                )
                .astype(np.int64)
                .clip(self._q_cell_state.min_value(), self._q_cell_state.max_value())
            )
''','''            kept = self._M3 * (
                (activated_forget_gate - self._forget_gate_zp)
                * (cell_state - self._cell_state_zp)
            )
            added = self._M4 * (
                (activated_input_gate - self._input_gate_zp)
                * (activated_cell_gate - self._cell_gate_zp)
            )
            total = (self._cell_state_zp + kept + added).astype(np.int64)
            cell_state = total.clip(
                self._q_cell_state.min_value(), self._q_cell_state.max_value()
            )
''')]),
(LSTMC,"gates-zip",[(LS,'''            # Activate the kernel_add tensors
            activated_input_gate = self._input_gate_lut.infer(recurrent_add[0])
            inter.input_gate_act.append(activated_input_gate)
            activated_forget_gate = self._forget_gate_lut.infer(recurrent_add[1])
            inter.forget_gate_act.append(activated_forget_gate)
            activated_cell_gate = self._cell_gate_lut.infer(recurrent_add[2])
            inter.cell_gate_act.append(activated_cell_gate)
            activated_output_gate = self._output_gate_lut.infer(recurrent_add[3])
            inter.output_gate_act.append(activated_output_gate)
''','''            # Activate the kernel_add tensors
            luts = (self._input_gate_lut, self._forget_gate_lut, self._cell_gate_lut, self._output_gate_lut)
            gates = [lut.infer(r) for lut, r in zip(luts, recurrent_add)]
            activated_input_gate, activated_forget_gate, activated_cell_gate, activated_output_gate = gates
            inter.input_gate_act.append(activated_input_gate)
            inter.forget_gate_act.append(activated_forget_gate)
            inter.cell_gate_act.append(activated_cell_gate)
            inter.output_gate_act.append(activated_output_gate)
''')]),
(LSTMC,"stack-result",[(LS,'''        hs = np.array(hidden_state[1:])  # Remove the initial step (all zeros)
''','''        hs = np.stack(hidden_state[1:])  # Remove the initial step (all zeros)
'''),(LS,'''        return hs[-1]  # BATCH, DATA
''','''        return hs[len(hs) - 1]  # BATCH, DATA
''')]),
(LSTMC,"moveaxis",[(LS,'''(input_.astype(np.int64) - self._input_zp).swapaxes(0, 1)''','''np.swapaxes(input_.astype(np.int64), 0, 1) - self._input_zp''')]),
(LSTMC,"outputs-list",[(LS,'''        hidden_state = [
            np.full((1, self._n_cells), self._hidden_state_zp, dtype=np.int64)
        ]
''','''        initial = np.full((1, self._n_cells), self._hidden_state_zp, dtype=np.int64)
        previous = initial
        outputs = []
'''),(LS,'''(hidden_state[-1] - self._hidden_state_zp)''','''(previous - self._hidden_state_zp)'''),(LS,'''            hidden_state.append(new_hidden_state)

        hs = np.array(hidden_state[1:])''','''            outputs.append(new_hidden_state)
            previous = new_hidden_state

        hs = np.array(outputs)''')]),
(LSTMC,"m1-listcomp",[(LS,'''        M1: list[float] = []
        for kernel_node, recurrent_kernel_node in zip(
            kernel_nodes, recurrent_kernel_nodes
        ):
            M1.append(kernel_node["scale"] * input_["scale"] / (hidden_state["scale"] * recurrent_kernel_node["scale"]))  # type: ignore
''','''        M1 = [
            kernel_node["scale"] * input_["scale"] / (hidden_state["scale"] * recurrent_kernel_node["scale"])
            for kernel_node, recurrent_kernel_node in zip(kernel_nodes, recurrent_kernel_nodes)
        ]
''')]),
(["C18"],"infer-noenum",[(SN,'''        for i, layer in enumerate(self.layers):

            input_ = res = layer.infer(input_)
            self._intermediate_results.append(input_)
            if verbose:
                logger.info(f"Layer {i}: {res}")
''','''        for layer in self.layers:
            input_ = layer.infer(input_)
            self._intermediate_results.append(input_)
            if verbose:
                logger.info(f"Layer {len(self._intermediate_results) - 1}: {input_}")
''')]),
(["C18"],"infer-local-list",[(SN,'''        for i, layer in enumerate(self.layers):

            input_ = res = layer.infer(input_)
            self._intermediate_results.append(input_)
            if verbose:
                logger.info(f"Layer {i}: {res}")
''','''        results = self._intermediate_results
        x = input_
        for i in range(len(self.layers)):
            x = self.layers[i].infer(x)
            results.append(x)
            if verbose:
                logger.info(f"Layer {i}: {x}")
        input_ = x
''')]),
(["C18"],"build-listcomp",[(SN,'''        layers: List[ILayer] = []
        build_layer = self.get_engine()

        # Get and build all the nodes
        for layer in schema["graph"]:
            logger.info(layer["name"])
            layers.append(build_layer(layer))

        return layers
''','''        build_layer = self.get_engine()
        return [build_layer(layer) for layer in schema["graph"]]
''')]),
(["C18"],"build-map",[(SN,'''        for layer in schema["graph"]:
            logger.info(layer["name"])
            layers.append(build_layer(layer))

        return layers
''','''        for operator in schema["graph"]:
            logger.info(operator["name"])
            built = build_layer(operator)
            layers += [built]

        return list(layers)
''')]),
(["C18"],"engine-dict",[(SN,'''        if "TFLITE" == engine_name:
            return self.build_layer_tflite
        elif "ONNX" == engine_name:
            return self.build_layer_onnx
        else:
            raise ValueError(f"Engine {engine_name} not supported")
''','''        engines = {"TFLITE": self.build_layer_tflite, "ONNX": self.build_layer_onnx}
        if engine_name not in engines:
            raise ValueError(f"Engine {engine_name} not supported")
        return engines[engine_name]
''')]),
(["C19"],"dict-onnx",[(BO,'''    opt = operator["op_type"]

    if opt == "QLinearAdd":
        return QLinearAdd.from_model(
            operator,
        )

    elif opt == "QLinearMatMul":
        return QLinearMatMul.from_model(operator)
    elif opt == "QuantizeLinear":
        return QuantizeLinear.from_model(operator)
    elif opt == "QLinearSigmoid":
        return QLinearSigmoid.from_model(operator)
    elif opt == "SigmoidLUT":
        return SigmoidLUT.from_model(operator)
    elif opt == "DequantizeLinear":
        return DequantizeLinear.from_model(operator)
    elif opt == "Softmax":
        return Softmax()
    elif opt == "Tanh":
        return Tanh()
    elif opt == "TanhLUT":
        return TanhLUT.from_model(operator)
    else:
        raise ValueError(f"{opt} is not a valid operator")
''','''    opt = operator["op_type"]
    described = {
        "QLinearAdd": QLinearAdd,
        "QLinearMatMul": QLinearMatMul,
        "QuantizeLinear": QuantizeLinear,
        "QLinearSigmoid": QLinearSigmoid,
        "SigmoidLUT": SigmoidLUT,
        "DequantizeLinear": DequantizeLinear,
        "TanhLUT": TanhLUT,
    }
    plain = {"Softmax": Softmax, "Tanh": Tanh}

    if opt in described:
        return described[opt].from_model(operator)
    if opt in plain:
        return plain[opt]()
    raise ValueError(f"{opt} is not a valid operator")
''')]),
(["C19"],"match-onnx",[(BO,'''    if opt == "QLinearAdd":
        return QLinearAdd.from_model(
            operator,
        )

    elif opt == "QLinearMatMul":
        return QLinearMatMul.from_model(operator)
    elif opt == "QuantizeLinear":
        return QuantizeLinear.from_model(operator)
    elif opt == "QLinearSigmoid":
        return QLinearSigmoid.from_model(operator)
    elif opt == "SigmoidLUT":
        return SigmoidLUT.from_model(operator)
    elif opt == "DequantizeLinear":
        return DequantizeLinear.from_model(operator)
    elif opt == "Softmax":
        return Softmax()
    elif opt == "Tanh":
        return Tanh()
    elif opt == "TanhLUT":
        return TanhLUT.from_model(operator)
    else:
        raise ValueError(f"{opt} is not a valid operator")
''','''    for name, layer in (("QLinearAdd", QLinearAdd), ("QLinearMatMul", QLinearMatMul), ("QuantizeLinear", QuantizeLinear),
                        ("QLinearSigmoid", QLinearSigmoid), ("SigmoidLUT", SigmoidLUT), ("DequantizeLinear", DequantizeLinear),
                        ("Softmax", Softmax), ("TanhLUT", TanhLUT)):
        if name == opt:
            return layer.from_model(operator)
    if opt == "Tanh":
        return Tanh()
    raise ValueError(f"{opt} is not a valid operator")
''')]),
(["C19"],"table-tflite",[(BL,'''    layer_builder = None
    if LayerType.is_tanh(layer_type):
        layer_builder = Tanh
    elif LayerType.is_tanhLUT(layer_type):

        layer_builder = TanhLUT
    elif LayerType.is_fully_connected(layer_type):
        layer_builder = FullyConnected
    elif LayerType.is_logistic(layer_type):
        layer_builder = Sigmoid
    elif LayerType.is_sigmoidLUT(layer_type):
        layer_builder = SigmoidLUT
    elif LayerType.is_softmax(layer_type):
        layer_builder = SoftMax
    elif LayerType.is_quantize(layer_type):
        layer_builder = Quantize
    elif LayerType.is_dequantize(layer_type):
        layer_builder = Dequantize
    elif LayerType.is_relu(layer_type):
        layer_builder = RELU
    elif LayerType.is_LSTM(layer_type):
        layer_builder = LSTM
    if layer_builder is None:
        raise ValueError("Invalid Layer " + layer_type)

    return layer_builder.from_model(layer)
''','''    table = [
        (LayerType.is_tanh, Tanh),
        (LayerType.is_tanhLUT, TanhLUT),
        (LayerType.is_fully_connected, FullyConnected),
        (LayerType.is_logistic, Sigmoid),
        (LayerType.is_sigmoidLUT, SigmoidLUT),
        (LayerType.is_softmax, SoftMax),
        (LayerType.is_quantize, Quantize),
        (LayerType.is_dequantize, Dequantize),
        (LayerType.is_relu, RELU),
        (LayerType.is_LSTM, LSTM),
    ]
    for matches, builder in table:
        if matches(layer_type):
            return builder.from_model(layer)
    raise ValueError("Invalid Layer " + layer_type)
''')]),
(["C19"],"early-return",[(BL,'''    if layer_builder is None:
        raise ValueError("Invalid Layer " + layer_type)

    return layer_builder.from_model(layer)
''','''    if layer_builder is not None:
        return layer_builder.from_model(layer)

    raise ValueError(f"Invalid Layer {layer_type}")
''')]),
(["C19"],"find-count",[(CT,'''        return "SOFTMAX" in layerCode.upper()
''','''        code = layerCode.upper()
        return "SOFTMAX" in code
''')]),
]
