L="quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py"
K='''        for i, gate in enumerate(LSTM_GATES):
            tensor = self._K[:, i * self._n_units : (i + 1) * self._n_units]

            scale, zp = self._get_scale_zp(tensor, self._q_kernel)
            nodes.append(
                Node(
                    scale, zp, f"{self._layer_name}/Kernel/{gate}", self._q_kernel
                ).with_tensor(tensor)
            )
'''
L_=[
("C31","split-kernel",[(L,K,'''        for gate, tensor in zip(LSTM_GATES, np.split(self._K, 4, axis=1)):
            scale, zp = self._get_scale_zp(tensor, self._q_kernel)
            node = Node(
                scale, zp, f"{self._layer_name}/Kernel/{gate}", self._q_kernel
            )
            nodes.append(node.with_tensor(tensor))
''')]),
("C31","gate-slice-helper",[(L,"            tensor = self._K[:, i * self._n_units : (i + 1) * self._n_units]\n","            tensor = self._K[:, self._gate(i)]\n"),
 (L,"            tensor = self._U[:, i * self._n_units : (i + 1) * self._n_units]\n","            tensor = self._U[:, self._gate(i)]\n"),
 (L,"            tensor = self._B[i * self._n_units : (i + 1) * self._n_units]\n","            tensor = self._B[self._gate(i)]\n"),
 (L,"            tensor = recurrent_add[:, :, i * self._n_units : (i + 1) * self._n_units]\n","            tensor = recurrent_add[..., self._gate(i)]\n"),
 (L,"    def _quantize_kernel(\n","    def _gate(self, i: int) -> slice:\n        start = i * self._n_units\n        return slice(start, start + self._n_units)\n\n    def _quantize_kernel(\n")]),
("C31","gate-loop",None),
("C31","float-loop-index",[(L,'''        for timestep_data in batched_timesteps:
            # timestep_data.shape -> (batch_size, n_features)
            Y_ = np.dot(timestep_data, W) + B
            Y = np.dot(h[-1], U) + Y_
''','''        for t in range(batched_timesteps.shape[0]):
            # (batch_size, n_features)
            Y_ = np.dot(batched_timesteps[t], W) + B
            Y = Y_ + np.dot(h[-1], U)
''')]),
("C31","float-matmul",[(L,'''            Y_ = np.dot(timestep_data, W) + B
            Y = np.dot(h[-1], U) + Y_
''','''            Y_ = timestep_data @ W + B
            Y = h[-1] @ U + Y_
''')]),
("C31","float-hidden-variable",[(L,'''            Y = np.dot(h[-1], U) + Y_
''','''            h_prev = h[-1]
            Y = np.dot(h_prev, U) + Y_
'''),(L,'''            c = f * c + i * _c
''','''            c = i * _c + f * c
''')]),
("C31","float-gate-helper",[(L,'''            i = tf.math.sigmoid(Y[:, :n_units])
''','''            gates = np.split(Y, 4, axis=1)
            i = tf.math.sigmoid(gates[0])
'''),(L,"            f = tf.math.sigmoid(Y[:, n_units : 2 * n_units])","            f = tf.math.sigmoid(gates[1])"),
 (L,"            _c = np.tanh(Y[:, 2 * n_units : 3 * n_units])","            _c = np.tanh(gates[2])"),(L,"            o = tf.math.sigmoid(Y[:, 3 * n_units :])","            o = tf.math.sigmoid(gates[3])")]),
("C31","float-plain-lists",[(L,'''        previous_c = MinMaxList(self._min_max_mode)
        previous_i = MinMaxList(self._min_max_mode)
''','''        previous_i = MinMaxList(self._min_max_mode)
'''),(L,"            previous_i.append(i)\n\n",""),(L,"            previous_o.append(o)\n","            previous_o.append(o)\n            previous_i.append(i)\n")]),
("C31","float-result-first",[(L,'''        result: np.ndarray = (
            np.swapaxes(h[1:], 0, 1) if self._return_sequences else h[-1]
        )

        return LSTMResult(
            hidden_state=np.array(h[1:]),  # Remove the initial scale
''','''        hidden = np.array(h[1:])  # Remove the initial state
        if self._return_sequences:
            result = np.swapaxes(hidden, 0, 1)
        else:
            result = hidden[-1]

        return LSTMResult(
            hidden_state=hidden,
''')]),
("C31","scale-helper-keywords",[(L,'''        dist = Distribution(tensor)

        sym = 0 if symmetric else None

        scale, zp = dist.quantize(quantize, symmetric=symmetric, force_zp=sym)
        return scale, zp
''','''        dist = Distribution(tensor)
        if not symmetric:
            return dist.quantize(quantize)
        return dist.quantize(quantize, force_zp=0, symmetric=True)
''')]),
("C31","bias-index",[(L,'''        for i, (gate, node) in enumerate(zip(LSTM_GATES, kernel_nodes)):
            tensor = self._B[i * self._n_units : (i + 1) * self._n_units]
            scale = input_scale * node.scale
''','''        for i, gate in enumerate(LSTM_GATES):
            tensor = self._B[i * self._n_units : (i + 1) * self._n_units]
            scale = kernel_nodes[i].scale * input_scale
''')]),
("C31","activation-nodes-comprehension",[(L,'''        activation_nodes = []
        for op in activation_ops:
            # Add the input LUT and the ouput per activation function
            activation_nodes.extend([op.inputs[0], op.outputs[0]])
''','''        activation_nodes = [
            node for op in activation_ops for node in (op.inputs[0], op.outputs[0])
        ]
''')]),
("C31","adaround-loop",[(L,'''        AdaRound(optimizer_factory(), cost_fn, self, results).round(tensors)
''','''        optimizer = optimizer_factory()
        rounding = AdaRound(optimizer, cost_fn, self, results)
        rounding.round(tensors)
''')]),
("C31","states-reordered",[(L,'''        recurrent_add_nodes = self._quantize_recurrent_add(recurrent_add)
        cell_node = self._quantize_cell_state(lstm_states.cell_state)
''','''        cell_node = self._quantize_cell_state(lstm_states.cell_state)
        recurrent_add_nodes = self._quantize_recurrent_add(recurrent_add)
''')]),
("C31","no-cast",[(L,'''        activation_ops = cast(list[Operator], activation_ops_none)
''','''        activation_ops: list[Operator] = [op for op in activation_ops_none if op]
''')]),
]
GATE='''        input_gate = deepcopy(recurrent_add_nodes[0])
        input_gate.name = f"{self._layer_name}/InputGate"
        input_gate_op, _ = quantize_activation_node(
            tf.math.sigmoid,
            ACTIVATION_NAMES.SIGMOID,
            recurrent_add[:, :, : self._n_units],
            self._q_activation,
            input_gate,
        )
'''
NEW='''        def gate_op(index, name, fn, fn_name):
            node = deepcopy(recurrent_add_nodes[index])
            node.name = f"{self._layer_name}/{name}"
            start = index * self._n_units
            op, _ = quantize_activation_node(
                fn,
                fn_name,
                recurrent_add[:, :, start : start + self._n_units],
                self._q_activation,
                node,
            )
            return op

        input_gate_op = gate_op(
            0, "InputGate", tf.math.sigmoid, ACTIVATION_NAMES.SIGMOID
        )
'''
L_=[(a,b,c if c is not None else [(L,GATE,NEW)]) for a,b,c in L_]
L=L_
