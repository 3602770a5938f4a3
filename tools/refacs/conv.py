O="model_converters/onnx2json/helpers/"; T="model_converters/tflite2json/itcl_tflite2json/"; K="model_converters/keras2json/keras2json/"
L=[
("C27","collect-then-build",[(O+"graph.py",'''            next_operator_candidate = self.__get_next_ops()
            print(next_operator_candidate.op_type)
            operators.append(buildOperator(next_operator_candidate, self.__model))
''','''            candidate = self.__get_next_ops()
            operator = buildOperator(candidate, self.__model)
            operators += [operator]
''')]),
("C27","helper-match",[(O+"graph.py",'''            if [op.op_type for op in remaining_op[: len(advanced_op)]] == advanced_op:

''','''            head = remaining_op[: len(advanced_op)]
            types = [op.op_type for op in head]
            if len(head) == len(advanced_op) and types == advanced_op:

''')]),
("C27","zip-match",[(O+"graph.py",'''            if [op.op_type for op in remaining_op[: len(advanced_op)]] == advanced_op:
''','''            if len(remaining_op) >= len(advanced_op) and all(op.op_type == t for op, t in zip(remaining_op, advanced_op)):
''')]),
("C27","tfl-helper",[(T+"__init__.py",'''        inputs_operators = [
            BaseOperator.build_from_node(
                interpreter, subgraph.Tensors(i), model, layer_name2idx
            )
            for i in inputs_ids
        ]
''','''        def node_of(i):
            return BaseOperator.build_from_node(interpreter, subgraph.Tensors(i), model, layer_name2idx)

        inputs_operators = [node_of(i) for i in inputs_ids]
''')]),
("C27","tfl-loop",[(T+"__init__.py",'''        network: JsonNetwork = {''','''        graph = []
        for i in range(subgraph.OperatorsLength()):
            graph.append(_build_from_operator(interpreter, subgraph.Operators(i), layer_name2idx, model))

        network: JsonNetwork = {'''),(T+"__init__.py",'''            "graph": [
                _build_from_operator(
                    interpreter, subgraph.Operators(i), layer_name2idx, model
                )
                for i in range(subgraph.OperatorsLength())
            ],
''','''            "graph": graph,
''')]),
("C28","by-name",[(O+"nodeBuilders/buildBaseNode.py",'''    id2idx = {init.name: i for i, init in enumerate(initializers)}

    scale_init = initializers[id2idx[scale_id]]
    zerop_init = initializers[id2idx[zerop_id]]
''','''    by_name = {init.name: init for init in initializers}

    scale_init = by_name[scale_id]
    zerop_init = by_name[zerop_id]
'''),(O+"nodeBuilders/buildBaseNode.py","initializers[id2idx[tensor_id]]","by_name[tensor_id]")]),
("C28","reshape-method",[(O+"nodeBuilders/buildBaseNode.py","np.reshape(input_arr, input_init.dims)","input_arr.reshape(input_init.dims)"),(O+"nodeBuilders/buildBaseNode.py","input_arr = np.transpose(input_arr)","input_arr = input_arr.T")]),
("C28","base-order",[(O+"nodeBuilders/buildBaseNode.py",'''    if idx is not None: # The tensor id is expected to be in the model
        layer_info = model.graph.value_info[idx]
''','''    if tensor_id in id2idx: # The tensor id is expected to be in the model
        layer_info = model.graph.value_info[id2idx[tensor_id]]
''')]),
("C28","tfl-params-helper",[(T+"operators/BaseOperator.py",'''            s, zp = q.ScaleAsNumpy() or 0, q.ZeroPointAsNumpy() or 0

            if isinstance(s, np.ndarray) or isinstance(zp, np.ndarray):
                scale, zero_point = float(s), int(zp)
            else:
                scale, zero_point = None, None
        else:
            scale = None
            zero_point = None
''','''            scale, zero_point = _params(q)
        else:
            scale, zero_point = None, None
'''),(T+"operators/BaseOperator.py",'''class BaseOperator:
''','''def _params(q):
    s = q.ScaleAsNumpy() or 0
    zp = q.ZeroPointAsNumpy() or 0
    if not (isinstance(s, np.ndarray) or isinstance(zp, np.ndarray)):
        return None, None
    return float(s), int(zp)


class BaseOperator:
''')]),
("C28","tfl-build-helper",[(T+"operators/BaseOperator.py",'''            "inputs": [
                self.build_from_node(
                    self.__interpreter, i, self.__model, self.__layer_name2idx
                )
                for i in inputs
            ],
''','''            "inputs": self._nodes(inputs),
'''),(T+"operators/BaseOperator.py",'''    @staticmethod

    def build_from_node(''','''    def _nodes(self, tensors):
        nodes = []
        for t in tensors:
            nodes.append(self.build_from_node(self.__interpreter, t, self.__model, self.__layer_name2idx))
        return nodes

    @staticmethod

    def build_from_node(''')]),
("C28","tfl-lut-locals",[(T+"operators/TanhLUT.py",'''        LUT =  self.__quantization.create_LUT(
            math.tanh,
            self.__input_s,''','''        create = self.__quantization.create_LUT
        LUT = create(
            math.tanh,
            self.__input_s,''')]),
("C29","dict-dispatch",[(K+"_convert.py",'''    if name == "DENSE":
        builder = layers.Dense
    elif name == "LSTM":
        builder = layers.LSTM
    elif name == "CONV2D":
        builder = layers.Conv2d
    elif name == "FLATTEN":
        builder = layers.Flatten
    elif name == "MAXPOOLING2D":
        builder = layers.MaxPool2D
    elif name in''','''    builders = {"DENSE": layers.Dense, "LSTM": layers.LSTM, "CONV2D": layers.Conv2d, "FLATTEN": layers.Flatten, "MAXPOOLING2D": layers.MaxPool2D}
    if name in builders:
        builder = builders[name]
    elif name in''')]),
("C29","dict-get",[(K+"_convert.py",'''    if name == "DENSE":
        builder = layers.Dense
    elif name == "LSTM":
        builder = layers.LSTM
    elif name == "CONV2D":
        builder = layers.Conv2d
    elif name == "FLATTEN":
        builder = layers.Flatten
    elif name == "MAXPOOLING2D":
        builder = layers.MaxPool2D
    elif name in ["INPUT", "OUTPUT", "INPUTLAYER", "DROPOUT"]:
        return []
    else:
        raise ValueError(f"Layer {name} cannot be converted")
''','''    if name in ("INPUT", "OUTPUT", "INPUTLAYER", "DROPOUT"):
        return []
    builder = {"DENSE": layers.Dense, "LSTM": layers.LSTM, "CONV2D": layers.Conv2d, "FLATTEN": layers.Flatten, "MAXPOOLING2D": layers.MaxPool2D}.get(name)
    if builder is None:
        raise ValueError(f"Layer {name} cannot be converted")
''')]),
("C29","comprehension",[(K+"_convert.py",'''    operators: list[Operator] = []
    for l in model.layers:
        operators.extend(_from_layer(l))
''','''    operators: list[Operator] = [op for l in model.layers for op in _from_layer(l)]
''')]),
("C29","append-loop",[(K+"_convert.py",'''        operators.extend(_from_layer(l))
''','''        new = _from_layer(l)
        for op in new:
            operators.append(op)
''')]),
("C29","iadd",[(K+"_convert.py",'''        operators.extend(_from_layer(l))
''','''        operators += _from_layer(l)
''')]),
("C29","dense-node-helper",[(K+"layers/dense.py",'''        kernel: Node = {
            
            "scale": None,
            "zero_point": None,
            "tensor": {
                "dtype": self._kernel.dtype.name,
                "name": f"{self._name}/Kernel",
                "shape": list(self._kernel.T.shape),
                "tensor": self._kernel.T.tolist()
            },
            'LUT': None, 
        }
''','''        k = np.transpose(self._kernel)
        kernel: Node = {"scale": None, "zero_point": None, "LUT": None, "tensor": {
            "dtype": k.dtype.name, "name": f"{self._name}/Kernel", "shape": [int(d) for d in k.shape], "tensor": k.tolist()}}
''')]),
("C29","lstm-loops",[(K+"layers/lstm.py",'''        for i, w in enumerate(W):
            nodes.append(LSTM._weight(w, f"kernel/{_LAYER_TYPES[i]}"))

        for i, w in enumerate(U):
            nodes.append(LSTM._weight(w, f"recurrent_kernel/{_LAYER_TYPES[i]}"))

        for i, w in enumerate(B):
            nodes.append(LSTM._weight(w, f"bias/{_LAYER_TYPES[i]}"))
''','''        for part, name in ((W, "kernel"), (U, "recurrent_kernel"), (B, "bias")):
            for gate, w in zip(_LAYER_TYPES, part):
                nodes.append(cls._weight(w, f"{name}/{gate}"))
''')]),
("C29","conv-act-helper",[(K+"layers/conv2d.py",'''        return [op, activation]''','''        operators = [op]
        operators.append(activation)
        return operators''')]),
]
