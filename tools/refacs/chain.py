B = "quantizer/itcl_quantizer/tensor_extractor/keras/"
KB, N = B + "keras_builder.py", "quantizer/itcl_quantizer/util/network.py"
D, A = B + "layers/keras_dense.py", B + "layers/activations.py"
OP = "quantizer/itcl_quantizer/tensor_extractor/operator.py"
ids = ("C32",)
LOOP = '''        previous = sequential_quantized[-1]
        layer_q = get_layer_quantizer(layer, cfg)

        if layer_q is None:
            continue

        quantized_op = layer_q.quantize(previous)
        sequential_quantized.append(quantized_op)
'''
NET = '''        for res in quant_results:
            for op in res.operators or []:
                if op is not None:
                    self._layers.append(op)
'''
L = [
 (ids, "loop-walrus", [(KB, LOOP, '''        if (layer_q := get_layer_quantizer(layer, cfg)) is not None:
            sequential_quantized.append(layer_q.quantize(sequential_quantized[-1]))
''')]),
 (ids, "loop-previous-variable", [(KB, LOOP, '''        layer_q = get_layer_quantizer(layer, cfg)

        if layer_q is None:
            continue

        previous = layer_q.quantize(previous)
        sequential_quantized.append(previous)
'''), (KB, "    for i, layer in enumerate(layers):\n", "    previous = sequential_quantized[-1]\n    for layer in layers:\n")]),
 (ids, "loop-two-passes", [(KB, "    for i, layer in enumerate(layers):\n" + LOOP, '''    quantizers = [get_layer_quantizer(layer, cfg) for layer in layers]
    for layer_q in quantizers:
        if layer_q is not None:
            sequential_quantized.append(layer_q.quantize(sequential_quantized[-1]))
''')]),
 (ids, "loop-filtered", [(KB, "    for i, layer in enumerate(layers):\n" + LOOP, '''    quantizers = (get_layer_quantizer(layer, cfg) for layer in layers)
    for layer_q in filter(None, quantizers):
        sequential_quantized.append(layer_q.quantize(sequential_quantized[-1]))
''')]),
 (ids, "loop-index", [(KB, "    for i, layer in enumerate(layers):\n", "    for i in range(len(layers)):\n        layer = layers[i]\n")]),
 (ids, "results-not-appended-last", [(KB, '''    # add the Dequantize Layer:
    sequential_quantized.append(Dequantize().quantize(sequential_quantized[-1]))

    return sequential_quantized
''', '''    output = Dequantize().quantize(sequential_quantized[-1])
    return [*sequential_quantized, output]
''')]),
 (ids, "results-plus", [(KB, '''    # add the Dequantize Layer:
    sequential_quantized.append(Dequantize().quantize(sequential_quantized[-1]))

    return sequential_quantized
''', '''    output = Dequantize().quantize(sequential_quantized[-1])
    return sequential_quantized + [output]
''')]),
 (ids, "quantize-layer-helper", [(KB, LOOP, '''        quantized_op = _quantize_layer(layer, sequential_quantized[-1], cfg)
        if quantized_op is not None:
            sequential_quantized.append(quantized_op)
'''), (KB, "def _quantize(\n", '''def _quantize_layer(layer, previous: QuantizationResult, cfg: QuantizerCfg):
    layer_q = get_layer_quantizer(layer, cfg)
    return layer_q.quantize(previous) if layer_q is not None else None


def _quantize(
''')]),
 (ids, "network-comprehension", [(N, "        self._layers: list[Operator[NodeTensorBase, NodeTensorBase]] = []\n\n" + NET, '''        self._layers: list[Operator[NodeTensorBase, NodeTensorBase]] = [
            op for res in quant_results for op in res.operators or [] if op is not None
        ]
''')]),
 (ids, "network-extend", [(N, NET, '''        for res in quant_results:
            if res.operators:
                self._layers.extend(res.operators)
''')]),
 (ids, "network-plus-equals", [(N, NET, '''        for res in quant_results:
            self._layers += [op for op in res.operators or [] if op is not None]
''')]),
 (ids, "network-helper", [(N, NET, '''        for res in quant_results:
            self._add(res)

    def _add(self, res) -> None:
        """Adds the operators of a result"""
        for op in res.operators or []:
            if op is not None:
                self._layers.append(op)
''')]),
 (ids, "network-local-list", [(N, NET, '''        layers = []
        for res in quant_results:
            if res.operators is None:
                continue
            for op in res.operators:
                if op is not None:
                    layers.append(op)
        self._layers = layers
'''), (N, "        self._layers: list[Operator[NodeTensorBase, NodeTensorBase]] = []\n", "")]),
 (ids, "network-graph-method", [(N, '"graph": [l.as_json() for l in self._layers],', '"graph": self._graph(),'), (N, "    def as_sequential_network(self)", '''    def _graph(self):
        graph = []
        for op in self._layers:
            graph.append(op.as_json())
        return graph

    def as_sequential_network(self)''')]),
 (ids, "network-graph-map", [(N, '"graph": [l.as_json() for l in self._layers],', '"graph": list(map(lambda op: op.as_json(), self._layers)),')]),
 (ids, "sequential-inline", [(N, "        net = self.as_json()\n        return SequentialNetwork(net)\n", "        return SequentialNetwork(self.as_json())\n")]),
 (ids, "build-helper", [(KB, '''    with open(output_path, "w", encoding="utf-8") as f:
        json.dump(network.as_json(), f)

    return network
''', '''    _save(network, output_path)

    return network


def _save(network: Network, output_path: str):
    with open(output_path, "w", encoding="utf-8") as f:
        f.write(json.dumps(network.as_json()))
''')]),
 (ids, "build-equalise-helper", [(KB, '''        if param_cfg := cfg.param_equalizer:
''', '''        param_cfg = cfg.param_equalizer
        if param_cfg is not None:
'''), (KB, '''        if adanet_cfg := cfg.ada_round_net:
''', '''        adanet_cfg = cfg.ada_round_net
        if adanet_cfg is not None:
''')]),
 (ids, "build-early", [(KB, "            AdaroundNet(network, loss_fn, adanet_cfg.build).round()\n", "            rounding = AdaroundNet(network, loss_fn, lambda: adanet_cfg.build())\n            rounding.round()\n")]),
 (ids, "dispatch-settings-helper", [(KB, "        dense = cast(KerasDenseCfg, cfg.specific_layers.get(name, cfg.dense))\n", '''        if name in cfg.specific_layers:
            dense = cast(KerasDenseCfg, cfg.specific_layers[name])
        else:
            dense = cfg.dense
''')]),
 (ids, "dispatch-optimizer", [(KB, '''            adaround_optimizer=dense.adaround_optimizer.build()
            if dense.adaround_optimizer
            else None,
''', '''            adaround_optimizer=optimizer,
'''), (KB, "        return KerasDense(\n", '''        optimizer = None
        if dense.adaround_optimizer is not None:
            optimizer = dense.adaround_optimizer.build()
        return KerasDense(
''')]),
 (ids, "dispatch-merge-none", [(KB, '''    if CheckType.is_skippable(layer):
        return None

    if CheckType.is_input(layer):
        return None
''', '''    if CheckType.is_skippable(layer) or CheckType.is_input(layer):
        return None
''')]),
 (ids, "checktype-any", [(B + "utils.py", '''        for skippable in _SKIPPABLE:
            if isinstance(layer, skippable):
                return True
        return False
''', '''        return any(isinstance(layer, skippable) for skippable in _SKIPPABLE)
''')]),
 (ids, "checktype-tuple", [(B + "utils.py", '''        for skippable in _SKIPPABLE:
            if isinstance(layer, skippable):
                return True
        return False
''', '''        return isinstance(layer, tuple(_SKIPPABLE))
''')]),
 (("C32", "C23"), "bias-add-inline", [(D, '''        return (
            self.__quantize_bias_add_from_params(float_output, out_s, out_zp),
            float_output,
        )
''', '''        node = self.__quantize_bias_add_from_params(float_output, out_s, out_zp)
        return node, float_output
''')]),
 (("C32", "C23"), "relu-table", [(D, '''    if activation.upper() == "RELU":
        return FUSED_RELU_TRIM
    elif activation.upper() == "RELU6":
        return FUSED_RELU6_TRIM
    else:
        return None
''', '''    trims = {"RELU": FUSED_RELU_TRIM, "RELU6": FUSED_RELU6_TRIM}
    return trims.get(activation.upper())
''')]),
 (("C32", "C23"), "operators-list", [(D, '''        nullable_operators: list[Operator | None] = [fully_connected, activation_op]
        # remove Nones from operators but keeping the order
        operators: list[Operator] = [op for op in nullable_operators if op is not None]
''', '''        operators: list[Operator] = [fully_connected]
        if activation_op is not None:
            operators.append(activation_op)
''')]),
 (("C32", "C21"), "activation-node-helper", [(A, '''    output_node = (
        Node(out_s, out_zp, f"{activation_name}/OUT", quantization)
        .with_tensor(activated_data)
        .exclude_batch_dimension()
        .exclude_tensor()
    )
''', '''    output_node = Node(out_s, out_zp, activation_name + "/OUT", quantization)
    output_node = output_node.with_tensor(activated_data)
    output_node = output_node.exclude_batch_dimension().exclude_tensor()
''')]),
 (ids, "operator-json", [(OP, "", "")]),
 (ids, "input-node", [(B + "layers/keras_input.py", '''        scale, zp = input_dist.quantize(self.__Q)
''', '''        params = input_dist.quantize(self.__Q)
        scale, zp = params[0], params[1]
''')]),
 (ids, "dequantize-last", [(B + "layers/dequantize.py", '''        op_out = input_result.operators[-1].outputs[-1]
''', '''        *_, last = input_result.operators
        op_out = last.outputs[-1]
''')]),
]
L = [x for x in L if x[1] != "operator-json"]
