Q="quantizer/itcl_quantizer/"; TS=Q+"tensor_extractor/tensor.py"; D=Q+"quantizer/distributions/distribution.py"
A=Q+"equalizers/adaround/"; P=Q+"equalizers/param_equalizer/"; KD=Q+"tensor_extractor/keras/layers/keras_dense.py"; AC=Q+"tensor_extractor/keras/layers/activations.py"
L=[
("C20","quantise-helper",[(TS,'''        self._rounding_policy = rounding
        self._quantized = self.quant.quantize(
            self._fp_tensor, self.zero_point, self.scale, rounding_policy=rounding
        )
''','''        self._rounding_policy = rounding
        self._refresh_codes()

    def _refresh_codes(self):
        self._quantized = self.quant.quantize(
            self._fp_tensor,
            self.zero_point,
            self.scale,
            rounding_policy=self._rounding_policy,
        )
'''),(TS,'''        """Requantization Function"""
        self._quantized = self.quant.quantize(
            self._fp_tensor,
            self.zero_point,
            self.scale,
            rounding_policy=self._rounding_policy,
        )
        super()._requantize()''','''        """Requantization Function"""
        self._refresh_codes()
        super()._requantize()''')]),
("C20","json-ifs",[(TS,'''        return (
            {
                "name": self.name,
                "dtype": self.quant.dtype_str(),
                "shape": list(self._fp_tensor.shape)[
                    1 if self._exclude_batch_dimension else None :
                ],  # Remove the batch dimension if necessary
                "tensor": None if self._exclude_tensor else self.quantized.tolist(),
            }
            if self._fp_tensor is not None
            else None
        )
''','''        if self._fp_tensor is None:
            return None
        shape = list(self._fp_tensor.shape)
        if self._exclude_batch_dimension:
            shape = shape[1:]
        codes = None
        if not self._exclude_tensor:
            codes = self.quantized.tolist()
        return {
            "name": self.name,
            "dtype": self.quant.dtype_str(),
            "shape": shape,
            "tensor": codes,
        }
''')]),
("C20","json-base",[(TS,'''        LUT = self.LUT.as_json() if self.LUT else None

        return {
            "scale": self.scale if not self._exclude_params else None,
            "zero_point": self.zero_point if not self._exclude_params else None,
            "tensor": None,
            "LUT": LUT,
        }
''','''        node: NodeJson = {"scale": None, "zero_point": None, "tensor": None, "LUT": None}
        if not self._exclude_params:
            node["scale"] = self.scale
            node["zero_point"] = self.zero_point
        lut = self.LUT
        if lut:
            node["LUT"] = lut.as_json()
        return node
''')]),
("C20","update-order",[(TS,'''        self._scale = scale
        self._zero_p = zero_point
        if requantize:
            self._requantize()
        self._run_hook(self.on_quant_param_update)
''','''        self._zero_p, self._scale = zero_point, scale
        if requantize:
            self._requantize()
        for hook in self.on_quant_param_update:
            hook(self)
''')]),
("C20","ctor",[(TS,'''        self.__dict__ = node.__dict__.copy()
        self._fp_tensor = fp_tensor
        self._rounding_policy = self._og_rounding_policy = get_base_rounding(
            fp_tensor, self.scale
        )
        self._quantized = self.quant.quantize(fp_tensor, self.zero_point, self.scale)
''','''        self.__dict__ = dict(node.__dict__)
        nearest = get_base_rounding(fp_tensor, self.scale)
        self._fp_tensor = fp_tensor
        self._og_rounding_policy = nearest
        self._rounding_policy = nearest
        self._quantized = self.quant.quantize(
            fp_tensor, zero_point=self.zero_point, scale=self.scale
        )
''')]),
("C20","base-rounding",[(A+"irounding_policy.py",'''    tensor = tensor / scale
    return np.where(np.floor(tensor + 0.5) > tensor, 1, 0)''','''    scaled = tensor / scale
    nearest = np.floor(scaled + 0.5)
    rounds_up = nearest > scaled
    return np.where(rounds_up, 1, 0)''')]),
("C21","create-locals",[(TS,'''        self._LUT = self._output_quant.quantize(
            self._quant.float_activation(self._fn, self._input_s, self._input_zp),
            self._output_zp,
            self._output_s,
            rounding_policy=self._rounding_policy,
        ).tolist()
        self._offset = -self._quant.min_value()
        self._quant = self._quant
''','''        activated = self._quant.float_activation(self._fn, self._input_s, self._input_zp)
        codes = self._output_quant.quantize(
            activated,
            self._output_zp,
            self._output_s,
            rounding_policy=self._rounding_policy,
        )
        self._offset = -1 * self._quant.min_value()
        self._LUT = codes.tolist()
''')]),
("C21","activated-method",[(TS,'''    def _refresh(self):
        """Rounds to nearest under the current parameters and creates the LUT"""
        self._rounding_policy = get_base_rounding(
            self._quant.float_activation(self._fn, self._input_s, self._input_zp),
            self._output_s,
        )
        self._create()
''','''    def _activated(self):
        return self._quant.float_activation(self._fn, self._input_s, self._input_zp)

    def _refresh(self):
        """Rounds to nearest under the current parameters and creates the LUT"""
        self._rounding_policy = get_base_rounding(self._activated(), self._output_s)
        self._create()
'''),(TS,'''        self._LUT = self._output_quant.quantize(
            self._quant.float_activation(self._fn, self._input_s, self._input_zp),
''','''        self._LUT = self._output_quant.quantize(
            self._activated(),
''')]),
("C21","ctor-none",[(TS,'''        self._output_quant = output_quant or quant
''','''        self._output_quant = quant if output_quant is None else output_quant
''')]),
("C21","with-lut-kw",[(TS,'''        self._LUT = NodeLUT(
            self.quant,
            fn,
            self.scale,
            self.zero_point,
            out_scale,
            out_zp,
            reduced_depth,
            out_quant,
        )
        return self
''','''        lut = NodeLUT(
            quant=self.quant,
            fn=fn,
            input_s=self.scale,
            input_zp=self.zero_point,
            output_s=out_scale,
            output_zp=out_zp,
            reduced_depth=reduced_depth,
            output_quant=out_quant,
        )
        self._LUT = lut
        return self
''')]),
("C21","act-def",[(AC,'''    if lut is not None:
        output_node.on_quant_param_update.append(
            lambda node: lut._update_out_qparams(node.scale, node.zero_point)
        )
''','''    if lut is not None:

        def refresh(node):
            lut._update_out_qparams(node.scale, node.zero_point)

        output_node.on_quant_param_update += [refresh]
''')]),
("C21","act-lut-first",[(AC,'''    lut = None
    if activation_name in LUT_FUNCTIONS and not skip_lut:
        activation_name += "LUT"
        lut = input_node.with_lut(fn, out_s, out_zp, out_quant=quantization).LUT
''','''    use_lut = not skip_lut and activation_name in LUT_FUNCTIONS
    if use_lut:
        activation_name = f"{activation_name}LUT"
        lut = input_node.with_lut(fn, out_s, out_zp, out_quant=quantization).LUT
    else:
        lut = None
''')]),
("C21","act-params",[(AC,'''    else:  # Calculate the out params on quantization time
        out_s, out_zp = ACTIVATION_PARAMS.get(
            activation_name, activation_dist.quantize(quantization)
        )
''','''    elif activation_name in ACTIVATION_PARAMS:
        out_s, out_zp = ACTIVATION_PARAMS[activation_name]
    else:  # Calculate the out params on quantization time
        out_s, out_zp = activation_dist.quantize(quantization)
''')]),
("C22","zp-algebra-kept",[(D,'''        scale = (max_ - min_) / (q_max - q_min)
        if min_ == max_:
            # Only zeros: any scale represents them exactly
            zero_point = 0
        else:
            zero_point = round((min_ * q_max - max_ * q_min) / (min_ - max_))
''','''        span = max_ - min_
        scale = span / (q_max - q_min)
        zero_point = 0
        if min_ != max_:
            zero_point = round((min_ * q_max - max_ * q_min) / (min_ - max_))
''')]),
("C22","force-helper",[(D,'''            zero_point = force_zp
            scale = max(abs(min_), abs(max_))

            if symmetric:
                scale /= q_max
            else:
                scale /= max(abs(q_min), q_max)
''','''            zero_point = force_zp
            largest = max(abs(min_), abs(max_))
            limit = q_max if symmetric else max(abs(q_min), q_max)
            scale = largest / limit
''')]),
("C22","drop-redundant",[(D,'''        if force_zp is not None and force_s is not None:
            scale = force_s
            zero_point = force_zp

''','')]),
("C22","minmax-ifs",[(D,'''        min_ = min(self.get_min(), 0)
        max_ = max(self.get_max(), 0)
''','''        min_ = self.get_min()
        if min_ > 0:
            min_ = 0
        max_ = self.get_max()
        if max_ < 0:
            max_ = 0
''')]),
("C22","get-bin",[(D,'''        bin: int = self._histogram[idx]
        if bin < 2:
            return Bin(lower, upper, bin, np.array([]))

        # Get a view of the sorted distribution array
        bin_content_view = self.__slice_distribution(lower, None)[:bin]
''','''        items = self._histogram[idx]
        if items <= 1:
            return Bin(lower, upper, items, np.array([]))

        # Get a view of the sorted distribution array
        bin = items
        bin_content_view = self.__slice_distribution(lower, None)[:items]
''')]),
("C22","slice-dist",[(D,'''        if lower is not None:
            min_idx = a.searchsorted(lower, side="left")
        else:
            min_idx = 0

        if upper is not None:
            max_idx = a.searchsorted(upper, side="right")
        else:
            max_idx = len(a)
        return a[min_idx:max_idx]
''','''        first = 0 if lower is None else a.searchsorted(lower, side="left")
        last = len(a) if upper is None else a.searchsorted(upper, side="right")
        return a[first:last]
''')]),
("C22","clone-loop",[(D,'''        for i, edge in enumerate(self._bin_edges):
            if key.start is not None and edge <= key.start:
                min_bin_idx = i

            if key.stop is not None and edge <= key.stop:
                max_bin_idx = i
''','''        for i in range(len(self._bin_edges)):
            edge = self._bin_edges[i]
            if key.start is not None and edge <= key.start:
                min_bin_idx = i
            if key.stop is not None and edge <= key.stop:
                max_bin_idx = i
''')]),
("C22","getitem",[(D,'''            if key.start is None:
                key = slice(self.get_min(), key.stop, key.step)

            if key.stop is None:

                key = slice(key.start, self.get_max(), None)

            # If the slice is smaller than a bin, create a new histogram
            if abs(key.start - key.stop) < self.get_bin_size():
                return Distribution(
                    self.__slice_distribution(key.start, key.stop), bins=1
                )

            return self.__clone(key)
''','''            start = self.get_min() if key.start is None else key.start
            stop = self.get_max() if key.stop is None else key.stop

            # If the slice is smaller than a bin, create a new histogram
            if abs(start - stop) < self.get_bin_size():
                return Distribution(self.__slice_distribution(start, stop), bins=1)

            return self.__clone(slice(start, stop, None))
''')]),
("C23","hook-def",[(KD,'''        update_bias_scale_fn = lambda _: bias_node.update_quant_parameters(
            kernel_node.scale * input_node.scale, bias_node.zero_point
        )
''','''        def update_bias_scale_fn(_):
            scale = input_node.scale * kernel_node.scale
            bias_node.update_quant_parameters(scale, bias_node.zero_point)
''')]),
("C23","hook-loop",[(KD,'''        kernel_node.on_quant_param_update.append(update_bias_scale_fn)
        input_node.on_quant_param_update.append(update_bias_scale_fn)
''','''        for source in (kernel_node, input_node):
            source.on_quant_param_update.append(update_bias_scale_fn)
''')]),
("C23","bias-inline",[(KD,'''        bias_s = input_scale * kernel_scale
        bias_zp = 0  # Constraint

        return self.__quantize_bias_from_params(bias_s, bias_zp)
''','''        return self.__quantize_bias_from_params(
            scale=kernel_scale * input_scale, zero_p=0
        )
''')]),
("C23","operators-list",[(KD,'''        nullable_operators: list[Operator | None] = [fully_connected, activation_op]
        # remove Nones from operators but keeping the order
        operators: list[Operator] = [op for op in nullable_operators if op is not None]
''','''        operators: list[Operator] = [fully_connected]
        if activation_op is not None:
            operators.append(activation_op)
''')]),
("C23","bias-add-rename",[(KD,'''        layer = deepcopy(self.__layer)
        layer.activation = None
        float_output = layer(float_input)
        # Get and trim the distribution:
        out_dist = Distribution(float_output)

        out_dist = self.__bias_add_trim(out_dist)

        out_s, out_zp = out_dist.quantize(self.__q_bias_add)
        return (
            self.__quantize_bias_add_from_params(float_input, out_s, out_zp),
            float_output,
        )
''','''        linear = deepcopy(self.__layer)
        linear.activation = None
        float_output = linear(float_input)
        trimmed = self.__bias_add_trim(Distribution(float_output))
        out_s, out_zp = trimmed.quantize(self.__q_bias_add)
        node = self.__quantize_bias_add_from_params(float_input, out_s, out_zp)
        return node, float_output
''')]),
("C24","b1-expr",[(A+"qubocalculation.py",'''        Bterm1[s]=(qkernel_scale*qinput_scale)**2*(1/Numero_de_datasets)*InputRound[s]*(InputRound[s]-2*dterm[s][Indice_del_subespacio])
    Suma = np.sum(Bterm1, axis=0)
    for i in range(0,Dimension_Input):
        Diccionario1[(Indice_del_subespacio*Dimension_Input+i+1,Indice_del_subespacio*Dimension_Input+i+1)]=Suma[i]
''','''        factor=(qkernel_scale*qinput_scale)**2*(1/Numero_de_datasets)
        x=InputRound[s]
        Bterm1[s]=factor*x*(x-2*dterm[s,Indice_del_subespacio])
    Suma = Bterm1.sum(axis=0)
    base = Indice_del_subespacio*Dimension_Input+1
    for i in range(Dimension_Input):
        k=base+i
        Diccionario1[(k,k)]=Suma[i]
''')]),
("C24","b2-guard",[(A+"qubocalculation.py",'''    for i in range(0,Dimension_Input):
        for j in range(0,Dimension_Input):
            if Bt2[j+i*Dimension_Input]==0:
                continue
            else:
                Diccionario2[(Dimension_Input*Indice_del_subespacio +i+1,Dimension_Input*Indice_del_subespacio +j+1)]=Bt2[j+i*Dimension_Input]
    return Diccionario2,Bt2
''','''    for i in range(0,Dimension_Input):
        for j in range(0,Dimension_Input):
            value=Bt2[i*Dimension_Input+j]
            if value!=0:
                Diccionario2[(Dimension_Input*Indice_del_subespacio +i+1,Dimension_Input*Indice_del_subespacio +j+1)]=value
    return Diccionario2,Bt2
''')]),
("C24","b2-hoist",[(A+"qubocalculation.py",'''        Bterm2[s]=np.ravel(M)
        Bt2 = (qkernel_scale*qinput_scale)**2*(1/Numero_de_datasets)*np.sum(Bterm2, axis=0)
        #print(Bt2)
        #Bt2 = Suma.reshape(Dimension_Input, Dimension_Input)
    for i''','''        Bterm2[s]=M.ravel()
    Bt2 = (qkernel_scale*qinput_scale)**2*(1/Numero_de_datasets)*np.sum(Bterm2, axis=0)
    for i''')]),
("C24","b4-keys",[(A+"qubocalculation.py",'''    Bt4 = np.sum(Bterm4, axis=0)
    #print(Bt4)
    for i in range(0,Dimension_Input):
        if Bt4[i]==0:
            continue
        else:
            Diccionario4[(Indice_del_subespacio*Dimension_Input+i+1,Dimension_Input*Dimension_Output+1+Indice_del_subespacio)]=Bt4[i]
            Diccionario4[(Dimension_Input*Dimension_Output+1+Indice_del_subespacio,Indice_del_subespacio*Dimension_Input+i+1)]=Bt4[i]
    return Diccionario4,Bt4
''','''    Bt4 = np.sum(Bterm4, axis=0)
    bias_var = Dimension_Input*Dimension_Output+1+Indice_del_subespacio
    for i in range(0,Dimension_Input):
        if Bt4[i]!=0:
            var = Indice_del_subespacio*Dimension_Input+i+1
            Diccionario4[(bias_var,var)]=Bt4[i]
            Diccionario4[(var,bias_var)]=Bt4[i]
    return Diccionario4,Bt4
''')]),
("C24","dterm",[(A+"qubocalculation.py",'''    dc=Output/(qkernel_scale*qinput_scale)-(qbias_scale/(qkernel_scale*qinput_scale))*np.floor(Bias/(qkernel_scale*qinput_scale))  
    ds=np.dot(np.floor(Kernel/qkernel_scale),InputRound.T)   
    d=dc-ds.T
    return d
''','''    s=qkernel_scale*qinput_scale
    dc=Output/s-(qbias_scale/s)*np.floor(Bias/s)
    ds=np.dot(InputRound,np.floor(Kernel/qkernel_scale).T)
    return dc-ds
''')]),
("C24","helper-vars",[(A+"qubo.py",'''        output_f = np.dot(input_f, kernel.T) + bias
''','''        output_f = input_f @ kernel.T
        output_f = output_f + bias
''')]),
("C25","adaround-loop",[(A+"adaround.py",'''        for tensor, neigh in zip(tensors, neighborhoods):
            tensor.rounding_policy = neigh
        return tensors
''','''        for i, tensor in enumerate(tensors):
            if i < len(neighborhoods):
                tensor.rounding_policy = neighborhoods[i]
        return tensors
''')]),
("C25","descent-if",[(A+"annealer.py",'''            if (energy := self.energy()) < best_energy:
                best_neigh = list(self.state)
                best_energy = energy
                print(f"Improved after {stuck} times with {energy} energy")
                self._past_permutations = set()
                stuck = 0
            else:
                self.state = list(best_neigh)
                stuck += 1
            if stuck > self._max_retires:
                break
''','''            energy = self.energy()
            if energy >= best_energy:
                self.state = [n for n in best_neigh]
                stuck = stuck + 1
                if stuck > self._max_retires:
                    break
            else:
                best_neigh, best_energy = list(self.state), energy
                self._past_permutations = set()
                stuck = 0
''')]),
("C25","move-copy",[(A+"annealer.py",'''            flatten[idx] = flatten[idx] ^ 1  # ^ is an XOR operation (bit shift)
            tensor = np.reshape(flatten, shape)
            new_state.append(tensor)
''','''            bit = flatten[idx]
            flatten[idx] = 1 - bit
            new_state.append(flatten.reshape(shape))
''')]),
("C25","move-loop",[(A+"annealer.py",'''        while True:
            new_permutation = (*[randrange(start=0, stop=len(t)) for t in self.state],)
            if not new_permutation in self._past_permutations:
                break
''','''        while True:
            new_permutation = tuple(randrange(len(t)) for t in self.state)
            if new_permutation not in self._past_permutations:
                break
''')]),
("C25","anneal-cost",[(A+"annealer.py",'''        neigh, energy = super().anneal()
        return self._to_minima(neigh, sys.maxsize if energy is None else energy)
''','''        neigh, energy = super().anneal()
        if energy is None:
            energy = sys.maxsize
        return self._to_minima(neigh, energy)
''')]),
("C26","bfs-restructure",[(P+"bfs_equalizer.py",'''            self.move()
            cost = self._cost_fn(self.state)
            current_retries += 1
            if (cost := self._cost_fn(self.state)) < best_cost:
''','''            self.move()
            cost = self._cost_fn(self.state)
            current_retries += 1
            if cost < best_cost:
''')]),
("C26","bfs-while-cond",[(P+"bfs_equalizer.py",'''        while True:
            self.move()
''','''        while current_retries <= self._max_retries:
            self.move()
'''),(P+"bfs_equalizer.py",'''            if current_retries > self._max_retries:
                break

''','')]),
("C26","eq-zp",[(P+"abstract_param_optimizer.py",'''        if zp == quant.min_value():
            return zp + 1
        elif zp == quant.max_value():
            return zp - 1
        else:
            return zp + (1 if random() > 0.5 else -1)
''','''        lowest, highest = quant.min_value(), quant.max_value()
        if zp == lowest:
            step = 1
        elif zp == highest:
            step = -1
        elif random() > 0.5:
            step = 1
        else:
            step = -1
        return zp + step
''')]),
("C26","eq-scale",[(P+"abstract_param_optimizer.py",'''        rnd = (random() / pow(10, num_of_zeroes)) * (-_M if random() > 0.5 else +_M)
        return scale + rnd
''','''        size = random() / pow(10, num_of_zeroes)
        if random() > 0.5:
            return scale - size * _M
        return scale + size * _M
''')]),
("C26","copy-index",[(P+"abstract_param_optimizer.py",'''        for t, f in zip(to, from_):
            t.update_quant_parameters(f.scale, f.zero_point, requantize=requantize)
''','''        for pair in zip(to, from_):
            target, source = pair
            target.update_quant_parameters(
                source.scale, source.zero_point, requantize
            )
''')]),
("C26","move-swap",[(P+"abstract_param_optimizer.py",'''            zp = self._eq_zp(zp, tensor.quant)
            scale = self._eq_scale(scale)
            tensor.update_quant_parameters(scale, zp)
''','''            new_zp = self._eq_zp(zp, tensor.quant)
            new_scale = self._eq_scale(scale)
            tensor.update_quant_parameters(new_scale, new_zp, True)
''')]),
("C26","anneal-state",[(P+"annealer.py",'''        if state is not self._tensors:
            self.copy(self._tensors, state, requantize=True)
''','''        if state is self._tensors:
            return
        self.copy(self._tensors, state, requantize=True)
''')]),
("C26","fullnet",[(P+"param_equalizer.py",'''        optimizer = self._optimizer_factory()
        optimizer.set_cost_fn(lambda: self._loss_fn(self._net.as_sequential_network()))
        optimizer.set_initial_neigh(list(bundler.nodes))
        optimizer.optimize()
''','''        def loss():
            return self._loss_fn(self._net.as_sequential_network())

        nodes = list(bundler.nodes)
        optimizer = self._optimizer_factory()
        optimizer.set_cost_fn(loss).set_initial_neigh(nodes).optimize()
''')]),
("C26","bundler",[("quantizer/itcl_quantizer/equalizers/eq_bundler.py",'''        self._nodes.extend(nodes)
''','''        for node in nodes:
            self._nodes.append(node)
''')]),
]
