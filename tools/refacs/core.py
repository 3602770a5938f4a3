O="core/itcl_quantization/quantization/operators.py"; T="core/itcl_quantization/quantization/lut.py"
Q=["C01","C02","C03","C06"]
R=["C07","C08"]
L=[
(Q,"round-inline",[(O,'''        rounded_data = np.floor(np.array(data) + extra)

        return rounded_data.clip(self.dtype.min(), self.dtype.max()).astype("int64")
''','''        shifted = np.asarray(data) + extra
        low, high = self.dtype.min(), self.dtype.max()
        return np.clip(np.floor(shifted), low, high).astype(np.int64)
''')]),
(Q,"round-minmax",[(O,'''        return rounded_data.clip(self.dtype.min(), self.dtype.max()).astype("int64")
''','''        bounded = np.minimum(np.maximum(rounded_data, self.min_value()), self.max_value())
        return bounded.astype("int64")
''')]),
(Q,"quantize-helper",[(O,'''        scaled = np.array(data).astype(np.float64) / scale
        float_res = np.array(scaled + zero_point)

        if rounding_policy is not None:
            try:
                return self.round(
                    np.floor(scaled) + rounding_policy + zero_point, extra=0
                )
            except ValueError:
                logging.warning(
                    "Invalid quantization rounding policy, rounding to nearest"
                )
        return self.round(float_res)
''','''        scaled = self._scaled(data, scale)

        if rounding_policy is None:
            return self.round(scaled + zero_point)
        try:
            base = np.floor(scaled)
            return self.round(base + rounding_policy + zero_point, extra=0)
        except ValueError:
            logging.warning("Invalid quantization rounding policy, rounding to nearest")
            return self.round(scaled + zero_point)

    @staticmethod
    def _scaled(data, scale):
        return np.asarray(data, dtype=np.float64) / scale
''')]),
(Q,"dequantize-steps",[(O,'''        return (np.array(data, dtype=np.int64) - zero_point) * scale
''','''        codes = np.asarray(data).astype(np.int64)
        offsets = np.subtract(codes, zero_point)
        return offsets * scale
''')]),
(["C06"],"float-act-arange",[(O,'''        quantized_input = np.array(
            range(int(self.min_value()), int(self.max_value()) + 1)
        )
''','''        low, high = int(self.min_value()), int(self.max_value())
        quantized_input = np.arange(low, high + 1)
''')]),
(["C06"],"float-act-listcomp",[(O,'''        apply_fn = np.vectorize(activation_fn, otypes=[np.float64])

        return apply_fn(float_input)
''','''        return np.array([activation_fn(x) for x in float_input], dtype=np.float64)
''')]),
(["C06"],"lut-named",[(O,'''        return self.quantize(
            activated_float, output_zp, output_s, rounding_policy=rounding_policy
        ).tolist()
''','''        codes = self.quantize(activated_float, scale=output_s, zero_point=output_zp, rounding_policy=rounding_policy)
        return list(codes.tolist())
''')]),
(["C04"],"parse-match",[(O,'''        bits: int = int(re.findall(r"\\d+", dtype)[0])
        type: str = re.findall(r"[a-zA-Z]+", dtype)[0].lower()
        signed = type == "int"
''','''        digits = re.findall(r"\\d+", dtype)
        letters = re.findall(r"[a-zA-Z]+", dtype)
        bits: int = int(digits[0])
        type: str = letters[0].lower()
        signed = type == "int"
''')]),
(["C04","C01"],"limits-branch",[(O,'''        self.__min = -(2 ** (int(bits) - 1)) if signed else 0
        self.__max = 2 ** (int(bits) - 1) - 1 if signed else 2 ** int(bits) - 1
''','''        if signed:
            half = 2 ** (bits - 1)
            self.__min, self.__max = -half, half - 1
        else:
            self.__min, self.__max = 0, 2**bits - 1
''')]),
(["C04"],"limits-shift",[(O,'''        self.__min = -(2 ** (int(bits) - 1)) if signed else 0
        self.__max = 2 ** (int(bits) - 1) - 1 if signed else 2 ** int(bits) - 1
''','''        self.__min = -(1 << (bits - 1)) if signed else 0
        self.__max = (1 << (bits - 1)) - 1 if signed else (1 << bits) - 1
''')]),
(["C04"],"repr-join",[(O,'''        self.__repr = f"{type}{bits}"
''','''        self.__repr = type + str(bits)
''')]),
(["C04"],"numpy-info",[(O,'''            self.__min: number = np.iinfo(dtype).min
            self.__max: number = np.iinfo(dtype).max
''','''            info = np.iinfo(dtype)
            self.__min: number = info.min
            self.__max: number = info.max
''')]),
(["C05"],"shared-helper",[(O,'''    def __sub__(self, other):
        larger = self.get_larger_dtype(self, other)
        next = Dtype.from_dtype(larger.__double_dtype())

        a = np.array(self.value).astype(next.dtype)
        b = np.array(other.value).astype(next.dtype)
        res = np.clip(
            a - b,
            next.min(),
            next.max(),
        )

        dtype = larger.dtype

        if self.__has_overflow(res, self):
            dtype = next.dtype

        return Dtype(res, dtype)
''','''    def __sub__(self, other):
        return self.__apply(other, lambda a, b: a - b)

    def __apply(self, other, fn):
        larger = self.get_larger_dtype(self, other)
        wide = Dtype.from_dtype(larger.__double_dtype())
        a, b = (np.array(v.value).astype(wide.dtype) for v in (self, other))
        res = np.clip(fn(a, b), wide.min(), wide.max())
        return Dtype(res, wide.dtype if self.__has_overflow(res, self) else larger.dtype)
'''),(O,'''        larger = self.get_larger_dtype(self, other)
        next = Dtype.from_dtype(larger.__double_dtype())

        a = np.array(self.value).astype(next.dtype)
        b = np.array(other.value).astype(next.dtype)
        res = np.clip(
            a * b,
            next.min(),
            next.max(),
        )

        dtype = larger.dtype
        if self.__has_overflow(res, self):
            dtype = next.dtype
        return Dtype(res, dtype)
''','''        return self.__apply(other, lambda a, b: a * b)
''')]),
(["C05"],"overflow-minmax",[(O,'''        if isinstance(value, np.ndarray):
            return bool(np.any(value > larger.max()) or np.any(value < larger.min()))

        return value > larger.max() or value < larger.min()
''','''        outside = np.logical_or(value > larger.max(), value < larger.min())
        return bool(np.any(outside))
''')]),
(["C05"],"larger-max",[(O,'''        if a.bits > b.bits:
            return a
        else:
            return b
''','''        return a if a.bits > b.bits else b
''')]),
(["C05"],"asarray",[(O,"np.array(self.value).astype(next.dtype)","np.asarray(self.value, dtype=next.dtype)"),(O,"np.array(other.value).astype(next.dtype)","np.asarray(other.value, dtype=next.dtype)")]),
(R,"getitem-next",[(T,'''        if index < self.left_shift:
            for t in self.left_tuples:
                if index < t[0]:
                    return t[1]
''','''        if index < self.left_shift:
            for end, value in self.left_tuples:
                if index < end:
                    return value
''')]),
(R,"getitem-tail-helper",[(T,'''        for t in self.right_tuples:
            if index >= t[0]:
                return t[1]

        raise IndexError(f"LUT Index {index} out of range")
''','''        return self.__tail(index)

    def __tail(self, index):
        for start, value in self.right_tuples:
            if start <= index:
                return value

        raise IndexError(f"LUT Index {index} out of range")
''')]),
(R,"iter-genexp",[(T,'''        for i in range(len(self.lut)):
            yield self[i]
''','''        return (self[i] for i in range(len(self.lut)))
''')]),
(R,"shift-loop",[(T,'''        shift = sum([c[1] for c in counter])
''','''        shift = sum(count for _, count in counter)
''')]),
(R,"shift-from-intervals",[(T,'''        shift = sum([c[1] for c in counter])
''',''''''),(T,'''        # Adjust the individual intervals if we are working with the tail
''','''        shift = intervals[-1][0]
        # Adjust the individual intervals if we are working with the tail
''')]),
(R,"intervals-running",[(T,'''        for key, value in counter:
            intervals.append(
                (value + intervals[-1][0] if len(intervals) else value, key)
            )
''','''        end = 0
        for key, value in counter:
            end += value
            intervals.append((end, key))
''')]),
(R,"tail-listcomp",[(T,'''            for i in range(len(intervals)):
                intervals[i] = (len(lut) - intervals[i][0], intervals[i][1])
''','''            n = len(lut)
            intervals = [(n - offset, value) for offset, value in intervals]
''')]),
(R,"tail-enumerate",[(T,'''            for i in range(len(intervals)):
                intervals[i] = (len(lut) - intervals[i][0], intervals[i][1])
''','''            for i, (end, value) in enumerate(intervals):
                intervals[i] = (len(lut) - end, value)
''')]),
(R,"reverse-slice",[(T,'''        lut = list(lut)  # Clone the LUT

        if reverse:
            lut.reverse()
''','''        lut = lut[::-1] if reverse else list(lut)
''')]),
(R,"reverse-reversed",[(T,'''        lut = list(lut)  # Clone the LUT

        if reverse:
            lut.reverse()
''','''        lut = list(reversed(lut)) if reverse else list(lut)
''')]),
(R,"count-restructured",[(T,'''            current_val, current_count = counter[-1]

            if element != current_val:
                # If we have reached the max depth:
                if len(counter) == self.depth:
                    break

                else:  # Add the current value to the counter
                    counter.append((element, 0))
                    current_val = element
                    current_count = 0

            # Increment the counter of the current val
            counter[-1] = (current_val, current_count + 1)
''','''            value, count = counter[-1]
            if element == value:
                counter[-1] = (value, count + 1)
                continue
            if len(counter) == self.depth:
                break
            counter.append((element, 1))
''')]),
(R,"asym-loop",[(T,'''            self.right_tuples = [
                (offset + self.left_shift, value)
                for offset, value in self.right_tuples
            ]
''','''            shifted = []
            for offset, value in self.right_tuples:
                shifted.append((offset + self.left_shift, value))
            self.right_tuples = shifted
''')]),
(R,"reduced-end",[(T,'''        r_shift_slice_idx = -self.right_shift if self.right_shift else None
        self.reduced_lut = lut[self.left_shift : r_shift_slice_idx]
''','''        self.reduced_lut = lut[self.left_shift : max(len(lut) - self.right_shift, 0)]
''')]),
(["C08"],"serialize-helper",[(T,'''            "head": {
                "shift": self.left_shift,
                "tuples_len": len(self.left_tuples),
                "tuples": self.left_tuples,
            },
            "tail": {
                "shift": self.right_shift,
                "tuples_len": len(self.right_tuples),
                "tuples": self.right_tuples,
            },
''','''            "head": self.__side(self.left_shift, self.left_tuples),
            "tail": self.__side(self.right_shift, self.right_tuples),
'''),(T,'''    def serialize(self)''','''    @staticmethod
    def __side(shift, tuples):
        return {"shift": shift, "tuples_len": len(tuples), "tuples": tuples}

    def serialize(self)''')]),
(["C08"],"deser-loop",[(T,'''        reduced_lut.lut = [reduced_lut[i] for i in range(length)]
''','''        values = []
        for i in range(length):
            values.append(reduced_lut[i])
        reduced_lut.lut = values
''')]),
(["C08"],"deser-locals",[(T,'''        reduced_lut.left_shift = json_lut["head"]["shift"]
        reduced_lut.left_tuples = json_lut["head"]["tuples"]
        reduced_lut.right_shift = json_lut["tail"]["shift"]
        reduced_lut.right_tuples = json_lut["tail"]["tuples"]
''','''        head, tail = json_lut["head"], json_lut["tail"]
        reduced_lut.left_shift, reduced_lut.left_tuples = head["shift"], head["tuples"]
        reduced_lut.right_shift, reduced_lut.right_tuples = tail["shift"], tail["tuples"]
''')]),
]
