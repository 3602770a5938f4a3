D = "demo/demo_lib/demo_lib/fpga.py"
ids = ("C33", "C30")
OLD = '''    def __call__(self, net: Network) -> float:
        self._result_event.clear()
        json_net = json.dumps(net.schema)
        self._client.publish(self._model_topic, json_net, qos=self._qos)

        was_timeout = not self._result_event.wait(timeout=self._timeout)

        if was_timeout:
            raise RuntimeError("Timeout, no result received")

        return self._loss
'''
L = [
 (ids, "loss-helpers", [(D, OLD, '''    def __call__(self, net: Network) -> float:
        self._send(net)
        self._await_reply()
        return self._loss

    def _send(self, net: Network) -> None:
        payload = json.dumps(net.schema)
        self._result_event.clear()
        self._client.publish(self._model_topic, payload, qos=self._qos)

    def _await_reply(self) -> None:
        if self._result_event.wait(self._timeout):
            return
        raise TimeoutError("Timeout, no result received")
''')]),
 (ids, "loss-reset", [(D, OLD, '''    def __call__(self, net: Network) -> float:
        self._result_event.clear()
        self._loss = None
        self._client.publish(self._model_topic, json.dumps(net.schema), qos=self._qos)
        self._result_event.wait(timeout=self._timeout)
        if self._loss is None:
            raise RuntimeError("Timeout, no result received")
        return self._loss
''')]),
 (ids, "result-parse", [(D, '''        res_dict = json.loads(message.payload.decode("utf-8"))
        self._loss = float(res_dict["loss"])
''', '''        loss = json.loads(message.payload.decode())["loss"]
        self._loss = float(loss)
''')]),
 (ids, "kv-dict", [(D, '''        return {"input": self.input.as_kv(), "output": self.output.as_kv()}
''', '''        return dict(input=self.input.as_kv(), output=self.output.as_kv())
''')]),
 (ids, "io-cls", [(D, '''        input = Input.from_numpy(id, x)
        output = Output.from_numpy(id, y)

        return cls(input, output)
''', '''        return cls(input=Input.from_numpy(id, x), output=Output.from_numpy(id, y))
''')]),
 (ids, "from-numpy-reshape", [(D, '''        flattened: list[E] = batch.flatten().tolist()

        return cls(
            id=id, shape=[len(batch), len(flattened) // len(batch)], tensor=flattened
        )

    def as_kv(self) -> dict[str, Any]:
        return {"id": self.id, "shape": self.shape, "tensor": self.tensor}

    def as_json''', '''        rows = batch.reshape(len(batch), -1)
        n, width = rows.shape

        return cls(id=id, shape=[n, width], tensor=rows.ravel().tolist())

    def as_kv(self) -> dict[str, Any]:
        return {"id": self.id, "shape": self.shape, "tensor": self.tensor}

    def as_json''')]),
 (ids, "from-numpy-helper", [(D, '''        flattened: list[E] = batch.flatten().tolist()

        return cls(
            id=id, shape=[len(batch), len(flattened) // len(batch)], tensor=flattened
        )

    def as_kv(self) -> dict[str, Any]:
        return {"id": self.id, "shape": self.shape, "tensor": self.tensor}

    def as_json''', '''        samples = len(batch)
        return cls(id, [samples, batch.size // samples], list(batch.flatten().tolist()))

    def as_kv(self) -> dict[str, Any]:
        return {"id": self.id, "shape": self.shape, "tensor": self.tensor}

    def as_json''')]),
 (ids, "as-numpy", [(D, '''        return np.array(self.tensor).reshape(self.shape)
''', '''        return np.reshape(np.asarray(self.tensor), tuple(self.shape))
''')]),
]
