D = "quantizer/itcl_quantizer/config/models/keras.py"
ids = ("C34", "C32")
INIT = open("/repo/" + D).read().split("class Init(metaclass=ABCMeta):\n")[1].split("\n\n\nclass BaseModel")[0]
RB = '''        return RoundingAnnealer(
            t_min=self.t_min,
            t_max=self.t_max,
            updates=self.updates,
            steps=self.steps,
            max_retries=self.max_retries,
        )
'''
RJ = '''        with open(path, "r", encoding="utf-8") as f:
            cfg = json.load(f)
            return cls(**cfg)
'''
RY = RJ.replace("json.load", "yaml.safe_load")
L = [
 (ids, "init-generator", [(D, INIT, '''    def _configs(self):
        for attribute in vars(self).values():
            if isinstance(attribute, dict):
                yield from attribute.values()
            else:
                yield attribute

    def tflite(self):
        for value in self._configs():
            if isinstance(value, Init):
                value.tflite()''')]),
 (ids, "init-items", [(D, INIT, '''    def tflite(self):
        for _, attribute in self.__dict__.items():
            if isinstance(attribute, Init):
                attribute.tflite()
            elif isinstance(attribute, dict):
                for _name, layer in attribute.items():
                    if isinstance(layer, Init):
                        layer.tflite()''')]),
 (ids, "own-layers-in-quantizer", [(D, INIT, '''    def tflite(self):
        for attribute in self.__dict__.values():
            if isinstance(attribute, Init):
                attribute.tflite()'''), (D, "        return super().tflite()\n", '''        for name in self.specific_layers.keys():
            self.specific_layers[name].tflite()
        super().tflite()
''')]),
 (ids, "tflite-order", [(D, '''        self.kernel_symmetric = True

        if opt := self.adaround_optimizer:
            opt.tflite()
        super().tflite()
''', '''        super().tflite()
        self.kernel_symmetric = True
'''), (D, '''        self.ada_round_net = None
        self.param_equalizer = None
        return super().tflite()
''', '''        super().tflite()
        self.param_equalizer = self.ada_round_net = None
''')]),
 (ids, "build-kwargs", [(D, RB, '''        settings = {k: getattr(self, k) for k in ("t_min", "t_max", "updates", "steps", "max_retries")}
        return RoundingAnnealer(**settings)
'''), (D, "        return RoundingAnnealer(\n            t_min=0.1, t_max=0.1, updates=100, steps=0, max_retries=self.max_retries\n        )\n",
  "        return RoundingAnnealer(0.1, 0.1, 100, 0, self.max_retries)\n")]),
 (ids, "read-helper", [(D, RJ, "        return cls._read(path, json.load)\n"), (D, RY, '''        return cls._read(path, yaml.safe_load)

    @classmethod
    def _read(cls, path, parse):
        with open(path, encoding="utf-8") as f:
            return cls(**parse(f))
''')]),
 (ids, "read-text", [(D, RJ, '''        return cls(**json.loads(Path(path).read_text(encoding="utf-8")))
'''), (D, RY, '''        text = Path(path).read_text("utf-8")
        values = yaml.safe_load(text)
        return cls(**values)
''')]),
 (ids, "comprehension", [(D, INIT, '''    def tflite(self):
        for attribute in list(self.__dict__.values()):
            group = list(attribute.values()) if isinstance(attribute, dict) else [attribute]
            for value in [g for g in group if isinstance(g, Init)]:
                value.tflite()''')]),
]
