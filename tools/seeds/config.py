D = "quantizer/itcl_quantizer/config/models/keras.py"
A = "quantizer/itcl_quantizer/equalizers/adaround/annealer.py"
HEAD = """import stubs, json, os, tempfile
import itcl_quantizer.config.models.keras as K
def eq(a, b, what):
    if a != b: raise SystemExit(f'{what}: {a!r}, expected {b!r}')
def read(d):
    with tempfile.TemporaryDirectory() as t:
        p = os.path.join(t, 'cfg.json')
        with open(p, 'w', encoding='utf-8') as f: json.dump(d, f, ensure_ascii=False)
        return K.QuantizerCfg.from_json(p)
"""


def S(cid, edits, needs, breaks, body, file=D):
    return dict(id=cid, property="C34", file=file, edits=edits, needs=needs, what_it_breaks=breaks, demo=HEAD + body, stubs=True)


SEEDS = [
 S("C34-early-return", [("        self.kernel_symmetric = True\n\n        if opt := self.adaround_optimizer:\n            opt.tflite()\n        super().tflite()\n",
                         "        if opt := self.adaround_optimizer:\n            opt.tflite()\n            return\n        self.kernel_symmetric = True\n        super().tflite()\n")],
   "a dense layer with a rounding search of its own", "such a layer keeps its asymmetric kernel in a TFLite-compatible configuration",
   """c = K.QuantizerCfg(); c.dense.adaround_optimizer = K.RoundingMinimaCfg(max_retries=3); c.tflite()
eq(c.dense.kernel_symmetric, True, 'symmetric kernel')
c = K.QuantizerCfg(); c.tflite(); eq(c.dense.kernel_symmetric, True, 'symmetric kernel without rounding')
"""),
 S("C34-steps-or-default", [("            steps=self.steps,\n", "            steps=self.steps or RoundingAnnealerCfg().steps,\n")],
   "an annealing configuration with 0 steps", "a configured number of steps of 0 is replaced by the default",
   """for s in (0, 1, 500):
    eq(K.RoundingAnnealerCfg(steps=s).build().steps, s, 'steps')
"""),
 S("C34-minima-updates", [("            t_min=0.1, t_max=0.1, updates=100, steps=0, max_retries=self.max_retries\n", "            t_min=0.1, t_max=0.1, updates=100, steps=0, max_retries=min(self.max_retries, 100)\n")],
   "a minima search with more than 100 retries", "the configured number of retries is cut off",
   """for n in (0, 100, 101, 5000):
    eq(K.RoundingMinimaCfg(max_retries=n).build()._max_retires, n, 'retries')
"""),
 S("C34-falsy-dropped", [("            cfg = json.load(f)\n            return cls(**cfg)\n", "            cfg = json.load(f)\n            return cls(**{k: v for k, v in cfg.items() if v})\n")],
   "a file that gives a section as an empty object (its defaults)", "the section is treated as missing: the equaliser it asks for is off",
   """eq(read({'param_equalizer': {}}).param_equalizer, {}, 'empty section')
eq(read({'param_equalizer': {'max_retries': 3}}).param_equalizer, {'max_retries': 3}, 'section')
eq(read({}).param_equalizer, None, 'missing section')
"""),
 S("C34-equaliser-only", [("        self.ada_round_net = None\n        self.param_equalizer = None\n        return super().tflite()\n", "        if self.ada_round_net:\n            self.ada_round_net = None\n            self.param_equalizer = None\n        return super().tflite()\n")],
   "a configuration with parameter equalisation but no network rounding", "equalisation stays on in a TFLite-compatible configuration",
   """c = K.QuantizerCfg(param_equalizer=K.ParamEqualizerCfg()); c.tflite(); eq(c.param_equalizer, None, 'equaliser')
c = K.QuantizerCfg(param_equalizer=K.ParamEqualizerCfg(), ada_round_net=K.RoundingMinimaCfg()); c.tflite(); eq((c.param_equalizer, c.ada_round_net), (None, None), 'both')
"""),
 S("C34-depth-reset", [("class ActivationCfg(BaseModel):\n    reduced_depth: int = 3\n", "class ActivationCfg(BaseModel):\n    reduced_depth: int = 3\n\n    def tflite(self):\n        self.reduced_depth = ActivationCfg().reduced_depth\n")],
   "a table depth other than the default", "making the configuration TFLite compatible resets the depth of the activation tables",
   """for d in (3, 0, 7):
    c = K.QuantizerCfg(); c.dense.lut_cfg.reduced_depth = d; c.tflite(); eq(c.dense.lut_cfg.reduced_depth, d, 'depth')
"""),
 S("C34-steps-updates", [("        self.steps = steps\n", "        self.steps = max(steps, updates)\n")],
   "fewer steps than updates (the minima search: 0 steps, 100 updates)", "the search that should only look for minima anneals for 100 steps",
   """eq(K.RoundingMinimaCfg().build().steps, 0, 'minima search')
eq(K.RoundingAnnealerCfg(steps=5, updates=9).build().steps, 5, 'steps')
eq(K.RoundingAnnealerCfg(steps=50, updates=9).build().steps, 50, 'steps')
""", A),
 S("C34-shared-build", [("    def build(self):\n        return QUBOAnnealer()\n", "    def build(self, _made=[]):\n        if not _made:\n            _made.append(QUBOAnnealer())\n        return _made[0]\n")],
   "two layers with a QUBO rounding", "both layers share one search: data and layer set for one are those of the other",
   """a, b = K.RoundingQUBOCfg().build(), K.RoundingQUBOCfg().build()
eq(a is b, False, 'shared search')
"""),
]
