"""Stand-ins for third-party packages absent from the sandbox, so that the real
modules of /repo that import them can be executed.  Importing this module
installs a finder for exactly these top-level names when they are missing."""
import importlib.abc, importlib.machinery, importlib.util, sys, types
NAMES = {"tensorflow", "keras", "onnx", "onnxruntime", "tflite", "pydantic", "yaml", "paho", "simanneal", "dimod", "neal", "greedy", "dwave",
         "qiskit", "qiskit_optimization", "qiskit_aer", "qiskit_algorithms", "pandas", "seaborn", "tqdm", "skopt", "bayes_opt", "hyperopt", "optuna", "pyqubo", "tabu",
         "hybrid", "minorminer", "typer", "click", "ray", "numba", "qiskit_ibm_runtime", "dwave_networkx", "networkx"}


class Meta(type):
    def __getattr__(cls, name):
        if name.startswith("__"):
            raise AttributeError(name)
        c = Meta(name, (Stub,), {})
        setattr(cls, name, c)
        return c


class Stub(metaclass=Meta):
    def __init__(self, *a, **k):
        pass

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Stub()

    def __call__(self, *a, **k):
        if len(a) == 1 and not k and isinstance(a[0], (types.FunctionType, type)):
            return a[0]                      # used as a decorator
        return Stub()


class Factory:
    def __init__(self, make):
        self.make = make


class BaseModel:
    def __init__(self, **k):
        for c in reversed(type(self).__mro__):
            for n in vars(c).get("__annotations__", {}):
                if hasattr(c, n) and n not in self.__dict__ and n not in k:
                    v = getattr(c, n)
                    self.__dict__[n] = v.make() if isinstance(v, Factory) else type(v)(v) if type(v) in (dict, list, set) else v
        self.__dict__.update(k)

    @classmethod
    def parse_obj(cls, d):
        return cls(**d)


class Annealer:
    """minimal stand-in for simanneal.Annealer: the same protocol (state, move, energy)"""
    Tmax, Tmin, steps, updates = 25000.0, 2.5, 300, 0
    copy_strategy = "deepcopy"

    def __init__(self, initial_state=None, load_state=None):
        import copy
        self.state = copy.deepcopy(initial_state)

    def set_schedule(self, s):
        self.Tmax, self.Tmin, self.steps, self.updates = s["tmax"], s["tmin"], int(s["steps"]), 0

    def copy_state(self, s):
        import copy
        return copy.deepcopy(s)

    def anneal(self):
        import random
        E = self.energy()
        best, bestE = self.copy_state(self.state), E
        prev = self.copy_state(self.state)
        for k in range(int(self.steps)):
            dE = self.move()
            E2 = self.energy() if dE is None else E + dE
            if E2 > E and random.random() < .5:
                self.state = self.copy_state(prev)
            else:
                prev, E = self.copy_state(self.state), E2
                if E < bestE:
                    best, bestE = self.copy_state(self.state), E
        self.state = self.copy_state(best)
        return best, bestE


SPECIAL = {("pydantic", "BaseModel"): BaseModel, ("simanneal", "Annealer"): Annealer,
           ("pydantic", "Field"): lambda default=None, default_factory=None, **k: Factory(default_factory) if default_factory else default,
           ("tqdm", "tqdm"): lambda it=None, **k: it if it is not None else Stub()}


class Mod(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        k = (self.__name__.split(".")[0], name)
        v = SPECIAL.get(k) or Meta(name, (Stub,), {})
        setattr(self, name, v)
        return v


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in NAMES:
            return importlib.machinery.ModuleSpec(name, self, is_package=True)

    def create_module(self, spec):
        m = Mod(spec.name)
        m.__path__ = []
        return m

    def exec_module(self, m):
        if m.__name__ == "qiskit.visualization":
            import os
            m.os = os        # the real package exposes it to star imports


sys.meta_path.append(Finder())
try:
    import sklearn  # noqa
except ImportError:
    NAMES.add("sklearn")


def _numeric_activations():
    """element-wise float64 stand-ins for tensorflow.keras.activations"""
    import numpy as np
    import tensorflow
    if not isinstance(tensorflow, Mod):
        return
    import tensorflow.keras.activations as a
    import tensorflow.keras as k
    import tensorflow.nn as nn
    import tensorflow.math as ma
    for m in (a, nn, ma):
        m.sigmoid = lambda x: 1 / (1 + np.exp(-np.asarray(x, dtype="float64")))
        m.tanh = lambda x: np.tanh(np.asarray(x, dtype="float64"))
        m.relu = lambda x: np.maximum(np.asarray(x, dtype="float64"), 0)
    tensorflow.keras, k.activations, tensorflow.nn, tensorflow.math = k, a, nn, ma


_numeric_activations()
