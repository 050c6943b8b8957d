"""Stand-in for joblib (not installed here): reads its uncompressed pickle format, writes plain pickles."""
import pickle
import sys
import types

import numpy as np


class NumpyArrayWrapper:
    def read(self, f):
        n = 1
        for s in self.shape:
            n *= int(s)
        if self.dtype.hasobject:
            return pickle.load(f)
        raw = f.read(n * self.dtype.itemsize)
        a = np.frombuffer(raw, self.dtype, n).copy()
        if self.order == "F":
            return a.reshape(self.shape[::-1]).transpose()
        return a.reshape(self.shape)


_m = types.ModuleType("joblib.numpy_pickle")
_m.NumpyArrayWrapper = NumpyArrayWrapper
sys.modules["joblib.numpy_pickle"] = _m


class _Unpickler(pickle._Unpickler):
    dispatch = pickle._Unpickler.dispatch.copy()

    def __init__(self, f):
        super().__init__(f)
        self._f = f

    def load_build(self):
        super().load_build()
        if isinstance(self.stack[-1], NumpyArrayWrapper):
            self.stack.append(self.stack.pop().read(self._f))
    dispatch[pickle.BUILD[0]] = load_build


def load(path):
    with open(path, "rb") as f:
        return _Unpickler(f).load()


def dump(obj, path):
    with open(path, "wb") as f:
        pickle.dump(obj, f)
    return [path]
