"""Simulated accelerator libraries (the parts of CuPy and TensorFlow the package uses).

Arrays live in their own type: like CuPy arrays they refuse to be turned into
NumPy arrays implicitly and to be mixed with them.  Transfers can fail."""
import importlib.abc
import importlib.machinery
import sys
import types

import numpy as np
from numpy.lib.mixins import NDArrayOperatorsMixin

from .core import _Inj

STATE = {"transfers": 0, "fail": None, "on_fault": None, "raised": None}


class OutOfMemory(_Inj, MemoryError):
    """Device allocation failed."""


def transfer():
    n = STATE["transfers"]
    STATE["transfers"] = n + 1
    if STATE["fail"] == n:
        STATE["raised"] = OutOfMemory("simulated: out of memory allocating on the device")
        if STATE["on_fault"]:
            STATE["on_fault"]("transfer-out-of-memory")
        raise STATE["raised"]


class Dev(NDArrayOperatorsMixin):
    """Array on a device; subclassed per library."""

    __array_priority__ = 100

    def __init__(self, host):
        self._h = host

    @classmethod
    def unwrap(cls, v):
        if isinstance(v, cls):
            return v._h
        if isinstance(v, Dev) or (isinstance(v, np.ndarray) and v.dtype != object):
            raise TypeError(f"Unsupported type {type(v)}")
        if isinstance(v, (list, tuple)):
            return type(v)(cls.unwrap(e) for e in v)
        if isinstance(v, dict):
            return {k: cls.unwrap(e) for k, e in v.items()}
        return v

    @classmethod
    def wrap(cls, v):
        if isinstance(v, (np.ndarray, np.generic)):
            return cls(np.asarray(v))
        if isinstance(v, (tuple, list)):
            return type(v)(cls.wrap(e) for e in v)
        return v

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        cls = type(self)
        out = kw.pop("out", None)
        args = [cls.unwrap(i) for i in inputs]
        if out is not None:
            if not all(isinstance(o, cls) for o in out):
                raise TypeError("output is not on the device")
            kw["out"] = tuple(o._h for o in out)
        r = getattr(ufunc, method)(*args, **kw)
        return out[0] if out is not None else cls.wrap(r)

    def __array_function__(self, func, types_, args, kwargs):
        cls = type(self)
        return cls.wrap(func(*cls.unwrap(list(args)), **cls.unwrap(kwargs)))

    def __array__(self, *a, **k):
        raise TypeError("Implicit conversion to a NumPy array is not allowed. Please use `.get()` to construct a NumPy array explicitly.")

    def get(self):
        transfer()
        return self._h.copy()

    @property
    def data(self):
        if "tensorflow" not in type(self).__name__:
            return object()
        arr = self

        class Data:
            def numpy(self):
                return arr.get()
        return Data()

    def copy(self, *a, **k):
        return type(self)(self._h.copy())

    def item(self, *a):
        return self._h.item(*a)

    def astype(self, *a, **k):
        return type(self)(self._h.astype(*a, **k))

    def __getitem__(self, k):
        return self.wrap(self._h[self.unwrap(k)])

    def __setitem__(self, k, v):
        self._h[self.unwrap(k)] = self.unwrap(v)

    def __len__(self):
        return len(self._h)

    def __iter__(self):
        return (self.wrap(v) for v in self._h)

    def __bool__(self):
        return bool(self._h)

    def __float__(self):
        return float(self._h)

    def __int__(self):
        return int(self._h)

    def __repr__(self):
        return f"{type(self).__name__}({self._h!r})"

    def __getattr__(self, name):
        if name.startswith("_") or name in ("numpy", "__cuda_array_interface__", "device"):
            raise AttributeError(name)
        v = getattr(self._h, name)
        if callable(v):
            cls = type(self)
            return lambda *a, **k: cls.wrap(v(*cls.unwrap(a), **cls.unwrap(k)))
        return self.wrap(v) if isinstance(v, np.ndarray) else v


class Lib(types.ModuleType):
    """Module with the functions of NumPy, acting on device arrays only."""

    def __init__(self, name, arr, src=np):
        super().__init__(name)
        self.__dict__["_arr"], self.__dict__["_src"] = arr, src
        self.__path__ = []
        if src is np:
            self.ndarray = arr

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = getattr(self._src, name)
        arr = self._arr
        if isinstance(v, types.ModuleType):
            return Lib(self.__name__ + "." + name, arr, v)
        if isinstance(v, type) or not callable(v):
            return v
        return lambda *a, **k: arr.wrap(v(*arr.unwrap(a), **arr.unwrap(k)))

    def array(self, obj, dtype=None, copy=True, **k):
        if isinstance(obj, self._arr):
            return self._arr(np.array(obj._h, dtype=dtype))
        if isinstance(obj, (list, tuple)) and any(isinstance(o, self._arr) for o in obj):
            return self._arr(np.array(self._arr.unwrap(list(obj)), dtype=dtype))
        if isinstance(obj, Dev):
            raise TypeError(f"Unsupported type {type(obj)}")
        h = np.array(obj, dtype=dtype)
        if h.dtype == object:
            raise ValueError("Unsupported dtype object")
        transfer()
        return self._arr(h)

    def asarray(self, obj, dtype=None, **k):
        if isinstance(obj, self._arr) and dtype is None:
            return obj
        return self.array(obj, dtype)

    ascontiguousarray = asarray

    def copy(self, a, *r, **k):
        return a.copy()

    def copyto(self, dst, src, *r, **k):
        if not isinstance(dst, self._arr):
            raise TypeError("destination is not on the device")
        dst._h[...] = self._arr.unwrap(src)

    def asnumpy(self, a, *r, **k):
        return a.get() if isinstance(a, self._arr) else np.asarray(a)

    def default_rng(self, seed=None):
        g, arr = np.random.default_rng(seed), self._arr

        class Gen:
            def __getattr__(self, name):
                f = getattr(g, name)
                return lambda *a, **k: arr.wrap(f(*a, **k))
        return Gen()


def array_type(name):
    return type(f"{name}_ndarray", (Dev,), {})


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Finds the simulated libraries; kinds: absent, ok, broken."""

    def __init__(self, kinds):
        self.kinds = kinds
        self.arr = {n: array_type(n) for n in kinds}

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if self.kinds.get(top, "absent") == "absent":
            return None
        if top == "tensorflow" and name not in ("tensorflow", "tensorflow.experimental", "tensorflow.experimental.numpy"):
            return None
        return importlib.machinery.ModuleSpec(name, self, is_package=True)

    def create_module(self, spec):
        if self.kinds[spec.name.split(".")[0]] == "broken":
            raise ImportError("simulated: libcuda.so.1: cannot open shared object file")
        if spec.name in ("tensorflow", "tensorflow.experimental"):
            m = types.ModuleType(spec.name)
            m.__path__ = []
            return m
        return Lib(spec.name, self.arr[spec.name.split(".")[0]])

    def exec_module(self, module):
        pass


def install(kinds):
    """Make the simulated libraries importable and import the package again."""
    from . import boot

    f = Finder(kinds)
    sys.meta_path.insert(0, f)
    for n in [m for m in sys.modules if m.split(".")[0] in ("modopt", *kinds)]:
        del sys.modules[n]
    boot.import_code()
    return f.arr
