"""Stand-in for numba: runs the Python source of compiled functions.

Keeps the parts of the contract the properties depend on:
  * compiled code has its own random state (swapped in on the outermost call);
  * compilation options are recorded on the dispatcher;
  * set_num_threads validates its range;
  * a prange loop of a parallel=True function (outermost one only) runs in an
    order - or interleaving - owned by the harness.
"""
import os as _os
import numpy as _np
from . import _sched
from ._sched import prange, pndindex   # noqa: F401

__version__ = "0.57.1"
__vf_shim__ = True

_registry = []          # every dispatcher made, in creation order
_depth = 0
_numba_state = _np.random.RandomState(987654321).get_state()


def _scramble(seed):
    """Harness hook: put the compiled-code random state in an arbitrary state."""
    global _numba_state
    _numba_state = _np.random.RandomState(int(seed) % (2 ** 32)).get_state()


class Dispatcher:
    def __init__(self, py_func, options):
        self.py_func = py_func
        self.targetoptions = dict(options)
        self.__name__ = getattr(py_func, "__name__", "?")
        self.__qualname__ = getattr(py_func, "__qualname__", self.__name__)
        self.__doc__ = py_func.__doc__
        self.__module__ = py_func.__module__
        self.__wrapped__ = py_func
        self._parallel = bool(options.get("parallel", False))
        self._inter = None
        _registry.append(self)

    def __call__(self, *args, **kwargs):
        global _depth, _numba_state
        if _depth:
            if _sched.mode is not None:
                return _sched.call(self, args, kwargs)
            return self.py_func(*args, **kwargs)
        glob = _np.random.get_state()
        _np.random.set_state(_numba_state)
        _depth += 1
        try:
            if _sched.mode is not None:
                return _sched.call(self, args, kwargs)
            return self.py_func(*args, **kwargs)
        finally:
            _depth -= 1
            _numba_state = _np.random.get_state()
            _np.random.set_state(glob)

    def __get__(self, obj, typ=None):
        if obj is None:
            return self
        import functools
        return functools.partial(self, obj)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return _rebuild, (self.__module__, self.__qualname__, _registry.index(self))

    def compile(self, *a, **k):
        pass

    def disable_compile(self, *a, **k):
        pass

    @property
    def signatures(self):
        return []


def _rebuild(module, qualname, index):
    import importlib
    o = importlib.import_module(module)
    try:
        for n in qualname.split("."):
            o = getattr(o, n)
    except AttributeError:
        o = None
    return o if isinstance(o, Dispatcher) else _registry[index]


def jit(*args, **kwargs):
    if len(args) == 1 and callable(args[0]) and not isinstance(args[0], (_Ty, type)):
        return Dispatcher(args[0], kwargs)

    def deco(f):
        return Dispatcher(f.py_func if isinstance(f, Dispatcher) else f, kwargs)
    return deco


njit = jit
generated_jit = jit


def vectorize(*args, **kwargs):
    def deco(f):
        return _np.vectorize(f)
    if len(args) == 1 and callable(args[0]) and not isinstance(args[0], _Ty):
        return deco(args[0])
    return deco


def _cpu():
    return _os.cpu_count() or 1


class config:
    NUMBA_NUM_THREADS = _cpu()
    NUMBA_DEFAULT_NUM_THREADS = _cpu()
    DISABLE_JIT = 0


_threads = _cpu()


def set_num_threads(n):
    global _threads
    if isinstance(n, bool) or not isinstance(n, (int, _np.integer)):
        raise TypeError("The number of threads specified must be an integer")
    if n < 1 or n > config.NUMBA_NUM_THREADS:
        raise ValueError("The number of threads must be between 1 and %s"
                         % config.NUMBA_NUM_THREADS)
    _threads = int(n)


def get_num_threads():
    return _threads


def get_thread_id():
    return 0


def literal_unroll(x):
    return x


class objmode:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class _Ty:
    """A type placeholder usable in signatures: float64[:, ::1](int64)."""

    def __init__(self, name):
        self.name = name

    def __getitem__(self, item):
        return self

    def __call__(self, *a):
        if len(a) == 1 and hasattr(_np, self.name):
            return getattr(_np, self.name)(a[0])
        return self

    def __repr__(self):
        return self.name


from . import types, extending, core    # noqa: E402,F401
from .core import errors                # noqa: E402,F401

for _n in ("float64", "float32", "int64", "int32", "int16", "int8", "uint8",
           "uint16", "uint32", "uint64", "boolean", "bool_", "intp", "uintp",
           "void", "b1", "i4", "i8", "f4", "f8", "complex128"):
    globals()[_n] = _Ty(_n)


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    if name == "typed":
        import importlib
        return importlib.import_module("numba.typed")
    return _Ty(name)
