"""Stand-in for numba: every compiled function runs as the Python it is.

numba's contract is that a jitted function computes what its Python source
says, so the source itself is what the checks execute."""
import functools as _ft

import numpy as _np

from _stubmissing import module_getattr as _mg

__getattr__ = _mg('numba')
__version__ = '0.36.0'


class _Type(object):
    """A type object: callable (signature), indexable (array of)."""
    def __init__(self, name):
        self.name = name

    def __call__(self, *args, **kwargs):
        return _Type(self.name + '(...)')

    def __getitem__(self, item):
        return _Type(self.name + '[...]')

    def __repr__(self):
        return self.name


_MA = _np.ma.MaskedArray


def _plain(x):
    """numba sees only the data of a masked array."""
    if type(x) is _MA:
        return x.data
    if type(x) is tuple:
        for y in x:
            if type(y) is _MA:
                return tuple(_plain(z) for z in x)
    return x


def _compile(fn):
    def wrapper(*args, **kwargs):
        for a in args:
            t = type(a)
            if t is _MA or t is tuple:
                args = tuple([_plain(b) for b in args])
                break
        return fn(*args, **kwargs)
    _ft.update_wrapper(wrapper, fn)
    wrapper.py_func = fn
    return wrapper


def _identity(args, kwargs):
    if len(args) == 1 and not kwargs and callable(args[0]) \
            and not isinstance(args[0], (_Type, str)):
        return _compile(args[0])
    return _compile


def jit(*args, **kwargs):
    return _identity(args, kwargs)


njit = jit
autojit = jit


def vectorize(*args, **kwargs):
    def deco(fn):
        @_ft.wraps(fn)
        def wrapper(*xs):
            if all(_np.ndim(x) == 0 for x in xs):
                return _np.float64(fn(*[_np.float64(x) for x in xs]))
            bs = _np.broadcast_arrays(*[_np.asarray(x, dtype=_np.float64)
                                        for x in xs])
            out = _np.empty(bs[0].shape)
            for ix in _np.ndindex(*bs[0].shape):
                out[ix] = fn(*[b[ix] for b in bs])
            return out
        wrapper.py_func = fn
        return wrapper
    if len(args) == 1 and not kwargs and callable(args[0]) \
            and not isinstance(args[0], _Type):
        return deco(args[0])
    return deco


def guvectorize(*args, **kwargs):
    from _stubmissing import StubMissing
    raise StubMissing('numba.guvectorize')


def generated_jit(*args, **kwargs):
    from numba import types

    def deco(fn):
        @_ft.wraps(fn)
        def wrapper(*xs):
            ts = [types.Array.of(x) if _np.ndim(x) else
                  (types.Integer() if isinstance(x, (int, _np.integer))
                   else types.Float()) for x in xs]
            return fn(*ts)(*xs)
        return wrapper
    if len(args) == 1 and not kwargs and callable(args[0]):
        return deco(args[0])
    return deco


def typeof(x):
    return _Type(repr(x))


def optional(x):
    return _Type('optional')


prange = range
for _n in ('f4 f8 float32 float64 i1 i2 i4 i8 int8 int16 int32 int64 u1 u2 u4 '
           'u8 uint8 uint32 uint64 intp uintp void boolean b1 bool_ none '
           'c8 c16 complex64 complex128').split():
    globals()[_n] = _Type(_n)


class _NumpySupport(object):
    pass


from numba import types  # noqa: E402
from numba import typing  # noqa: E402
