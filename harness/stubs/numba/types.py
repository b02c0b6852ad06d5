from numba import _Type, optional  # noqa: F401
from _stubmissing import module_getattr as _mg

__getattr__ = _mg('numba.types')


class Float(_Type):
    def __init__(self, name='float'):
        _Type.__init__(self, name)


class Integer(_Type):
    def __init__(self, name='int'):
        _Type.__init__(self, name)


class Array(_Type):
    def __init__(self, *args, **kwargs):
        _Type.__init__(self, 'array')
        self.ndim = 1

    @classmethod
    def of(cls, x):
        import numpy as np
        a = cls()
        a.ndim = np.ndim(x)
        return a


Number = Float


def Tuple(*args, **kwargs):
    return _Type('Tuple')


UniTuple = List = Optional = Tuple

for _n in ('f4 f8 float32 float64 i1 i2 i4 i8 int8 int16 int32 int64 u1 u2 u4 '
           'u8 uint8 uint32 uint64 intp uintp void boolean b1 bool_ none '
           'unicode_type string').split():
    globals()[_n] = _Type(_n)
