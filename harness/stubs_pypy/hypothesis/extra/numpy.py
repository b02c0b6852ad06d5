import numpy as np

from _stubmissing import module_getattr as _mg
from hypothesis.strategies import SearchStrategy, floats
__getattr__ = _mg('hypothesis.extra.numpy')


def arrays(dtype, shape, elements=None):
    dtype = np.dtype(dtype)
    if elements is None:
        elements = floats()

    def fn():
        s = shape._fn() if isinstance(shape, SearchStrategy) else shape
        a = np.zeros(s, dtype=dtype)
        flat = a.reshape(-1)
        for k in range(flat.size):
            flat[k] = elements._fn()
        return a
    return SearchStrategy(fn)
