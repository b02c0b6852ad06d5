import numpy as np
from _stubmissing import module_getattr as _mg
__getattr__ = _mg('scipy.interpolate')


class NearestNDInterpolator(object):
    def __init__(self, x, y, rescale=False):
        self.points = np.asarray(x, dtype=np.float64)
        if len(self.points) == 0:
            raise ValueError('No points given')
        self.values = y

    def __call__(self, *args):
        xi = args[0] if len(args) == 1 else args
        if isinstance(xi, tuple):
            xi = np.stack([np.asarray(c, dtype=np.float64) for c in xi],
                          axis=-1)
        xi = np.asarray(xi, dtype=np.float64)
        flat = xi.reshape(-1, xi.shape[-1])
        idx = np.empty(len(flat), dtype=np.int64)
        for k, p in enumerate(flat):
            d = ((self.points - p) ** 2).sum(axis=1)
            idx[k] = int(np.argmin(d))
        return self.values[idx].reshape(xi.shape[:-1])
