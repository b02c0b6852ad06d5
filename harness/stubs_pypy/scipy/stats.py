import numpy as np
from scipy import _rpc
from _stubmissing import module_getattr as _mg
__getattr__ = _mg('scipy.stats')


class _TruncNorm(object):
    @staticmethod
    def rvs(a, b, loc=0, scale=1, size=1, random_state=None):
        shape = () if size is None else (
            (size,) if np.isscalar(size) else tuple(size))
        if random_state is None:
            u = np.random.uniform(size=shape)
        elif isinstance(random_state, (int, np.integer)):
            u = np.random.RandomState(random_state).uniform(size=shape)
        else:
            u = random_state.uniform(size=shape)
        x = np.array(_rpc.call('truncnorm_ppf', u=u.ravel().tolist(),
                               a=float(a), b=float(b))).reshape(shape)
        out = np.asarray(loc) + np.asarray(scale) * x
        if out.shape != shape:
            raise ValueError('size does not match the broadcast shape of the '
                             'parameters')
        return out


truncnorm = _TruncNorm()
