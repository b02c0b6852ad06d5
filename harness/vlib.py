"""Helpers shared by the executors (run inside the worker interpreter)."""
import math

import numpy as np


class Violation(Exception):
    """The code under test broke the property on this case."""
    def __init__(self, msg, tag=None):
        Exception.__init__(self, msg)
        self.tag = tag


class HarnessError(BaseException):
    """The harness cannot judge; never a verdict on the code."""


def check(cond, msg, *args, **kw):
    if not cond:
        raise Violation(msg % args if args else msg, kw.get('tag'))


TRUTH = {None: bool, 'np': np.bool_, 'int': int,
         'count': lambda b: 3 if b else 0}


def num(x):
    """A plain float of a scalar result (0-d arrays and length-1 included)."""
    a = np.asarray(x, dtype=np.float64)
    if a.size != 1:
        raise Violation('expected a single number, got shape %r' % (a.shape,))
    return float(a.reshape(-1)[0])


def vec(x):
    a = np.asarray(x, dtype=np.float64).reshape(-1)
    return [float(v) for v in a]


def same(a, b, rtol=1e-9, atol=1e-12):
    """Numbers equal up to tolerance; NaN equals NaN, inf equals inf."""
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(
            same(x, y, rtol, atol) for x, y in zip(a, b))
    a, b = float(a), float(b)
    if a == b:
        return True
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def require_same(a, b, what, rtol=1e-9, atol=1e-12, **kw):
    if not same(a, b, rtol, atol):
        raise Violation('%s: got %r, expected %r' % (what, a, b), kw.get('tag'))


def raises(excs, fn, *args, **kw):
    """The exception fn raised (one of excs) or None if it returned."""
    try:
        fn(*args, **kw)
    except excs as e:
        return e
    return None


def farr(rows, cols=2):
    return np.array(rows, dtype=np.float64).reshape(-1, cols)
