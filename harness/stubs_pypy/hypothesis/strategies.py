import functools
import math

import hypothesis
from _stubmissing import module_getattr as _mg
from hypothesis.errors import InvalidArgument, UnsatisfiedAssumption
__getattr__ = _mg('hypothesis.strategies')


def R():
    return hypothesis.RANDOM


class SearchStrategy(object):
    def __init__(self, fn):
        self._fn = fn

    def do_draw(self):
        return self._fn()

    def example(self, random=None):
        return self._fn()

    def filter(self, cond):
        def fn():
            for _ in range(1000):
                v = self._fn()
                if cond(v):
                    return v
            raise UnsatisfiedAssumption
        return SearchStrategy(fn)

    def map(self, f):
        return SearchStrategy(lambda: f(self._fn()))

    def flatmap(self, f):
        return SearchStrategy(lambda: f(self._fn())._fn())

    def __or__(self, other):
        return one_of(self, other)


def one_of(*args):
    if len(args) == 1 and isinstance(args[0], (list, tuple)):
        args = args[0]
    return SearchStrategy(lambda: R().choice(list(args))._fn())


def just(value):
    return SearchStrategy(lambda: value)


def none():
    return just(None)


def sampled_from(values):
    values = list(values)
    return SearchStrategy(lambda: R().choice(values))


def booleans():
    return sampled_from([False, True])


def integers(min_value=None, max_value=None):
    def fn():
        a = -10 ** 6 if min_value is None else min_value
        b = 10 ** 6 if max_value is None else max_value
        if min_value is None:
            a = min(a, b - 10 ** 6)
        if max_value is None:
            b = max(b, a + 10 ** 6)
        return R().choice([a, b, R().randint(a, b), R().randint(a, b)])
    return SearchStrategy(fn)


def floats(min_value=None, max_value=None, allow_nan=None,
           allow_infinity=None):
    lo = None if min_value is None else float(min_value)
    hi = None if max_value is None else float(max_value)
    if lo is not None and hi is not None and lo > hi:
        raise InvalidArgument('no floats between %r and %r' % (lo, hi))
    if allow_nan is None:
        allow_nan = lo is None and hi is None
    elif allow_nan and (lo is not None or hi is not None):
        raise InvalidArgument('Cannot have allow_nan with a bound')
    if allow_infinity is None:
        allow_infinity = lo is None or hi is None
    elif allow_infinity and lo is not None and hi is not None:
        raise InvalidArgument('Cannot have allow_infinity with both bounds')

    def fn():
        a = -1e6 if lo is None else lo
        b = 1e6 if hi is None else hi
        if lo is None:
            a = min(a, b - 1e6)
        if hi is None:
            b = max(b, a + 1e6)
        special = [a, b, 0.0, -0.0, 1e-9, -1e-9, 1e-300, 1.0, -1.0, 5.0,
                   1e17, -1e17]
        if allow_nan:
            special += [float('nan')] * 2
        if allow_infinity:
            special += [float('inf'), float('-inf')]
        for _ in range(50):
            k = R().random()
            v = R().choice(special) if k < 0.4 else R().uniform(a, b)
            if math.isnan(v):
                return v
            if (lo is None or v >= lo) and (hi is None or v <= hi):
                return v
        return a
    return SearchStrategy(fn)


def tuples(*args):
    return SearchStrategy(lambda: tuple(a._fn() for a in args))


def lists(elements, min_size=0, average_size=None, max_size=None,
          unique_by=None, unique=False):
    def fn():
        n = R().randint(min_size or 0, max_size if max_size is not None
                        else (min_size or 0) + 5)
        return [elements._fn() for _ in range(n)]
    return SearchStrategy(fn)


def fixed_dictionaries(mapping):
    return SearchStrategy(lambda: {k: s._fn() for k, s in mapping.items()})


def builds(target, *args, **kw):
    return SearchStrategy(lambda: target(
        *[a._fn() for a in args], **{k: s._fn() for k, s in kw.items()}))


def composite(f):
    @functools.wraps(f)
    def accept(*args, **kw):
        return SearchStrategy(lambda: f(lambda s: s._fn(), *args, **kw))
    return accept
