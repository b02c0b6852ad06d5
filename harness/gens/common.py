"""Shared strategies (plain data)."""
import math

from hypothesis import strategies as st

grid = st.integers(-40, 40).map(lambda k: k / 4)


def real(lo=-10.0, hi=10.0):
    """Floats, quarter-grid values and the bounds themselves."""
    k0, k1 = math.ceil(lo * 4), math.floor(hi * 4)
    g = st.integers(k0, k1).map(lambda k: k / 4) if k0 <= k1 else st.just(lo)
    return st.one_of(st.floats(lo, hi, allow_subnormal=False).map(
        lambda x: x if abs(x) > 1e-9 else 0.0), g)


def vec(lo=-10.0, hi=10.0):
    return st.tuples(real(lo, hi), real(lo, hi)).map(list)


angle = st.one_of(
    st.floats(-math.pi, math.pi, allow_subnormal=False),
    st.integers(-8, 8).map(lambda k: k * math.pi / 8))


def pos(lo, hi):
    return st.floats(lo, hi, allow_subnormal=False)


seed = st.integers(0, 2 ** 31 - 1)


# how a yes or no is given (see vlib.TRUTH)
truth = st.sampled_from([None, None, 'np', 'int', 'count'])


def tiling(sizes, gap=(1.0, 12.0), walls=2, rare=12):
    """Mostly none; otherwise repeat the crowd up to so many agents (see
    execs.crowd.tiled)."""
    return st.integers(0, rare).flatmap(
        lambda k: st.tuples(st.sampled_from(sizes), pos(*gap),
                            pos(0.05, 3), st.integers(0, walls)).map(list)
        if k == rare else st.none())


def lists(item, most, large, rare=15, least=0, unique=False):
    """Mostly short lists, sometimes long ones."""
    return st.integers(0, rare).flatmap(
        lambda k: st.lists(item, min_size=(most + large) // 2,
                           max_size=large, unique=unique) if k == rare
        else st.lists(item, min_size=least, max_size=most, unique=unique))


def count(lo, hi, large, rare=15):
    """Mostly lo to hi, sometimes up to large."""
    return st.integers(0, rare).flatmap(
        lambda k: st.integers(hi, large) if k == rare
        else st.integers(lo, hi))
