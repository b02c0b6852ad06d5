import math

from hypothesis import strategies as st
from driver import Test
from gens.common import seed

bound = st.one_of(st.integers(-20, 20).map(lambda k: k / 4),
                  st.floats(-1e5, 1e5, allow_subnormal=False))


@st.composite
def limits(draw, finite=False):
    lo = draw(bound if finite else st.one_of(st.none(), bound))
    hi = draw(bound if finite else st.one_of(st.none(), bound))
    if lo is not None and hi is not None:
        lo, hi = min(lo, hi), max(lo, hi)
        if hi - lo < 1e-2:
            hi = lo + 1
    return [lo, hi]


zero = st.sampled_from([None, None, 'exact', 'near'])
reals = st.fixed_dictionaries({
    'limits': limits(), 'zero': zero, 'seed': seed,
    'shape': st.one_of(st.none(), st.integers(0, 3), st.lists(
        st.integers(0, 3), max_size=3)),
    'dtype': st.sampled_from([None, 'default', 'f8', 'f8'])})
units = st.fixed_dictionaries({
    'angles': st.one_of(st.none(), st.lists(
        st.integers(-16, 16).map(lambda k: k * math.pi / 8), min_size=2,
        max_size=2, unique=True).map(sorted)), 'seed': seed})
shapes = st.fixed_dictionaries({
    'kind': st.sampled_from(['points', 'linestrings', 'linestrings',
                             'polygons', 'polygons']),
    'limits': limits(finite=True), 'zero': zero, 'seed': seed,
    'num': st.one_of(st.none(), st.integers(2, 6)),
    'flag': st.sampled_from([None, True, False])})
agents = st.fixed_dictionaries({
    'model': st.sampled_from(['Circular', 'ThreeCircle']),
    'size': st.one_of(st.integers(0, 6), st.lists(
        st.integers(0, 6), min_size=2, max_size=2).map(sorted)),
    'attributes': st.lists(st.sampled_from([
        'radius', 'mass', 'target_velocity', 'position', 'velocity',
        'orientation', 'target', 'is_leader', 'body_type']), unique=True,
        max_size=6), 'seed': seed})

PROPS = {
    'C31': [
        Test('reals', reals, quick=1500, thorough=30000,
             rule='bounds, exclusions, shapes, ten draws each; non-trivial '
                  'with an exclusion or two bounds'),
        Test('units', units, quick=800, thorough=20000,
             rule='angle ranges, ten draws each; non-trivial with a range'),
        Test('shapes', shapes, quick=1500, thorough=20000,
             rule='points, lines and polygons, five draws each; non-trivial '
                  'with a number of vertices'),
        Test('agents', agents, quick=800, thorough=15000,
             rule='agent types with attribute strategies; non-trivial with '
                  'two or more agents')],
}
