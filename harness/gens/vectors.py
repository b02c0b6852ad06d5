import math

from hypothesis import strategies as st
from driver import Test
from gens.common import real, vec, grid, angle, pos

# nothing whose square underflows
big = st.one_of(real(-10, 10), st.floats(-1e6, 1e6, allow_subnormal=False).map(
    lambda x: x if abs(x) > 1e-150 else 0.0),
                st.sampled_from([0.0, -0.0, 1.0, -1.0, 1e-9, 1e-100]))
bvec = st.tuples(big, big).map(list)
rad = st.one_of(
    st.floats(-1e4, 1e4, allow_subnormal=False),
    st.floats(-7, 7, allow_subnormal=False),
    st.integers(-9, 9).map(lambda k: k * math.pi),
    st.integers(-17, 17).map(lambda k: k * math.pi / 2),
    st.integers(-9, 9).flatmap(lambda k: st.sampled_from([-1, 1]).map(
        lambda s: math.nextafter(k * math.pi, s * math.inf))))

algebra = st.fixed_dictionaries({
    'rows': st.lists(st.tuples(bvec, bvec).map(list), min_size=1,
                     max_size=4),
    'rads': st.lists(rad, min_size=1, max_size=5),
    'weight': st.one_of(st.floats(0, 1), st.sampled_from([0.0, 0.5, 1.0])),
    # a length, or a little more or less than the length of a row
    'limit': st.one_of(st.floats(1e-3, 1e6), st.floats(1e-3, 1e6),
                       st.sampled_from([1 - 1e-3, 1 - 1e-6, 1.0, 1 + 1e-9,
                                        0.99]).map(lambda k: ['near', k]))})

# exact arithmetic: small dyadic coordinates
exact = st.integers(-12, 12).map(lambda k: k / 2)
exact_pt = st.tuples(exact, exact).map(list)
gen_pt = vec(-20, 20)


@st.composite
def segs(draw):
    """Two segments, often sharing a point or grazing one another."""
    base = exact_pt if draw(st.integers(0, 3)) else gen_pt
    p = [draw(base) for _ in range(4)]
    mode = draw(st.sampled_from(['free', 'end', 'tee', 'parallel', 'point']))
    if mode == 'end':
        p[draw(st.integers(2, 3))] = list(p[draw(st.integers(0, 1))])
    elif mode == 'tee':
        p[2] = [(p[0][0] + p[1][0]) / 2, (p[0][1] + p[1][1]) / 2]
    elif mode == 'parallel':
        k = draw(st.sampled_from([1, 2, -1, 0.5]))
        p[3] = [p[2][0] + k * (p[1][0] - p[0][0]),
                p[2][1] + k * (p[1][1] - p[0][1])]
    # powers of two keep the arithmetic exact
    k = draw(st.sampled_from([1.0, 1.0, 1.0, 2.0 ** -7, 2.0 ** -20, 64.0]))
    return [[x * k, y * k] for x, y in p]


@st.composite
def polygon(draw):
    n = draw(st.integers(0, 9))
    mode = draw(st.sampled_from(['any', 'star', 'convex', 'long']))
    if mode == 'long':
        # many vertices
        n = draw(st.integers(10, 300))
        r0, r1 = draw(pos(1, 9)), draw(pos(0, 0.9))
        c, w = draw(exact_pt), draw(st.integers(0, 7))
        v = [[c[0] + r0 * (1 + r1 * math.sin(w * t)) * math.cos(t),
              c[1] + r0 * (1 + r1 * math.sin(w * t)) * math.sin(t)]
             for t in [2 * math.pi * k / n for k in range(n)]]
    elif mode == 'any' or n < 3:
        v = draw(st.lists(exact_pt, min_size=n, max_size=n))
    else:
        # vertices around a centre by increasing angle: simple polygon
        c = draw(exact_pt)
        rs = draw(st.lists(pos(0.5, 9), min_size=n, max_size=n))
        if mode == 'convex':
            rs = [rs[0]] * n
        off = draw(st.floats(0, 1))
        v = [[c[0] + r * math.cos(2 * math.pi * (k + off) / n),
              c[1] + r * math.sin(2 * math.pi * (k + off) / n)]
             for k, r in enumerate(rs)]
    return {'v': v, 'shift': draw(st.integers(0, 8)),
            'move': draw(exact_pt), 'turn': draw(angle),
            'scale': draw(st.sampled_from([0.5, 1, 2, 3.7]))}


sight = st.fixed_dictionaries({
    'p': st.tuples(exact_pt, exact_pt).map(list),
    'obstacles': st.lists(st.tuples(exact_pt, exact_pt).map(list),
                          max_size=5)})

PROPS = {
    'C07': [Test('algebra', algebra, quick=2500, thorough=80000,
                 rule='rows of vectors, angles, a weight and a limit; '
                      'non-trivial when some vector is not zero')],
    'C08': [
        Test('intersect', segs(), quick=4000, thorough=120000,
             rule='segment pairs, many touching; non-trivial when not '
                  'parallel'),
        Test('area', polygon(), quick=2500, thorough=60000,
             rule='vertex lists and simple polygons; non-trivial when the '
                  'area is positive'),
        Test('sight', sight, quick=2500, thorough=60000,
             rule='a sight line and obstacles; non-trivial when obstacles '
                  'exist and not all of them block')],
}
