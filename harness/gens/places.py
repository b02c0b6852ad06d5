import math

from hypothesis import strategies as st
from driver import Test
from gens.common import real, vec, angle, pos, lists, count
from gens.storage import single, multi

frac = st.integers(1, 300).map(lambda k: k / 100)
dy = st.integers(1, 96).map(lambda k: k / 32)
capacity = st.fixed_dictionaries({
    'door': st.one_of(pos(0, 4), dy, frac, st.just(0.0)),
    'agent': st.one_of(pos(0.1, 1), dy, frac),
    'layer': st.one_of(st.none(), pos(0.1, 1), dy, frac, st.just(0.45)),
    'coeff': st.one_of(st.none(), pos(0.1, 5))})

rank = st.fixed_dictionaries({
    'door': vec(-10, 10), 'p': lists(vec(-12, 12), 12, 80)})

detect = st.fixed_dictionaries({
    'doors': lists(vec(-10, 10), 4, 9, least=1),
    'p': lists(vec(-12, 12), 6, 80),
    'walls': st.lists(st.tuples(vec(-12, 12), vec(-12, 12)).map(list).filter(
        lambda s: s[0] != s[1]), max_size=7),
    'range': st.one_of(pos(1, 30), st.sampled_from([1.0, 5.0, 20.0]))})


@st.composite
def cloud(draw, lo=1, hi=14):
    cell = draw(st.sampled_from([0.25, 0.5, 1.0, 2.0, 4.0]))
    dyadic = draw(st.booleans())
    if not dyadic:
        cell = draw(pos(0.3, 4))
    c = draw(vec(-30, 30))
    w = draw(st.sampled_from([0.5, 2.0, 8.0])) * max(cell, 0.5)
    c = [round(x * 4) / 4 for x in c]
    n = draw(count(lo, hi, 70))
    if dyadic:
        m = max(1, int(w * 4))
        co = st.integers(-m, m).map(lambda k: k / 4)
    else:
        co = pos(-w, w)
    if draw(st.integers(0, 7)) == 7:      # far from the origin
        c = [x + 2.0 ** draw(st.integers(8, 20)) *
             draw(st.sampled_from([-1, 1])) for x in c]
    p = [[c[0] + draw(co), c[1] + draw(co)] for _ in range(n)]
    if draw(st.integers(0, 15)) == 15:    # a crush
        p *= draw(st.sampled_from([16, 40, 200, 300]))
    return {'p': p, 'cell': cell}


@st.composite
def voronoi(draw):
    n = draw(count(3, 12, 36, 31))
    cell = draw(st.sampled_from([0.5, 1.0, 2.0]) | pos(0.4, 3))
    c = draw(vec(-20, 20))
    w = draw(pos(0.6, 4)) * cell
    p = []
    if draw(st.booleans()) and n >= 5:     # a frame of agents around
        k = n // 2 + 2
        t0 = draw(angle)
        for i in range(k):
            t = t0 + 2 * math.pi * (i + 0.3 * draw(pos(-1, 1))) / k
            p.append([c[0] + w * math.cos(t), c[1] + w * math.sin(t)])
    while len(p) < n:
        p.append([c[0] + draw(pos(-w, w)), c[1] + draw(pos(-w, w))])
    return {'p': p, 'cell': cell, 'perm': draw(st.permutations(
        list(range(len(p)))))}


bbox = st.integers(1, 4).flatmap(lambda d: st.lists(
    st.lists(real(-50, 50), min_size=d, max_size=d), min_size=1,
    max_size=12))


@st.composite
def shapes(draw):
    g = draw(st.one_of(single, multi))
    return {'geom': g, 'others': draw(st.lists(single, max_size=3)),
            'wrong': draw(st.sampled_from(['none', 'str', 'int', 'list',
                                           'coords', 'array']))}


PROPS = {
    'C17': [
        Test('exit_capacity', capacity, quick=2500, thorough=60000,
             rule='widths on and off multiples; non-trivial when the door is '
                  'wide enough'),
        Test('exit_rank', rank, quick=1500, thorough=40000,
             rule='positions with ties; non-trivial for two or more'),
        Test('exit_detect', detect, quick=2500, thorough=60000,
             rule='doors, agents, walls; non-trivial when an agent sees some '
                  'but not all doors in range')],
    'C18': [
        Test('classical', cloud(), quick=2000, thorough=50000,
             rule='points on and off cell borders; non-trivial when several '
                  'agents share a cell'),
        Test('boxes', bbox, quick=800, thorough=20000,
             rule='points in one to four dimensions; non-trivial for two or '
                  'more points'),
        Test('voronoi', voronoi(), quick=500, thorough=8000,
             rule='three to twelve agents; non-trivial when the diagram '
                  'covers the area they span, so that every cell is '
                  'compared')],
    'C19': [Test('convert', shapes(), quick=2500, thorough=60000,
                 rule='geometries of every kind; non-trivial with two or '
                      'more segments')],
}
