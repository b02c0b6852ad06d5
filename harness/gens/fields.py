import math

from hypothesis import strategies as st
from driver import Test
from gens.common import real, vec, angle, pos, seed
from gens.storage import single, multi
from gens.steering import scene

pt = vec(-9, 9)


@st.composite
def ring(draw):
    """A simple polygon: star shaped around a centre."""
    n = draw(st.integers(3, 7))
    c = draw(pt)
    t0 = draw(angle)
    return [[c[0] + r * math.cos(t0 + 2 * math.pi * k / n),
             c[1] + r * math.sin(t0 + 2 * math.pi * k / n)]
            for k, r in enumerate(draw(st.lists(
                pos(0.5, 4), min_size=n, max_size=n)))]


@st.composite
def bow(draw):
    """A polygon that crosses itself."""
    a, b = draw(pt), draw(pt)
    w, h = draw(pos(0.5, 4)), draw(pos(0.5, 4))
    return [a, [a[0] + w, a[1] + h], [a[0] + w, a[1]], [a[0], a[1] + h]]


geoms = st.one_of(
    st.tuples(st.just('polygon'), ring()),
    st.tuples(st.just('bow'), bow()),
    st.tuples(st.just('empty'), st.sampled_from(
        ['polygon', 'collection', 'multipolygon', 'multilinestring'])),
    st.tuples(st.just('line'), st.lists(pt, min_size=2, max_size=4,
                                        unique_by=tuple)),
    st.tuples(st.just('polygons'), st.lists(st.one_of(ring(), ring(), bow()),
                                            min_size=1, max_size=3)),
    st.tuples(st.just('none'), st.none()),
    st.tuples(st.just('wrong'), st.sampled_from([3, 'x', [1, 2]]))).map(list)

valid = st.fixed_dictionaries({
    'ops': st.lists(st.tuples(st.sampled_from(['domain', 'obstacles']), geoms)
                    .map(list), min_size=1, max_size=5),
    'init': st.booleans()})

part = st.one_of(
    st.tuples(st.just('polygon'), ring()),
    st.tuples(st.just('line'), st.lists(pt, min_size=2, max_size=4,
                                        unique_by=tuple))).map(list)
parts = st.integers(0, 9).flatmap(lambda k: st.lists(
    part, min_size=4, max_size=9) if k == 9 else st.lists(part, max_size=3))
hull = st.fixed_dictionaries({'obstacles': parts, 'targets': parts,
                              'spawns': parts})


@st.composite
def samples(draw):
    """A rectangle, rotated, some with a wall along (or beyond) one side."""
    out = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.integers(0, 3))
        if k == 0:
            n = draw(st.integers(3, 7))
            t0, r, c = draw(angle), draw(pos(1, 5)), draw(pt)
            ts = sorted(draw(st.lists(st.integers(0, 23), min_size=n,
                                      max_size=n, unique=True)))
            ring_ = [[c[0] + r * math.cos(t0 + t * math.pi / 12),
                      c[1] + r * math.sin(t0 + t * math.pi / 12)]
                     for t in ts]
            out.append({'ring': ring_})
        else:
            out.append({'size': [draw(pos(1.5, 6)), draw(pos(1.5, 6))],
                        'at': draw(vec(-9, 9)), 'turn': draw(angle)})
    return {'spawns': out, 'index': draw(st.integers(0, len(out) - 1)),
            'radius': draw(st.one_of(st.none(), pos(0.05, 0.7))),
            'wall': draw(st.sampled_from(['none', 'line', 'line', 'block'])),
            'offset': draw(pos(-0.6, 0.6)), 'n': 60,
            'seed': draw(seed)}


query = st.one_of(
    st.tuples(st.just('nav'), st.sampled_from([0, 0, 1, 2, 'closest', 'i0',
                                               'i1']),
              st.sampled_from([0, 1]), st.sampled_from([0.5, 0.8]),
              st.sampled_from([0.3, 0.6])),
    st.tuples(st.just('path'), st.sampled_from([0, 1, 2, 'closest', 'i1']),
              st.sampled_from([0, 1]), st.sampled_from([0.5, 0.8])),
    st.tuples(st.just('mesh'), st.sampled_from([0, 1])),
    st.tuples(st.just('obs'), st.sampled_from([0, 1])),
    st.tuples(st.just('bad'), st.sampled_from(['nearest', None, 1.5, 'x']),
              st.sampled_from([0, 1]))).map(list)


@st.composite
def maps(draw):
    fields = []
    for _ in range(draw(st.integers(1, 2))):
        s = draw(scene())
        t = [s['target'], draw(scene(walls=False))['target'],
             draw(scene(walls=False))['target']]
        s['targets'] = t[:draw(st.integers(0, 3))] if draw(
            st.integers(0, 5)) == 5 else t
        s['nodomain'] = draw(st.integers(0, 9)) == 9
        fields.append(s)
    return {'fields': fields, 'steps': [0.5, draw(pos(0.4, 0.7))],
            'queries': draw(st.lists(st.tuples(
                st.integers(0, len(fields) - 1), query), min_size=1,
                max_size=6))}


PROPS = {
    'C25': [
        Test('valid', valid, quick=1500, thorough=30000,
             rule='sequences of assigned domains and obstacles; non-trivial '
                  'when one is refused and one accepted'),
        Test('hull', hull, quick=1200, thorough=30000,
             rule='fields of random parts; non-trivial with parts of two '
                  'kinds'),
        Test('samples', samples(), quick=800, thorough=15000,
             rule='convex spawns, some along a wall, 60 samples each; '
                  'non-trivial with a wall that narrows the spawn'),
        Test('maps', maps(), quick=350, thorough=6000, timeout=120,
             rule='sequences of queries to one or two fields; non-trivial '
                  'when a query repeats or two fields are asked')],
}
