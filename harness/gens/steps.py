import math

from hypothesis import strategies as st
from driver import Test
from gens.common import real, vec, angle, pos, seed, tiling, \
    truth
from gens.fields import ring
from gens.steering import followers, scene

models = st.sampled_from(['circular', 'three_circle'])
PARTS = ['adjust', 'orient', 'agents', 'obstacles', 'fluctuate']


@st.composite
def walker(draw, m, k, n, box):
    side = int(math.ceil(math.sqrt(max(n, 1))))
    cell = 2.0 * box / side
    # one per square, so that nobody stands on another's centre
    u, v = draw(pos(0.1, 0.9)), draw(pos(0.1, 0.9))
    a = draw(angle)
    d = {'position': [-box + (k % side + u) * cell,
                      -box + (k // side + v) * cell],
         'velocity': draw(st.one_of(vec(-2, 2), st.just([0.0, 0.0]))),
         'target_direction': draw(st.sampled_from([[0.0, 0.0], [
             math.cos(a), math.sin(a)]])),
         'radius': draw(pos(0.2, 0.3)), 'mass': draw(pos(40, 100)),
         'force_prev': draw(st.sampled_from([[0.0, 0.0], [12.5, -7.0]])),
         'force': draw(st.sampled_from([[0.0, 0.0], [3.0, 40.0]])),
         'active': draw(st.integers(0, 4)) != 4}
    if m == 'three_circle':
        d['orientation'] = draw(angle)
        d['angular_velocity'] = draw(real(-3, 3))
        d['target_orientation'] = draw(angle)
        d['torque'] = draw(st.sampled_from([0.0, -2.0]))
    return d


segs = st.lists(st.tuples(vec(-3, 3), vec(-3, 3)).map(list).filter(
    lambda s: s[0] != s[1]), max_size=3)


@st.composite
def motion(draw):
    m = draw(models)
    n = draw(st.integers(0, 6))
    box = draw(st.sampled_from([0.5, 1.0, 2.5]))
    dt = draw(pos(0.001, 0.05))
    lo = draw(st.sampled_from([dt, dt * 0.1, dt * 0.5]))
    return {'model': m, 'walls': draw(segs),
            # walls that are moved between two steps
            'rebuilt': draw(st.one_of(st.none(), st.none(), st.tuples(
                st.integers(1, 2), segs).map(list))),
            'tile': draw(tiling([24, 40], (2 * box + 0.3, 9.0))),
            'agents': [draw(walker(m, k, n, box)) for k in range(n)],
            'parts': draw(st.lists(st.sampled_from(PARTS), unique=True,
                                   max_size=5)),
            'std': draw(st.sampled_from([0.0, 0.0, 0.1])),
            'dt': [lo, dt], 'cell': draw(st.sampled_from([None, 3.6, 5.0])),
            'steps': draw(st.integers(1, 3)), 'nest': draw(st.booleans()),
            'default_dt': draw(st.integers(0, 3)) == 3, 'seed': draw(seed)}


@st.composite
def states(draw):
    dom = draw(ring())
    n = draw(st.integers(0, 5))
    targets = draw(st.lists(st.one_of(
        st.tuples(st.just('polygon'), ring()),
        st.tuples(st.just('line'), st.lists(vec(-9, 9), min_size=2,
                                            max_size=3))).map(list),
        max_size=3))
    rings = [dom] + [c for k, c in targets if k == 'polygon']

    def spot():
        r = draw(st.sampled_from(rings + [None]))
        if r is None:
            return draw(vec(-14, 14))
        k = draw(st.integers(0, len(r) - 1))
        j = draw(st.integers(1, len(r) - 2))
        a, b, c = r[k], r[(k + j) % len(r)], r[(k + j + 1) % len(r)]
        u, v = draw(pos(0.1, 0.9)), draw(pos(0.1, 0.9))
        return [a[k] * (1 - u) + u * (b[k] * (1 - v) + v * c[k])
                for k in (0, 1)]
    moves = [[spot() for _ in range(n)]
             for _ in range(draw(st.integers(1, 5)))]
    return {'model': draw(models), 'domain': dom, 'targets': targets,
            'moves': moves, 'active': [draw(st.booleans()) or
                                       draw(st.booleans())
                                       for _ in range(n)],
            'order': draw(st.integers(0, 3))}


@st.composite
def navigation(draw):
    s = draw(scene())
    t = [s['target'], draw(scene(walls=False))['target']]
    s['targets'] = t[:draw(st.integers(1, 2))]
    n = draw(st.integers(0, 6))
    where = st.one_of(
        st.tuples(pos(0, 1), pos(0, 1)), st.tuples(pos(0, 1), pos(0, 1)),
        st.tuples(pos(1.3, 3), pos(0, 1)), st.tuples(pos(-2, -0.3), pos(0, 1)),
        st.tuples(pos(0, 1), st.one_of(pos(1.3, 3), pos(-2, -0.3))))
    return {'scene': s, 'model': draw(models),
            'rows': [{'target': draw(st.sampled_from([-1, 0, 0, 1, 1, 3])),
                      'active': draw(st.booleans()),
                      'target_direction': draw(st.sampled_from(
                          [[0.0, 0.0], [0.6, 0.8], [-1.0, 0.0]]))}
                     for _ in range(n)],
            'moves': [[draw(where) for _ in range(n)]
                      for _ in range(draw(st.integers(1, 2)))],
            'step': draw(st.sampled_from([0.5, 0.4, 0.7])),
            'radius': draw(st.sampled_from([0.8, 1.2])),
            'strength': draw(st.sampled_from([0.3, 0.6]))}


@st.composite
def crowd(draw):
    c = draw(followers())
    c['doors'] = draw(st.lists(st.tuples(vec(-15, 15), vec(-2, 2)).map(list),
                               min_size=1, max_size=4))
    c['range'] = draw(st.one_of(pos(1, 30), st.sampled_from([5.0, 20.0])))
    c['node'] = draw(st.sampled_from(['exit', 'leader', 'herding', 'exit']))
    c['defaults'] = draw(st.integers(0, 3)) == 3
    return c


@st.composite
def saving(draw):
    n = draw(st.integers(0, 4))
    steps = draw(st.integers(1, 8))
    return {'model': draw(models), 'n': n,
            'moves': [[draw(vec(-5, 5)) for _ in range(n)]
                      for _ in range(steps)],
            'dump': [draw(st.booleans()) for _ in range(steps)],
            'truth': draw(truth),
            'inject': draw(st.booleans()), 'data': draw(st.booleans()),
            'obstacles': draw(st.booleans()),
            'spawns': draw(st.integers(0, 2)), 'named': draw(st.booleans()),
            'there': draw(st.integers(0, 2)) == 2}


PROPS = {
    'C26': [
        Test('motion', motion(), quick=1000, thorough=20000,
             rule='crowds with walls under random trees of motion nodes for '
                  'up to three steps; non-trivial with two motion nodes and '
                  'agents'),
        Test('states', states(), quick=1200, thorough=30000,
             rule='agents moving in and out of domain and targets; '
                  'non-trivial when some agent leaves or reaches a target'),
        Test('navigation', navigation(), quick=400, thorough=6000,
             timeout=120,
             rule='agents with several targets on and off the grid; '
                  'non-trivial when one is directed and one is not'),
        Test('following', crowd(), quick=1500, thorough=40000,
             rule='crowds under exit detection, leader following or herding '
                  'nodes; non-trivial when some follower changes'),
        Test('saving', saving(), quick=500, thorough=8000,
             rule='recorded runs with random dump conditions; non-trivial '
                  'with agents and two dumps')],
}
