from hypothesis import strategies as st
from driver import Test
from gens.common import real, vec, angle, pos, seed, tiling, lists, count


def agent(m):
    d = {'position': vec(-50, 50),
         'velocity': st.one_of(vec(-5, 5), st.just([0.0, 0.0])),
         'target_velocity': st.one_of(pos(0.1, 4), st.just(0.0)),
         'mass': pos(1, 120), 'radius': pos(0.1, 0.5),
         'force_prev': vec(-300, 300), 'active': st.booleans()}
    if m == 'three_circle':
        d.update({'orientation': angle, 'angular_velocity': real(-60, 60),
                  'inertia_rot': pos(0.2, 8), 'r_ts': pos(0.05, 0.3),
                  'torque_prev': real(-300, 300)})
    return st.fixed_dictionaries(d)


@st.composite
def steps(draw):
    m = draw(st.sampled_from(['circular', 'three_circle']))
    rows = draw(st.lists(agent(m), max_size=5))
    n = len(rows)
    if draw(st.integers(0, 7)) == 7:      # a crowd that hardly moves
        for r in rows:
            r['velocity'] = [1e-4 * c for c in r['velocity']]
            r['target_velocity'] *= 1e-4
    lo = draw(st.one_of(pos(0.0005, 0.2), st.sampled_from([0.001, 0.01])))
    hi = draw(st.one_of(st.just(lo), pos(lo, lo + 0.5)))
    k = draw(st.integers(1, 4))
    return {'model': m, 'agents': rows, 'dt': [lo, hi],
            'tile': draw(tiling([33, 70, 140, 300])),
            'kind': draw(st.sampled_from(['euler', 'verlet', 'verlet',
                                          'init'])),
            'forces': [[draw(st.one_of(vec(-500, 500), st.just([0.0, 0.0])))
                        for _ in range(n)] for _ in range(k)],
            'torques': [[draw(st.one_of(real(-400, 400), st.just(0.0)))
                         for _ in range(n)] for _ in range(k)]}


truncnorm = st.fixed_dictionaries({
    'start': st.one_of(pos(-4, 0.5), st.sampled_from([-3.0, -1.0])),
    'width': st.one_of(pos(0.2, 6), st.sampled_from([6.0, 3.0])),
    'loc': st.one_of(st.just(0.0), real(-50, 50)),
    'scale': pos(0.01, 20), 'array': st.booleans(),
    'abs_scale': st.one_of(st.none(), pos(0.01, 20)),
    'size': st.sampled_from([0, 1, 2, 7, 1500]), 'seed': seed,
    'state': st.one_of(st.none(), st.integers(0, 1000))})

rvec = st.fixed_dictionaries({
    'size': st.sampled_from([0, 1, 2, 9, 1500]),
    'orient': st.one_of(st.none(), st.tuples(real(-7, 7), pos(0, 7))),
    'mag': st.one_of(st.none(), pos(0.001, 100)), 'seed': seed})

poisson = st.fixed_dictionaries({
    'interval': pos(0.01, 10), 'ratio': st.sampled_from(
        [0.02, 0.5, 2.0, 3.0, 30.0, 400.0]), 'seed': seed})

timings = st.fixed_dictionaries({
    'players': lists(st.integers(0, 99), 7, 40, 11, unique=True),
    'times': st.lists(st.lists(pos(0, 1), max_size=5), min_size=7,
                      max_size=7),
    'interval': pos(0.05, 2), 'ratio': pos(0.1, 40), 'seed': seed})

point = vec(-20, 20)
line = st.fixed_dictionaries({
    'v': lists(point, 6, 90, 11, 2), 'seed': seed,
    'dup': st.integers(0, 8)})


@st.composite
def triangles(draw):
    return {'mesh': draw(lists(st.lists(point, min_size=3, max_size=3), 6,
                               60, 11, 1)),
            'seed': draw(seed)}


@st.composite
def hull(draw):
    import math
    n = draw(count(3, 8, 24, 11))
    c = draw(point)
    a, b, t = draw(pos(0.3, 9)), draw(pos(0.3, 9)), draw(angle)
    if draw(st.integers(0, 3)) == 3:
        q = [[-a, -b], [a, -b], [a, b], [-a, b]]
        t = draw(st.sampled_from([0.0, t]))
    else:
        phis = sorted(draw(st.lists(st.integers(0, 359), unique=True,
                                    min_size=n, max_size=n)))
        q = [[a * math.cos(math.radians(p)), b * math.sin(math.radians(p))]
             for p in phis]
    v = [[c[0] + math.cos(t) * x - math.sin(t) * y,
          c[1] + math.sin(t) * x + math.cos(t) * y] for x, y in q]
    return {'v': v, 'seed': draw(seed), 'closed': draw(st.booleans())}


PROPS = {
    'C14': [Test('integrate', steps(), quick=3000, thorough=80000,
                 rule='crowds (some of up to 300 agents) and one to four steps '
                      'with given forces; '
                      'non-trivial when agents exist')],
    'C15': [
        Test('truncated_normal', truncnorm, quick=500, thorough=8000,
             rule='truncations, scales and sizes; non-trivial for more than '
                  'one sample'),
        Test('vectors', rvec, quick=500, thorough=8000,
             rule='sizes, angles, lengths; non-trivial for more than one'),
        Test('clock', poisson, quick=500, thorough=8000,
             rule='windows from much shorter to much longer than the '
                  'interval; non-trivial when updates are expected'),
        Test('sequence', timings, quick=800, thorough=20000,
             rule='players with prescribed and with random times; '
                  'non-trivial with two or more updates')],
    'C16': [
        Test('on_line', line, quick=300, thorough=6000,
             rule='line strings; non-trivial with two or more parts'),
        Test('in_triangle', triangles(), quick=300, thorough=6000,
             rule='triangle meshes; non-trivial when all areas are '
                  'positive'),
        Test('in_polygon', hull(), quick=300, thorough=6000,
             rule='convex polygons; every one is non-trivial')],
}
