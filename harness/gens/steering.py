import math

from hypothesis import strategies as st
from driver import Test
from gens.common import real, vec, angle, pos, seed, tiling, count

mesh = st.fixed_dictionaries({
    'step': st.one_of(st.sampled_from([0.1, 0.25, 0.5, 1.0, 0.05]),
                      pos(0.05, 1.5)),
    'min': vec(-20, 20), 'size': st.tuples(pos(0.2, 6), pos(0.2, 6)),
    'p': st.lists(st.tuples(pos(0, 1), pos(0, 1)), max_size=12)})


@st.composite
def scene(draw, walls=True):
    """A rectangle with a target on its border or inside and up to three
    separate wall segments or blocks, as fractions of the rectangle."""
    w, h = 20 - draw(pos(6, 12)), 20 - draw(pos(6, 12))
    step = draw(st.sampled_from([0.25, 0.2, 0.3]))
    side = draw(st.integers(0, 5))
    a = draw(pos(0.1, 0.6))
    b = a + draw(pos(0.1, 0.3))
    t = {0: [[0, a], [0, b]], 1: [[1, a], [1, b]], 2: [[a, 0], [b, 0]],
         3: [[a, 1], [b, 1]], 4: [[a, .4], [b, .6]],
         5: [[a, .45], [b, .45], [b, .55], [a, .55]]}[side]
    obs = []
    if walls:
        for _ in range(draw(st.sampled_from([1, 2, 1, 2, 0]))):
            l, q = draw(pos(0.1, 0.2)), draw(angle)
            x, y = draw(pos(0.22, 0.78)), draw(pos(0.22, 0.78))
            if draw(st.booleans()):
                obs.append([[x - l * math.cos(q), y - l * math.sin(q)],
                            [x + l * math.cos(q), y + l * math.sin(q)]])
            else:
                obs.append([[x - l / 2, y - l / 2], [x + l / 2, y - l / 2],
                            [x + l / 2, y + l / 2], [x - l / 2, y + l / 2]])
    return {'min': draw(vec(-9, 9)), 'size': [w, h], 'step': step,
            'target': t, 'obstacles': obs,
            'starts': draw(st.lists(st.tuples(pos(0.02, 0.98),
                                              pos(0.02, 0.98)),
                                    min_size=1, max_size=4)),
            'buffer': draw(st.one_of(pos(2, 3), pos(3, 5))) * step}


@st.composite
def room(draw):
    """A rectangle walled in but for a door, with walls standing inside of it
    or attached to a side."""
    w, h = 20 - draw(pos(6, 12)), 20 - draw(pos(6, 12))
    step = draw(st.sampled_from([0.25, 0.2, 0.3]))
    walls = []
    for _ in range(draw(st.sampled_from([1, 2, 0]))):
        l, x = draw(pos(0.25, 0.5)), draw(pos(0.2, 0.8))
        k = draw(st.integers(0, 5))
        q = draw(angle)
        c, s = l / 2 * math.cos(q), l / 2 * math.sin(q)
        walls.append({0: [[0, x], [l, x]], 1: [[1, x], [1 - l, x]],
                      2: [[x, 0], [x, l]], 3: [[x, 1], [x, 1 - l]],
                      4: [[.5 - c, .5 - s], [.5 + c, .5 + s]],
                      5: [[x - .1, .5 - .1], [x + .1, .5 - .1],
                          [x + .1, .5 + .1], [x - .1, .5 + .1]]}[k])
    side = draw(st.integers(0, 3))
    a = draw(pos(0.05, 0.45))
    b = a + draw(pos(0.45, 0.5))
    return {'min': draw(vec(-9, 9)), 'size': [w, h], 'step': step,
            'side': side, 'door': [a, b], 'walls': walls,
            'buffer': draw(st.one_of(pos(1.5, 3), pos(3, 6))) * step}


@st.composite
def drawing(draw):
    """Shapes on a grid of unit cells: blocks with holes, with something in
    the hole, lines, points and groups of them, on a background."""
    n = 40
    shapes = []
    most = 4
    for _ in range(draw(count(1, 3, 16))):
        x, y = draw(real(0, 24)), draw(real(0, 24))
        w, h = draw(real(3, 14.5)), draw(real(3, 14.5))
        k = draw(st.integers(0, 5)) if most else draw(st.integers(0, 2))
        most -= 1 if most else 0
        block = [[x, y], [x + w, y], [x + w, y + h], [x, y + h]]
        if k == 0:
            shapes.append(['LineString', [[x, y], [x + w, y + h / 2],
                                          [x, y + h]]])
        elif k == 1:
            shapes.append(['Point', [x, y]])
        elif k == 2:
            shapes.append(['Polygon', [block[:draw(st.integers(3, 4))]]])
        else:
            x, y = draw(real(0, 8)), draw(real(0, 8))
            w, h = draw(real(18, 30)), draw(real(18, 30))

            def sub(a, b, c=None, d=None):
                c, d = a if c is None else c, b if d is None else d
                return [[x + a * w, y + c * h], [x + b * w, y + c * h],
                        [x + b * w, y + d * h], [x + a * w, y + d * h]]
            if k == 5:
                # holes side by side, sometimes turned
                c = draw(st.sampled_from([(.12, .42, .58, .88),
                                          (.58, .88, .12, .42)]))
                hs = [(c[0], c[1], .15, .85), (c[2], c[3], .15, .85)]
                if draw(st.booleans()):
                    hs = [q[2:] + q[:2] for q in hs]
                shapes.append(['Polygon', [sub(0, 1)] +
                               [sub(*q) for q in hs]])
                continue
            ring = ['Polygon', [sub(0, 1), sub(.17, .83)]]
            isle = ['Polygon', [sub(.38, .62)]]
            both = [ring, isle]
            shapes += both[::draw(st.sampled_from([1, -1]))] if k == 4 \
                else [ring]
    group = draw(st.sampled_from(['GeometryCollection', 'MultiPolygon',
                                  'each']))
    return {'n': n, 'shapes': shapes, 'group': group,
            'background': draw(st.sampled_from([0, -1, 7])),
            'value': draw(st.sampled_from([1, 3, True]))}


dirs = st.fixed_dictionaries({
    'shape': st.tuples(st.integers(2, 9), st.integers(2, 9)), 'seed': seed,
    'kind': st.sampled_from(['noise', 'plane', 'cone', 'flat']),
    'mask': st.booleans(), 'tilt': angle})

handling = st.fixed_dictionaries({
    'shape': st.tuples(st.integers(1, 7), st.integers(1, 7)), 'seed': seed,
    'radius': st.one_of(pos(0.05, 3), st.sampled_from([0.5, 1.0])),
    'strength': pos(0.05, 0.95),
    'grid': st.booleans(),
    'indices': st.lists(st.tuples(st.integers(-4, 10), st.integers(-4, 10)),
                        max_size=8)})


@st.composite
def followers(draw):
    n = draw(st.integers(0, 8))
    box = draw(st.sampled_from([2.0, 6.0, 15.0]))
    same = draw(angle)
    rows = []
    for _ in range(n):
        lead = draw(st.integers(0, 3))
        v = draw(st.one_of(vec(-2, 2), st.just([0.0, 0.0]), st.just(
            [math.cos(same), math.sin(same)]), vec(-2, 2)))
        rows.append({
            'position': draw(vec(-box, box)), 'velocity': v,
            'is_leader': lead == 1, 'is_follower': lead > 1,
            'target': draw(st.integers(-1, 3)),
            'index_leader': draw(st.integers(-1, n - 1)),
            'familiar_exit': draw(st.integers(-1, 3)),
            'target_direction': draw(vec(-1, 1))})
    walls = draw(st.lists(st.tuples(vec(-box, box), vec(-box, box)).map(
        list).filter(lambda s: s[0] != s[1]), max_size=3))
    return {'model': draw(st.sampled_from(['circular', 'three_circle'])),
            'agents': rows, 'walls': walls,
            'sight': draw(st.one_of(pos(1, 30), st.sampled_from([5.0, 20.0]))),
            'size': draw(st.integers(0, 6)),
            'tile': draw(tiling([24, 40, 70], (2.0, 25.0))),
            'phi': draw(st.one_of(st.none(), pos(0.3, 2.8)))}


PROPS = {
    'C20': [
        Test('mesh', mesh, quick=2000, thorough=40000,
             rule='grids and positions in them; non-trivial with two or more '
                  'nodes in both directions'),
        Test('gradient', dirs, quick=1200, thorough=30000,
             rule='scalar fields, some masked; non-trivial when not flat'),
        Test('drawn', drawing(), quick=1200, thorough=30000,
             rule='groups of blocks with holes, lines and points drawn on a '
                  'grid; non-trivial when a hole or several shapes are '
                  'drawn'),
        Test('distances', scene(), quick=400, thorough=6000, timeout=120,
             rule='rectangles with a target and up to two obstacles; '
                  'non-trivial when there is an obstacle'),
        Test('paths', scene(), quick=800, thorough=6000, timeout=120,
             rule='the same, walking from several starts; non-trivial when '
                  'an obstacle hides the target from a start'),
        Test('rooms', room(), quick=300, thorough=6000, timeout=120,
             rule='walled rooms with a door and inner walls; non-trivial '
                  'when there are inner walls')],
    'C21': [
        Test('merge', handling, quick=2500, thorough=60000,
             rule='random distance and direction maps and agents on and off '
                  'the grid; non-trivial when some nodes are within the '
                  'radius and some are not')],
    'C22': [
        Test('relation', st.fixed_dictionaries({
            'x1': vec(-5, 5), 'x2': vec(-5, 5), 'v1': vec(-2, 2),
            'v2': vec(-2, 2), 'aim': st.integers(0, 7),
            'phi': st.one_of(st.none(), pos(0.2, 3))}),
            quick=2000, thorough=50000,
            rule='two agents, some heading straight at or away from each '
                 'other; non-trivial when both move'),
        Test('neighbors', followers(), quick=1500, thorough=40000,
             rule='crowds and walls; non-trivial when some agent has more '
                  'neighbours in reach than asked for, or a hidden one'),
        Test('leaders', followers(), quick=2000, thorough=60000,
             rule='crowds with leaders and followers; non-trivial when a '
                  'follower follows or navigates'),
        Test('herding', followers(), quick=2000, thorough=60000,
             rule='the same with herding; non-trivial when a follower '
                  'herds')],
}
