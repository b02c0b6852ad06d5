from hypothesis import strategies as st
from driver import Test
from gens.common import pos, seed

PARTS = ['adjust', 'orient', 'noise', 'agents', 'obstacles', 'exit', 'leader',
         'herding', 'navigate']


@st.composite
def interval(draw):
    a = draw(pos(0.0, 0.5))
    return [a, a + draw(pos(0.3, 0.5))]


@st.composite
def scene(draw, twin=None):
    m = draw(st.sampled_from(['circular', 'three_circle']))
    w, h = draw(pos(3, 5)), draw(pos(3, 5))
    doors = draw(st.lists(interval(), min_size=1, max_size=2))
    areas = draw(st.lists(pos(0.6, 0.9), max_size=1))
    n = len(doors) + len(areas)
    spawns = []
    for _ in range(draw(st.integers(1, 2))):
        (a, c), (b, e) = draw(interval()), draw(interval())
        spawns.append([a, b, c, e])
    walls = draw(st.lists(st.tuples(
        st.tuples(pos(0.1, 0.45), pos(0.1, 0.9)),
        st.tuples(pos(0.55, 0.9), pos(0.1, 0.9))), max_size=2))
    walls = [[[w * p[0], h * p[1]], [w * q[0], h * q[1]]] for p, q in walls]
    parts = draw(st.lists(st.sampled_from(PARTS), unique=True, min_size=1,
                          max_size=6))
    if areas and 'exit' in parts:
        parts.remove('exit')
    if 'leader' in parts and 'herding' in parts:
        parts.remove(draw(st.sampled_from(['leader', 'herding'])))
    dt = draw(pos(0.001, 0.05))
    d = {'model': m, 'size': [w, h], 'doors': doors, 'areas': areas,
         'spawns': spawns, 'walls': walls,
         'groups': draw(st.lists(st.fixed_dictionaries({
             'size': st.integers(1, 5),
             'body': st.sampled_from(['adult', 'male', 'female', 'child']),
             'speed': pos(0, 1.5), 'role': st.integers(0, 3),
             'target': st.integers(-1, n - 1),
             'familiar': st.integers(-1, n - 1),
             'spawn': st.integers(0, len(spawns) - 1)}),
             min_size=1, max_size=2)),
         'parts': parts, 'dt': [draw(st.sampled_from([dt, dt / 4])), dt],
         'step': draw(st.sampled_from([0.2, 0.25])),
         'counts': draw(st.booleans())}
    if twin is not None:
        # all but the same: what differs must not be mixed up
        other = draw(st.sampled_from(['walls', 'walls', 'walls', 'spawns',
                                      'doors', 'size', 'size', 'groups',
                                      'dt', 'model']))
        new = d
        d = dict(twin)
        if other == 'spawns':
            # of the same size, elsewhere
            d['spawns'] = [[1 - c, 1 - e, 1 - a, 1 - b]
                           for a, b, c, e in twin['spawns']]
        elif other == 'doors':
            d['doors'] = [[1 - b, 1 - a] for a, b in twin['doors']]
        elif other == 'walls' and twin['walls']:
            y = twin['size'][1]
            d['walls'] = [[[p[0], y - p[1]], [q[0], y - q[1]]]
                          for p, q in twin['walls']]
        elif other == 'size':
            d['size'], d['walls'] = new['size'], new['walls']
        else:
            d[other] = new[other]
        d['groups'] = [dict(g) for g in d['groups']]
    return d


@st.composite
def apart(draw):
    scenes = [draw(scene())]
    common = draw(st.integers(0, 3)) == 3
    if draw(st.integers(0, 3)) == 3:
        scenes[0]['parts'] = scenes[0]['parts'] + [
            p for p in ('navigate', 'adjust') if p not in scenes[0]['parts']]
    for _ in range(draw(st.integers(1, 2))):
        scenes.append(draw(scene(None if common or draw(st.integers(
            0, 2)) == 0 else scenes[0])))
    n = len(scenes)
    if common:
        # all in the field of the first
        f = scenes[0]
        for s in scenes[1:]:
            if f['areas'] and 'exit' in s['parts']:
                s['parts'] = [p for p in s['parts'] if p != 'exit']
    for s in scenes:
        k = len((scenes[0] if common else s)['doors']) + len(
            (scenes[0] if common else s)['areas'])
        m = len((scenes[0] if common else s)['spawns'])
        for g in s['groups']:
            g['target'] = min(g['target'], k - 1)
            g['familiar'] = min(g['familiar'], k - 1)
            g['spawn'] = min(g['spawn'], m - 1)
    return {'scenes': scenes, 'common': common,
            'seeds': [draw(seed) for _ in range(n)],
            'order': list(range(n)) * draw(st.integers(0, 1)) + draw(st.lists(
                st.integers(0, n - 1), min_size=4, max_size=12)),
            'again': draw(st.integers(0, n - 1))}


PROPS = {
    'C33': [
        Test('apart', apart(), quick=240, thorough=4000, timeout=120,
             rule='two or three simulations with random groups, nodes and '
                  'noise, placed and stepped in any interleaving; '
                  'non-trivial when two of them move and the order changes '
                  'more than twice')],
}
