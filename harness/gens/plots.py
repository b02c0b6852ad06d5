from hypothesis import strategies as st
from driver import Test
from gens.common import real, vec, pos, seed
from gens.steering import scene
from gens.storage import single, multi

size = st.integers(1, 12).map(lambda k: 100 * k)
aspect = st.fixed_dictionaries({
    'x': st.lists(real(-50, 50), min_size=1, max_size=6),
    'y': st.lists(real(-50, 50), min_size=1, max_size=6),
    'plot': st.tuples(size, size),
    'aspect': st.one_of(st.none(), pos(0.2, 5)),
    'margin': st.one_of(st.none(), st.just(0.0), pos(0, 0.6)),
    'tuple': st.booleans()})

styles = st.dictionaries(
    st.sampled_from(['legend', 'alpha', 'color', 'line_width', 'line_dash']),
    st.sampled_from([1, 0.5, 'green', 'dashed']), max_size=3)
geoms = st.fixed_dictionaries({
    'geoms': st.lists(st.one_of(single, multi), min_size=1, max_size=3),
    'style': styles,
    'wrong': st.sampled_from(['none', 'str', 'int', 'list'])})


@st.composite
def quiver(draw):
    return {'min': draw(vec(-30, 30)), 'size': [draw(pos(0.3, 6)),
                                                draw(pos(0.3, 6))],
            'step': draw(st.sampled_from([0.1, 0.25, 0.5, 1.0]) |
                         pos(0.1, 1.2)),
            'freq': draw(st.one_of(st.none(), st.integers(1, 4))),
            'mask': draw(st.booleans()), 'style': draw(styles),
            'seed': draw(seed)}


@st.composite
def whole(draw):
    s = draw(scene())
    s['targets'] = [s['target'], draw(scene(walls=False))['target']][
        :draw(st.integers(1, 2))]
    s['spawns'] = draw(st.lists(st.tuples(pos(0.05, 0.4), pos(0.05, 0.4)),
                                max_size=2))
    s['step'] = draw(pos(0.4, 0.7))
    s['radius'] = draw(pos(0.5, 0.9))
    s['strength'] = draw(st.sampled_from([0.3, 0.6]))
    s['plot'] = [draw(size), draw(size)]
    s['call'] = draw(st.sampled_from(['plot', 'plot', 'add']))
    s['nodomain'] = s['call'] == 'add' and draw(st.integers(0, 3)) == 3
    return s


name = st.sampled_from(['plot', 'a.b', 'figure', 'x y', 'run_1', 'plot.png',
                        'plot.html', 'a.b.html', '.html'])
figures = st.fixed_dictionaries({
    'dir': st.sampled_from(['', 'out', '/tmp/x.html.d', 'a.b/c']),
    'name': name, 'show': st.booleans(), 'save': st.booleans(),
    'plot': st.tuples(size, size), 'error': st.booleans()})

trees = st.fixed_dictionaries({
    'parents': st.lists(st.integers(0, 30), max_size=9),
    'names': st.permutations(['Reset', 'Integrator', 'a', 'b b', 'A', 'x1',
                              'Adjusting', 'Node', 'n.n', 'Z']),
    'at': st.integers(0, 30),
    'file': st.sampled_from(['tree.dot', 'a.b.dot', 'tree.txt', 'dot',
                             'tree.dot.gv'])})

PROPS = {
    'C30': [
        Test('aspect', aspect, quick=2500, thorough=50000,
             rule='data, figure sizes, margins; non-trivial when the data '
                  'span both directions'),
        Test('geoms', geoms, quick=2000, thorough=40000,
             rule='geometries of every kind with styles; non-trivial with '
                  'two or more parts'),
        Test('quiver', quiver(), quick=1500, thorough=30000,
             rule='grids anywhere in the plane with random maps; non-trivial '
                  'away from the origin'),
        Test('whole', whole(), quick=300, thorough=4000, timeout=120,
             rule='fields with walls or none; non-trivial with walls and '
                  'spawns'),
        Test('figures', figures, quick=1000, thorough=10000,
             rule='file names with and without extension; non-trivial when '
                  'the figure is shown or saved'),
        Test('dot', trees, quick=1000, thorough=10000,
             rule='trees of up to ten nodes rendered from any node; '
                  'non-trivial from an inner node')],
}
