from hypothesis import strategies as st
from driver import Test
from gens.common import truth

# No separators.
name = st.one_of(
    st.sampled_from(['agents', 'data', 'run1', 'npy', 'agents_1', 'sim-2', '{x}',
                     'a', '1', 'p_0', 'agents.0', '0_1', 'a+b', 'run(1)',
                     '[0]', 'a.b', '^x$', 'a*']),
    st.text('agents_npy.0123-', min_size=1, max_size=8).filter(
        lambda s: s not in ('.', '..')))
number = st.one_of(
    st.floats(allow_nan=True, allow_infinity=True, width=32),
    st.integers(-5, 5).map(float))
sane = st.one_of(st.floats(-1e6, 1e6, width=32), st.integers(-5, 5).map(float))


@st.composite
def npy_cases(draw):
    names = draw(st.lists(name, min_size=1, max_size=3, unique=True))
    savers = [[n, draw(st.integers(0, 1)),
               draw(st.sampled_from(['f8', 'struct', 'i8', 'b1', 'f4']))]
              for n in names]
    if draw(st.integers(0, 3)) == 3 and len(savers) > 1:
        # the same name in two directories is two recordings
        savers[1][0], savers[1][1] = savers[0][0], 1 - savers[0][1]
    n_rows = [draw(st.integers(1, 3)) for _ in savers]
    many = draw(st.integers(0, 4)) == 4
    n_ops = draw(st.integers(1, 30 if many else 12))
    p_dump = draw(st.sampled_from([1, 2, 3]))
    ops = []
    for _ in range(n_ops):
        who = 0 if many else draw(st.integers(0, len(savers) - 1))
        kind = savers[who][2]
        elem = number if kind in ('f8', 'f4', 'struct') else sane
        row = st.lists(elem, min_size=4, max_size=4)
        if kind == 'struct':
            row = st.tuples(elem, elem, elem, st.integers(0, 3)).map(list)
        rows = draw(st.lists(row, min_size=n_rows[who], max_size=n_rows[who]))
        dump = True if many else draw(st.integers(0, p_dump)) > 0
        ops.append([who, rows, dump, draw(st.sampled_from(
            ['fresh', 'live']))])
    noise = []
    if draw(st.booleans()):
        noise = draw(st.lists(st.sampled_from(
            ['README.txt', 'zzz.csv', savers[0][0] + '.npy',
             savers[0][0] + '.csv', savers[0][0] + '_log.txt',
             savers[0][0] + '_extra.npy', 'x' + savers[0][0] + '_0.npy',
             savers[0][0] + 'x_0.npy', savers[0][0] + '_0.npy.bak',
             savers[0][0] + '_1.npy~', savers[0][0] + '_7.npy.tmp',
             savers[0][0] + '_1.npy1', savers[0][0] + '_0_npy',
             savers[0][0].replace('.', 'x').replace('*', 'a') + '_0.npy']),
            max_size=3, unique=True))
        taken = set(s[0] for s in savers)
        noise = [f for f in noise if not any(
            f.startswith(t + '_') and f.endswith('.npy') and
            f[len(t) + 1:-4].isdigit() for t in taken)]
    return {'savers': savers, 'ops': ops, 'noise': noise,
            'truth': draw(truth)}


@st.composite
def npy_long(draw):
    # numbered rows; every run is (arrays sent, whether the last is dumped)
    runs = draw(st.lists(st.tuples(
        st.one_of(st.just(1), st.integers(1, 5), st.integers(40, 300)),
        st.integers(1, 130)).map(list), min_size=1, max_size=4))
    total, out = 0, []
    for k, n in runs:
        n = max(1, min(n, (1500 - total) // k))
        if total + n * k > 1500 + 300:
            break
        total += n * k
        out.append([k, n])
    if draw(st.integers(0, 24)) == 24:
        out.insert(draw(st.integers(0, 1)), [1, draw(st.integers(980, 1150))])
    return {'name': draw(name), 'runs': out, 'rows': draw(st.integers(1, 2)),
            'live': draw(st.booleans())}


cell = st.one_of(st.integers(-1000, 1000), st.floats(-1e6, 1e6),
                 st.text('ab,"\'\n ;x1', max_size=5), st.booleans(), st.none())


@st.composite
def csv_cases(draw):
    keys = draw(st.lists(st.text('abcdefg_ ,"', min_size=1, max_size=5),
                         min_size=1, max_size=draw(st.sampled_from(
                             [3, 5, 5, 14])), unique=True))
    live = draw(st.booleans())
    rows = draw(st.lists(st.tuples(
        st.lists(cell, min_size=len(keys), max_size=len(keys)),
        st.booleans()).map(list), min_size=1, max_size=15))
    # a row of one empty cell is written as a blank-looking line; keep it
    # unambiguous for the reader
    if len(keys) == 1:
        rows = [[[('x' if v in ('', None) else v) for v in r], d] for r, d in rows]
    return {'name': draw(name), 'keys': keys, 'rows': rows, 'live': live,
            'truth': draw(truth)}


coord = st.integers(-20, 20).map(lambda k: k / 4) | st.floats(-100, 100)
pt = st.tuples(coord, coord).map(list)


@st.composite
def ring(draw):
    x, y = draw(coord), draw(coord)
    w, h = draw(st.floats(0.5, 20)), draw(st.floats(0.5, 20))
    k = draw(st.integers(3, 5))
    r = [[x, y], [x + w, y], [x + w, y + h], [x, y + h]]
    r = r[:k] if k < 5 else r[:3] + [[x + w / 2, y + h / 2]] + r[3:]
    return r[::-1] if draw(st.booleans()) else r


@st.composite
def polygon(draw):
    r = draw(ring())
    n = draw(st.integers(0, 3))
    if len(r) == 4:
        # up to three triangles or rectangles in separate quarters
        x, y = min(p[0] for p in r), min(p[1] for p in r)
        w = (max(p[0] for p in r) - x) / 8
        h = (max(p[1] for p in r) - y) / 8
        holes = []
        for q in draw(st.permutations([(1, 1), (5, 1), (1, 5), (5, 5)]))[:n]:
            u, v = x + q[0] * w, y + q[1] * h
            c = [[u, v], [u + w, v], [u + 2 * w, v + 2 * h], [u, v + 2 * h]]
            holes.append(c[:draw(st.integers(3, 4))])
        return [r] + holes
    return [r]


line = st.lists(pt, min_size=2, max_size=5)
single = st.one_of(
    pt.map(lambda c: ['Point', c]),
    line.map(lambda c: ['LineString', c]),
    polygon().map(lambda c: ['Polygon', c]),
    ring().map(lambda c: ['LinearRing', c]))
multi = st.one_of(
    st.lists(line, min_size=1, max_size=3).map(
        lambda c: ['MultiLineString', c]),
    st.lists(pt, min_size=1, max_size=3).map(lambda c: ['MultiPoint', c]),
    st.lists(polygon(), min_size=1, max_size=3).map(
        lambda c: ['MultiPolygon', c]),
    st.lists(single, min_size=1, max_size=3).map(
        lambda c: ['GeometryCollection', c]))
value = st.one_of(
    single, single, multi, st.just(['none', None]),
    st.lists(single, max_size=3).map(lambda c: ['list', c]),
    st.lists(st.one_of(single, st.just(['none', None]), st.lists(
        single, max_size=2).map(lambda c: ['list', c])),
        max_size=4).map(lambda c: ['list', c]),
    st.lists(st.tuples(st.sampled_from(['a', 'b', 'exit', 'type',
                                        'coordinates']), single).map(list),
             min_size=1, max_size=3, unique_by=lambda t: t[0]).map(
        lambda c: ['dict', c]))
fields = st.lists(
    st.tuples(st.sampled_from(['domain', 'obstacles', 'targets', 'spawns',
                               'type', 'a b']),
              value).map(list), max_size=4, unique_by=lambda t: t[0])

PROPS = {
    'C02': [Test('npy_history', npy_cases(), quick=3000, thorough=60000,
                 rule='interleaved recorders sending arrays and dump flags; '
                      'non-trivial with at least two dumps or a dump of '
                      'several buffered arrays'),
            Test('npy_long', npy_long(), quick=160, thorough=3000,
                 rule='one recorder with up to 1800 arrays and 1500 dumps; '
                      'non-trivial with over 40 of either')],
    'C03': [Test('csv_history', csv_cases(), quick=4000, thorough=80000,
                 rule='a table of rows with dump flags; non-trivial with two '
                      'dumps or several rows written')],
    'C04': [Test('geometry_roundtrip',
                 st.lists(fields, min_size=1, max_size=2).map(
                     lambda s: {'saves': s}), quick=4000, thorough=80000,
                 rule='named geometries of every kind, saved (possibly '
                      'twice) and loaded; non-trivial when some geometry is '
                      'not None')],
}
