import math
from fractions import Fraction as F

import numpy as np

from crowddynamics.core import evacuation as EV
from crowddynamics.core import geometry as GE
from crowddynamics.core import quantities as Q
from execs import crowd as K
from execs.storage import geom
from execs.vectors import exact_meet
from vlib import check, num, vec, require_same, same, raises

# C17


def lanes(d, a, l):
    """Whole layers that fit; a quotient within rounding of an integer may go
    either way, unless it is that integer and no step of it rounds."""
    q = (F(d) - (F(a) - F(l))) / F(l)
    k = round(q)
    if q == k and F(d - a) == F(d) - F(a) and F(a - l) == F(a) - F(l):
        return [k]
    if abs(q - k) < F(1, 10 ** 9):
        return [k, k - 1]
    return [math.floor(q)]


def exit_capacity(case):
    d, a, l, c = case['door'], case['agent'], case['layer'], case['coeff']
    kw = {} if l is None else {'d_layer': l}
    if c is not None:
        kw['coeff'] = c
    got = num(EV.narrow_exit_capacity(d, a, **kw))
    c = 1.0 if c is None else c
    if d < a:
        check(got == 0, 'capacity %r of a door narrower than an agent', got)
        return False, ['narrow']
    want = lanes(d, a, a if l is None else l)
    check(any(same(got, c * w) for w in want), 'capacity %r, expected %r',
          got, [c * w for w in want])
    want = lanes(d, a, a)
    check(num(EV.narrow_exit_capacity(d, a, d_layer=a)) in want,
          'the estimate for equal layer and agent width is not one of %r',
          want)
    return True, ['simple' if l is None else 'layers']


def exit_rank(case):
    p = np.array(case['p'], dtype=np.float64).reshape(-1, 2)
    c = np.array(case['door'], dtype=np.float64)
    if not len(p):
        return False, ['empty']
    p0 = p.copy()
    got = [int(x) for x in np.asarray(EV.agent_closer_to_exit(c, p))]
    check(np.array_equal(p, p0), 'the positions changed')
    d = [K.norm(K.sub(x, case['door'])) for x in case['p']]
    check(sorted(got) == list(range(len(d))), 'ranks %r are not a ranking',
          got)
    for k, r in enumerate(got):
        lo = sum(x < d[k] - 1e-12 for x in d)
        hi = sum(x < d[k] + 1e-12 for x in d) - 1
        check(lo <= r <= hi, 'agent %d has rank %d, but %d agents are '
              'closer', k, r, lo)
    return len(d) > 1, ['n%d' % min(len(d), 5)]


def sees(p, q, walls):
    """Exact line of sight; None when a wall overlaps it lengthwise or
    rounding could decide."""
    open_ = False
    for s, e in walls:
        parallel, meet, margin = exact_meet([p, q, s, e])
        if parallel and meet:
            open_ = True
        elif margin < 1e-9 and margin != 1.0 and not all(
                float(x) * 4 == int(float(x) * 4) for z in (p, q, s, e)
                for x in z):
            open_ = True
        elif meet:
            return False
    return None if open_ else True


def exit_detect(case):
    doors = np.array(case['doors'], dtype=np.float64)
    p = np.array(case['p'], dtype=np.float64).reshape(-1, 2)
    w = K.walls(case['walls'])
    r = case['range']
    ex, has = EV.exit_detection(doors, p, w, r)
    ex, has = np.asarray(ex), np.asarray(has)
    check(ex.shape == (len(p),) and has.shape == (len(p),),
          'shapes %r and %r for %d agents', ex.shape, has.shape, len(p))
    hard = False
    for k, x in enumerate(case['p']):
        e = int(ex[k])
        check(bool(has[k]) == (e != -1), 'exit %r but detected is %r', e,
              has[k])
        inr, unsure = [], False
        for j, y in enumerate(case['doors']):
            d = K.norm(K.sub(x, y))
            s = sees(x, y, case['walls'])
            if s is None or abs(d - r) < 1e-9:
                unsure = True
            elif d < r:
                inr.append((d, j, s))
        if unsure:
            continue
        seen = [(d, j) for d, j, s in inr if s]
        hard = hard or (seen and len(seen) < len(inr))
        if not seen:
            check(e == -1, 'agent at %r detects exit %d out of range or '
                  'sight', x, e)
        else:
            best = min(seen)[0]
            check(e in [j for d, j in seen if d <= best + 1e-9],
                  'agent at %r detects exit %d, the nearest is %r', x, e,
                  min(seen))
    return bool(hard), ['found' if (ex >= 0).any() else 'none']


# C18

def classical(case):
    p, s = case['p'], case['cell']
    a = np.array(p, dtype=np.float64)
    a0 = a.copy()
    got = np.asarray(Q.density_classical(a, s))
    check(np.array_equal(a, a0), 'the points changed')
    q = [(F(x) / F(s), F(y) / F(s)) for x, y in p]
    if any(v != round(v) and abs(v - round(v)) < abs(v) / 10 ** 14
           for w in q for v in w):
        return False, ['edge']     # the side of the edge is up to rounding
    idx = [(math.floor(x), math.floor(y)) for x, y in q]
    i0, j0 = min(i for i, _ in idx), min(j for _, j in idx)
    shape = (max(i for i, _ in idx) - i0 + 1, max(j for _, j in idx) - j0 + 1)
    check(got.shape == shape, 'shape %r, expected %r', got.shape, shape)
    want = np.zeros(shape)
    for i, j in idx:
        want[i - i0, j - j0] += 1
    check(same(got.ravel().tolist(), (want / s ** 2).ravel().tolist()),
          'density %r, expected %r', got.tolist(), (want / s ** 2).tolist())
    return want.max() > 1, ['%dx%d' % tuple(min(3, n) for n in shape)]


def boxes(case):
    a = np.array(case, dtype=np.float64)
    got = np.asarray(Q.bounding_box(a))
    want = [[min(c), max(c)] for c in zip(*case)]
    check(got.shape == (len(want), 2) and got.tolist() == want,
          'bounding box %r, expected %r', got.tolist(), want)
    return len(case) > 1, ['dim%d' % len(want)]


def clip(poly, a, b, c):
    """Part of the convex polygon where a x + b y <= c."""
    out = []
    for p, q in zip(poly, poly[1:] + poly[:1]):
        dp, dq = a * p[0] + b * p[1] - c, a * q[0] + b * q[1] - c
        if dp <= 0:
            out.append(p)
        if (dp < 0 < dq) or (dq < 0 < dp):
            t = dp / (dp - dq)
            out.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
    return out


def area(poly):
    if len(poly) < 3:
        return 0.0
    o = poly[0]
    return abs(sum((p[0] - o[0]) * (q[1] - o[1]) - (p[1] - o[1]) *
                   (q[0] - o[0]) for p, q in zip(poly, poly[1:]))) / 2


def rect(x0, x1, y0, y1):
    return [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]


def voronoi_cell(k, pts, poly):
    x, y = pts[k]
    for j, (u, v) in enumerate(pts):
        if j != k:
            poly = clip(poly, u - x, v - y,
                        (u * u + v * v - x * x - y * y) / 2)
            if not poly:
                break
    return poly


def voronoi(case):
    from scipy.spatial import Voronoi
    pts, s = [tuple(p) for p in case['p']], case['cell']
    a = np.array(pts, dtype=np.float64)
    (x0, x1), (y0, y1) = [(min(c), max(c)) for c in zip(*pts)]
    gap = min(math.hypot(p[0] - q[0], p[1] - q[1])
              for i, p in enumerate(pts) for q in pts[:i])
    w, h = x1 - x0, y1 - y0
    # agents keep a distance and are not (nearly) in line
    if gap <= 0.02 * max(w, h) or min(w, h) <= 0.05 * max(w, h):
        return False, ['degenerate']
    if len(pts) < 5:
        u = [area([p, q, r]) for p in pts for q in pts for r in pts
             if p != q and q != r and p != r]
        if min(u) < 0.01 * w * h:
            return False, ['degenerate']
    near = any(abs(z / s - round(z / s)) < 1e-9 for p in pts for z in p)
    if near:
        return False, ['border']
    vor = Voronoi(a)
    far = np.abs(vor.vertices - a.mean(axis=0)).max()
    if far > 1e4 * (w + h):         # nearly in line up to rounding
        return False, ['far vertices']
    i0, i1, j0, j1 = [math.floor(z / s) for z in (x0, x1, y0, y1)]
    shape = (i1 - i0 + 1, j1 - j0 + 1)
    a0 = a.copy()
    d1 = np.asarray(Q.density_voronoi_1(a, s))
    d2 = np.asarray(Q.density_voronoi_2(a, s))
    check(np.array_equal(a, a0), 'the points changed')
    for n, d in ((1, d1), (2, d2)):
        check(d.shape == shape, 'voronoi density %d has shape %r, expected '
              '%r', n, d.shape, shape)
        check(np.all(np.isfinite(d)) and np.all(d >= 0),
              'voronoi density %d is %r', n, d.tolist())
    require_same(float(d1.sum()) * s * s, len(pts), 'total weight of the '
                 'agents', 1e-6, 1e-6)
    # independent cells: half planes
    box = rect(x0, x1, y0, y1)
    true = [voronoi_cell(k, pts, box) for k in range(len(pts))]
    fin = [all(v >= 0 for v in vor.regions[r]) for r in vor.point_region]
    labels = ['%d bounded' % sum(fin)]
    want = np.zeros(shape)
    for k, poly in enumerate(true):
        ar = area(poly)
        if ar < 1e-9 * w * h:
            return False, ['sliver']
        for i in range(shape[0]):
            for j in range(shape[1]):
                c = poly
                for e in ((-1, 0, -(i + i0) * s), (1, 0, (i + i0 + 1) * s),
                          (0, -1, -(j + j0) * s), (0, 1, (j + j0 + 1) * s)):
                    c = clip(c, *e) if c else c
                want[i, j] += area(c) / ar
    check(same((d1 * s * s).ravel().tolist(), want.ravel().tolist(),
               1e-5, 1e-6), 'voronoi density is %r, expected %r',
          d1.tolist(), (want / s ** 2).tolist())
    # second definition, cells whose agents all have bounded regions
    big = rect(*[z for lo, hi in ((x0, x1), (y0, y1)) for z in
                 (lo - 1e4 * w - 1e4 * h, hi + 1e4 * w + 1e4 * h)])
    cells = {}
    for k, p in enumerate(pts):
        cells.setdefault((math.floor(p[0] / s) - i0,
                          math.floor(p[1] / s) - j0), []).append(k)
    n = 0
    for i in range(shape[0]):
        for j in range(shape[1]):
            ks = cells.get((i, j), [])
            if not ks:
                check(d2[i, j] == 0, 'density %r in an empty cell', d2[i, j])
            elif all(fin[k] for k in ks):
                ar = [area(voronoi_cell(k, pts, big)) for k in ks]
                require_same(float(d2[i, j]), len(ks) / sum(ar),
                             'second voronoi density', 1e-5, 1e-9)
                n += 1
            else:
                check(d2[i, j] > 0, 'no density in a cell with agents')
    if n:
        labels.append('bounded')
    return len(pts) > 3 and max(shape) > 1, labels


# C19

def rings(g):
    """(kind, coordinates) of every line, ring and point in order."""
    t, c = g
    if t == 'Point':
        return [('point', [c])]
    if t == 'LineString':
        return [('line', c)]
    if t == 'LinearRing':
        return [('line', c + [c[0]])]
    if t == 'Polygon':
        return [('hole', h + [h[0]]) for h in c[1:]] + \
            [('shell', c[0] + [c[0][0]])]
    if t == 'MultiPoint':
        return [('point', [p]) for p in c]
    if t == 'MultiLineString':
        return [('line', l) for l in c]
    if t == 'MultiPolygon':
        return [r for p in c for r in rings(['Polygon', p])]
    return [r for s in c for r in rings(s)]


def pts(c):
    return [tuple(float(x) for x in p) for p in c]


FLAG = {'point': 'POINT', 'line': 'LINESTRING', 'hole': 'POLYGON_HOLE',
        'shell': 'POLYGON_SHELL'}


def convert(case):
    spec = case['geom']
    g = geom(spec)
    rs = rings(spec)
    lines = [list(zip(pts(c)[:-1], pts(c)[1:])) for k, c in rs
             if k in ('line', 'shell')]
    want = [s for l in lines for s in l]
    holes = [s for k, c in rs if k == 'hole'
             for s in zip(pts(c)[:-1], pts(c)[1:])]
    got = [tuple(tuple(float(x) for x in p) for p in s)
           for s in GE.geom_to_linesegment(g)]
    ob = GE.geom_to_linear_obstacles(g)
    check(ob.dtype.names == ('p0', 'p1') and ob.ndim == 1,
          'obstacles are an array of %r', ob.dtype)
    obs = [(tuple(map(float, o['p0'])), tuple(map(float, o['p1'])))
           for o in ob]
    for name, x in (('segments', got), ('obstacles', obs)):
        if holes and len(x) != len(want):
            # edges of holes may be listed too
            check(sorted(x) == sorted(want + holes),
                  '%s are %r, expected %r', name, x, want)
        else:
            check(x == want, '%s are %r, expected %r', name, x, want)
    # flat arrays
    arr = np.asarray(GE.geom_to_array(g), dtype=np.float64)
    exp = []
    for k, c in rs:
        exp.append((math.nan, getattr(GE.GeomTypes, FLAG[k])))
        exp += pts(c)
    check(arr.shape == (len(exp), 2) and
          all(same(vec(a), list(b), 0, 0) for a, b in zip(arr, exp)),
          'coordinate array is %r, expected %r', arr.tolist(), exp)
    flags = [getattr(GE.GeomTypes, f) for f in FLAG.values()]
    check(len(set(flags)) == 4, 'flags are not distinct')
    # wrong types
    bad = {'none': None, 'str': 'POINT (0 0)', 'int': 3, 'list': [g],
           'coords': [(0.0, 0.0), (1.0, 1.0)],
           'array': np.zeros((2, 2))}[case['wrong']]
    check(raises(TypeError, lambda: list(GE.geom_to_linesegment(bad)))
          is not None, '%r was taken for a geometry', bad)
    check(raises(TypeError, lambda: GE.geom_to_array(bad)) is not None,
          '%r was taken for a geometry', bad)
    e = GE.geom_to_linear_obstacles(None)
    check(len(e) == 0 and e.dtype.names == ('p0', 'p1'),
          'obstacles without geometry: %r', e)
    # union
    gs = [geom(x) for x in [spec] + case['others']]
    if spec[0] not in ('GeometryCollection', 'MultiPolygon'):
        u = GE.union(*gs)
        for x, y in zip([spec] + case['others'], gs):
            for p in probes(x):
                d = u.distance(geom(['Point', p]))
                check(d < 1e-6, 'the union misses the point %r of %r by %r',
                      p, x, d)
        total = sum(y.area for y in gs)
        check(max(y.area for y in gs) - 1e-6 <= u.area <= total + 1e-6 *
              (1 + total), 'the union has area %r, its parts %r', u.area,
              [y.area for y in gs])
    return len(want) > 1, [spec[0]] + (['hole'] if holes else [])


def probes(g):
    out = []
    for k, c in rings(g):
        out += [list(p) for p in c]
        if k in ('line', 'shell'):
            out += [[(p[0] + q[0]) / 2, (p[1] + q[1]) / 2]
                    for p, q in zip(c, c[1:])]
    return out
