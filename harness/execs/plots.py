import math
import os
import re
import shutil
import tempfile

import bokeh
import numpy as np
from bokeh.plotting import Figure

from crowddynamics import visualizations as V
from crowddynamics.core.steering.quickest_path import meshgrid
from crowddynamics.simulation.base import LogicNodeBase
from crowddynamics.simulation.field import Field
from execs import steering as S
from execs.storage import geom
from vlib import check, vec, require_same, raises


def fig(case):
    return Figure(plot_width=case['plot'][0], plot_height=case['plot'][1])


def aspect(case):
    f = fig(case)
    kind = tuple if case['tuple'] else list
    kw = {k: case[k] for k in ('aspect', 'margin') if case[k] is not None}
    V.set_aspect(f, kind(case['x']), kind(case['y']), **kw)
    want_ratio = kw.get('aspect', 1) * case['plot'][0] / case['plot'][1]
    m = kw.get('margin', 0.1)
    spans, pads = [], []
    for rng, data, n in ((f.x_range, case['x'], 'x'),
                         (f.y_range, case['y'], 'y')):
        check(rng is not None, 'the %s range is not set', n)
        lo, hi = min(data), max(data)
        pad = (hi - lo) * (1 + 2 * m)
        pad = pad if pad > 0 else 1.0
        a, b = float(rng.start), float(rng.end)
        tol = 1e-9 * (abs(a) + abs(b) + 1)
        check(b - a >= pad - tol, 'the %s range %r to %r is shorter than the '
              'data with margins, %r', n, a, b, pad)
        require_same((a + b) / 2, (lo + hi) / 2, 'centre of the %s range' % n,
                     1e-9, 1e-9 * (1 + b - a))
        spans.append(b - a)
        pads.append(pad)
    require_same(spans[0] / spans[1], want_ratio, 'ratio of the ranges', 1e-9)
    check(spans[0] <= pads[0] * (1 + 1e-9) or spans[1] <= pads[1] * (1 + 1e-9),
          'both ranges are longer than needed: %r for %r', spans, pads)
    return len(set(case['x'])) > 1 and len(set(case['y'])) > 1, []


def parts(g):
    """What a geometry draws: (glyph, coordinates), in any order."""
    from shapely.geometry import Point, LineString, Polygon
    if isinstance(g, Point):
        return [('circle', [list(map(float, c[:2])) for c in g.coords])]
    if isinstance(g, LineString):
        return [('line', [list(map(float, c[:2])) for c in g.coords])]
    if isinstance(g, Polygon):
        return [('patch', [list(map(float, c[:2]))
                           for c in g.exterior.coords])]
    return [p for x in g.geoms for p in parts(x)]


def drawn(glyph):
    name, d = glyph
    xs, ys = vec(d['x']), vec(d['y'])
    check(len(xs) == len(ys), 'x and y of a %s differ in length', name)
    return name, [list(p) for p in zip(xs, ys)]


def open_ring(name, c):
    return c[:-1] if name == 'patch' and len(c) > 1 and c[0] == c[-1] else c


def take(glyphs, geometry, style, what):
    """Removes what the geometry must have drawn from the list of glyphs."""
    for name, c in parts(geometry):
        for k, g in enumerate(glyphs):
            if g[0] not in ('circle', 'line', 'patch'):
                continue
            gn, gc = drawn(g)
            if gn == name and open_ring(gn, gc) == open_ring(name, c) and all(
                    g[1].get(n) == v for n, v in style.items()):
                del glyphs[k]
                break
        else:
            check(False, '%s: no %s through %r with %r among %r', what, name,
                  c, style, [drawn(g) for g in glyphs if g[0] in (
                      'circle', 'line', 'patch')])


def geoms(case):
    n = 0
    for spec in case['geoms']:
        g = geom(spec)
        f = Figure()
        V.add_geom(f, g, **case['style'])
        left = list(f.glyphs)
        n += len(left)
        take(left, g, case['style'], 'add_geom')
        check(not left, 'something else was drawn: %r', left)
    bad = {'none': None, 'str': 'Point', 'int': 3, 'list': [(0, 1)]}
    f = Figure()
    e = raises(TypeError, V.add_geom, f, bad[case['wrong']])
    check(e is not None and not f.glyphs, '%s was drawn', case['wrong'])
    return n > 1, []


def check_image(glyph, mesh, dmap, mask=None):
    d = glyph[1]
    minx, miny, maxx, maxy = mesh.bounds
    img = d['image']
    check(len(img) == 1, '%d images', len(img))
    a = np.asarray(np.ma.getdata(img[0]))
    check(a.shape == dmap.shape, 'image of shape %r for a map of %r',
          a.shape, dmap.shape)
    keep = ~np.ma.getmaskarray(dmap)
    check(np.array_equal(a[keep], np.ma.getdata(dmap)[keep]),
          'the image is not the distance map')
    require_same(vec([d['x'], d['y']]), [float(minx), float(miny)],
                 'lower left corner of the image')
    ny, nx = dmap.shape
    for k, lo, hi, n in (('dw', minx, maxx, nx), ('dh', miny, maxy, ny)):
        v = float(d[k])
        a, b = sorted([hi - lo, (n - 1) * mesh.step])
        b = max(b, n * mesh.step)
        check(a - 1e-9 <= v <= b + 1e-9, 'the image has %s = %r, the grid '
              'from %r to %r is %r long', k, v, lo, hi, hi - lo)


def check_arrows(glyphs, mesh, u, v, freq, style):
    seg = [g for g in glyphs if g[0] == 'segment']
    tri = [g for g in glyphs if g[0] == 'triangle']
    check(len(seg) == 1 and len(tri) == 1, '%d segment and %d triangle '
          'glyphs', len(seg), len(tri))
    s, t = seg[0][1], tri[0][1]
    for k, w in style.items():
        check(s.get(k) == w, 'style %s of the segments is %r, not %r', k,
              s.get(k), w)
    X, Y = mesh.values
    ny, nx = X.shape
    u, v = [np.ma.filled(np.ma.asarray(c).astype(float), np.nan) for c in (
        u, v)]

    def arr(x):
        return np.ma.filled(np.ma.asarray(x).astype(float), np.nan).reshape(-1)
    cols = [arr(s[k]) for k in ('x0', 'y0', 'x1', 'y1')]
    cols += [arr(t[k]) for k in ('x', 'y', 'angle')]
    want = [(i, j) for i in range(0, ny, freq) for j in range(0, nx, freq)]
    check(all(len(c) == len(want) for c in cols), 'lengths %r for %d arrows',
          [len(c) for c in cols], len(want))
    at = {}
    for x0, y0, x1, y1, tx, ty, ta in zip(*cols):
        at[(round(x0, 6), round(y0, 6))] = (x0, y0, x1, y1, tx, ty, ta)
    l = 0.9 * freq * mesh.step
    for i, j in want:
        key = (round(float(X[i, j]), 6), round(float(Y[i, j]), 6))
        check(key in at, 'no arrow at the node %r', key)
        x0, y0, x1, y1, tx, ty, ta = at[key]
        if math.isnan(u[i, j]) or math.isnan(v[i, j]):
            continue
        require_same([x1, y1, tx, ty],
                     [x0 + l * u[i, j], y0 + l * v[i, j]] * 2,
                     'head of the arrow at %r' % (key,), 1e-9, 1e-9)
        q = math.atan2(v[i, j], u[i, j]) - math.pi / 2
        require_same([math.cos(ta), math.sin(ta)], [math.cos(q), math.sin(q)],
                     'turn of the head at %r' % (key,), 1e-9, 1e-9)


def quiver(case):
    (x, y), (w, h) = case['min'], case['size']
    mesh = meshgrid(case['step'], x, y, x + w, y + h)
    rng = np.random.RandomState(case['seed'])
    q = rng.uniform(-math.pi, math.pi, mesh.shape)
    u, v = np.cos(q), np.sin(q)
    d = rng.uniform(-1, 9, mesh.shape)
    if case['mask']:
        m = rng.uniform(size=mesh.shape) < 0.2
        u, v, d = [np.ma.MaskedArray(c, m) for c in (u, v, d)]
    f = Figure()
    kw = {} if case['freq'] is None else {'freq': case['freq']}
    freq = kw.get('freq', 2)
    kw.update(case['style'])
    V.add_direction_map(f, mesh, (u, v), **kw)
    check_arrows(f.glyphs, mesh, u, v, freq, case['style'])
    f = Figure()
    V.add_distance_map(f, mesh, d, **case['style'])
    check(len(f.glyphs) == 1 and f.glyphs[0][0] == 'image',
          'the distance map drew %r', [g[0] for g in f.glyphs])
    check_image(f.glyphs[0], mesh, d)
    for k, s in case['style'].items():
        check(f.glyphs[0][1].get(k) == s, 'style %s of the image is %r, not '
              '%r', k, f.glyphs[0][1].get(k), s)
    return abs(x) > 1 and abs(y) > 1, []


def whole(case):
    dom, _, og, _, _ = S.build(case)
    ts = [S.build(dict(case, target=t))[1] for t in case['targets']]
    (x, y), (w, h) = case['min'], case['size']
    from shapely.geometry import Polygon
    sp = [Polygon([(x + a * w, y + b * h), (x + (a + .2) * w, y + b * h),
                   (x + (a + .2) * w, y + (b + .3) * h)])
          for a, b in case['spawns']]
    field = Field(obstacles=og, targets=ts, spawns=sp)
    if not case['nodomain']:
        field.domain = dom
    del bokeh.LOG[:]
    if case['call'] == 'add':
        f = fig(case)
        V.add_field(f, field)
    else:
        try:
            mesh, dmap, (u, v) = field.navigation_to_target(
                'closest', case['step'], case['radius'], case['strength'])
        except ValueError:              # a target is hidden by obstacles
            return False, ['hidden']
        before = [np.ma.copy(a) for a in (dmap, u, v)]
        V.plot_field(field, case['step'], case['radius'], case['strength'],
                     plot_width=case['plot'][0], plot_height=case['plot'][1])
        for a, b in zip(before, (dmap, u, v)):
            check(np.array_equal(np.ma.filled(a, 7.0), np.ma.filled(b, 7.0),
                                 equal_nan=True), 'plotting changed a map')
        shown = [e[1] for e in bokeh.LOG if e[0] == 'show']
        out = [e[1] for e in bokeh.LOG if e[0] == 'output_file']
        check(len(shown) == 1, 'shown %d times', len(shown))
        check(out == [field.name + '.html'], 'written to %r', out)
        f = shown[0]
        check([f.plot_width, f.plot_height] == list(case['plot']),
              'figure options are lost')
        for rng, lo, hi in ((f.x_range, x, x + w), (f.y_range, y, y + h)):
            check(rng is not None and rng.start <= lo and hi <= rng.end,
                  'the range does not show the whole domain')
        img = [g for g in f.glyphs if g[0] == 'image']
        check(len(img) == 1, '%d images', len(img))
        check_image(img[0], mesh, dmap)
        check_arrows(f.glyphs, mesh, u, v, 2, {})
    left = [g for g in f.glyphs if g[0] not in ('image', 'segment',
                                                'triangle')]
    legends = []
    for what, gs in (('domain', [] if case['nodomain'] else [dom]),
                     ('spawn', sp), ('target', ts),
                     ('obstacles', [] if og is None else [og])):
        for g in gs:
            n = len(left)
            before = list(left)
            take(left, g, {}, what)
            mine = {b[1].get('legend') for b in before if not any(
                b is l for l in left)}
            check(len(mine) == 1, 'parts of one %s have legends %r', what,
                  mine)
            legends += mine
    check(not left, 'something else was drawn: %r', left)
    if case['call'] == 'plot':
        check(None not in legends and len(set(legends)) == len(legends),
              'the legends %r do not tell the shapes apart', legends)
    return og is not None and bool(sp), [case['call']]


def figures(case):
    del bokeh.LOG[:]
    name = os.path.join(case['dir'], case['name'])
    got = []

    class Boom(Exception):
        pass
    try:
        with V.figure(name, show=case['show'], save=case['save'],
                      plot_width=case['plot'][0],
                      plot_height=case['plot'][1]) as f:
            got.append(f)
            check(not [e for e in bokeh.LOG if e[0] != 'output_file'],
                  'shown or saved before it was drawn')
            if case['error']:
                raise Boom
        check(not case['error'], 'an error while drawing was swallowed')
    except Boom:
        pass
    f = got[0]
    check([f.plot_width, f.plot_height] == list(case['plot']),
          'figure options are lost')
    out = [e[1] for e in bokeh.LOG if e[0] == 'output_file']
    want = name if os.path.splitext(name)[1] == '.html' else name + '.html'
    check(out == [want], 'output file %r for %r', out, name)
    if not case['error']:
        for kind in ('show', 'save'):
            n = [e[1] for e in bokeh.LOG if e[0] == kind]
            check(len(n) == case[kind] and all(e is f for e in n),
                  '%s=%r but %d times', kind, case[kind], len(n))
    return (case['show'] or case['save']) and not case['error'], []


def dot(case):
    nodes = []
    for k in range(len(case['parents']) + 1):
        n = LogicNodeBase(name=case['names'][k])
        if k:
            n.parent = nodes[case['parents'][k - 1] % k]
        nodes.append(n)
    at = nodes[case['at'] % len(nodes)]
    d = tempfile.mkdtemp(prefix='verif-')
    try:
        path = os.path.join(d, case['file'])
        ok = os.path.splitext(path)[1] == '.dot'
        if not ok:
            e = raises(Exception, V.render_tree, at, path)
            check(e is not None, 'rendered as %s', case['file'])
            check(not os.listdir(d), 'left %r behind', os.listdir(d))
            return False, []
        V.render_tree(at, path)
        with open(path) as fp:
            text = fp.read()
    finally:
        shutil.rmtree(d)
    edges = sorted(re.findall(r'^\s*"(.*?)"\s*->\s*"(.*?)"', text, re.M))
    want = sorted((n.parent.name, n.name) for n in nodes[1:])
    check(edges == want, 'edges %r, the tree has %r', edges, want)
    check('"%s"' % nodes[0].name in text, 'the root is missing')
    return at is not nodes[0], []
