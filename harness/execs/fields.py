import math
from fractions import Fraction

import numpy as np
from traitlets import TraitError

from crowddynamics.core.steering import obstacle_handling as OH
from crowddynamics.core.steering import quickest_path as QP
from crowddynamics.exceptions import ValidationError, \
    CrowdDynamicsException, InvalidType
from crowddynamics.simulation.field import Field
from execs import crowd as K
from execs import steering as S
from vlib import check, vec, require_same, raises


def shape(kind, c):
    """Geometry, whether it is a polygon, and whether it is acceptable."""
    from shapely.geometry import Polygon, LineString, MultiPolygon, \
        GeometryCollection, MultiLineString
    if kind == 'polygon':
        return Polygon(c), True, True
    if kind == 'bow':
        return Polygon(c), True, False
    if kind == 'empty':
        return {'polygon': Polygon, 'collection': GeometryCollection,
                'multipolygon': MultiPolygon,
                'multilinestring': MultiLineString}[c](), c == 'polygon', False
    if kind == 'line':
        return LineString(c), False, True
    if kind == 'polygons':
        ps = [Polygon(r) for r in c]
        if not all(p.is_valid for p in ps):
            return MultiPolygon(ps), False, False
        return MultiPolygon(ps), False, None     # parts may overlap
    if kind == 'none':
        return None, True, True
    return c, False, 'type'


def valid(case):
    f = Field()
    have = {'domain': None, 'obstacles': None}
    no = yes = 0
    for n, (kind, c) in case['ops']:
        g, polygon, ok = shape(kind, c)
        if ok is None:
            continue
        if n == 'domain' and not polygon or ok == 'type':
            ok = 'type'
        if case['init']:
            fn = (lambda: Field(**{n: g}))
        else:
            fn = (lambda: setattr(f, n, g))
        if ok is True:
            fn()
            have[n] = g
            yes += 1
        else:
            want = TraitError if ok == 'type' else ValidationError
            e = raises((TraitError, ValidationError), fn)
            check(e is not None, '%s accepted as %s', (kind, c), n)
            check(isinstance(e, want), '%s refused as %s with %r', (kind, c),
                  n, e)
            no += 1
        if not case['init']:
            for m in have:
                check(getattr(f, m) is have[m], 'the %s is not the last '
                      'accepted one after %s', m, (n, kind))
    return bool(yes and no), []


def make(parts):
    return [shape(k, c)[0] for k, c in parts]


def collect(gs):
    from shapely.geometry import GeometryCollection
    if not gs:
        return None
    return gs[0] if len(gs) == 1 else GeometryCollection(gs)


def ref_hull(points):
    ps = sorted(set(map(tuple, points)))

    def turn(a, b, c):
        a, b, c = [[Fraction(float(x)) for x in p] for p in (a, b, c)]
        return K.cross(K.sub(b, a), K.sub(c, a))

    def half(it):
        out = []
        for p in it:
            while len(out) > 1 and turn(out[-2], out[-1], p) <= 0:
                out.pop()
            out.append(p)
        return out
    return half(ps)[:-1] + half(ps[::-1])[:-1]


def hull(case):
    parts = [p for n in ('obstacles', 'targets', 'spawns') for p in case[n]]
    if not parts:
        return False, ['empty']
    f = Field(obstacles=collect(make(case['obstacles'])),
              targets=make(case['targets']), spawns=make(case['spawns']))
    got = f.convex_hull()
    pts = [p for _, c in parts for p in c]
    want = ref_hull(pts)
    if len(want) < 3:
        return False, ['flat']
    ring = [list(map(float, p)) for p in list(got.exterior.coords)[:-1]]
    h = ref_hull(ring)

    def area(r):
        return abs(sum(K.cross(a, b) for a, b in zip(r, r[1:] + r[:1]))) / 2
    for p in pts:
        for a, b in zip(h, h[1:] + h[:1]):
            check(K.cross(K.sub(b, a), K.sub(p, a)) >= -1e-7,
                  'the point %r lies outside of the convex hull %r', p, ring)
    require_same(area(ring), area(want), 'area of the convex hull', 1e-7,
                 1e-7)
    return sum(bool(case[n]) for n in ('obstacles', 'targets',
                                       'spawns')) > 1, []


def within(p, ring):
    """p is inside the convex ring (signed distance >= -1e-9)."""
    s = sum(K.cross(a, b) for a, b in zip(ring, ring[1:] + ring[:1]))
    return all(K.cross(K.unit(K.sub(b, a)), K.sub(p, a)) * (
        1 if s > 0 else -1) >= -1e-7
        for a, b in zip(ring, ring[1:] + ring[:1]) if a != b)


def samples(case):
    from shapely.geometry import Polygon, LineString
    np.random.seed(case['seed'])
    rings = []
    for s in case['spawns']:
        if 'ring' in s:
            rings.append(s['ring'])
            continue
        w, h = s['size']
        c, t = s['at'], s['turn']
        rings.append([[c[0] + x * math.cos(t) - y * math.sin(t),
                       c[1] + x * math.sin(t) + y * math.cos(t)]
                      for x, y in ((0, 0), (w, 0), (w, h), (0, h))])
    i = case['index']
    s, ring = case['spawns'][i], rings[i]
    r = 0.3 if case['radius'] is None else case['radius']
    walls, cut = None, 0.0
    local = None
    if 'ring' not in s and case['wall'] != 'none':
        # a wall parallel to the first side, at an offset inwards
        w, h = s['size']
        c, t = s['at'], s['turn']
        d = case['offset']

        def place(x, y):
            return (c[0] + x * math.cos(t) - y * math.sin(t),
                    c[1] + x * math.sin(t) + y * math.cos(t))
        if case['wall'] == 'line':
            d = min(d, 0.9 * r)         # nothing is left behind the wall
            walls = LineString([place(-2, d), place(w + 2, d)])
        else:
            walls = Polygon([place(-2, d), place(w + 2, d),
                             place(w + 2, -3), place(-2, -3)])
        cut = max(0.0, d + r)

        def local(p):
            e = K.sub(p, c)
            return e[0] * math.cos(t) + e[1] * math.sin(t), \
                -e[0] * math.sin(t) + e[1] * math.cos(t)
    f = Field(spawns=[Polygon(x) for x in rings], obstacles=walls)
    gen = f.sample_spawn(i) if case['radius'] is None else \
        f.sample_spawn(i, radius=case['radius'])
    low = high = 0
    for _ in range(case['n']):
        p = vec(next(gen))
        check(len(p) == 2 and within(p, ring), 'the sample %r is outside of '
              'the spawn %r', p, ring)
        if local:
            x, y = local(p)
            check(y >= cut - 1e-6, 'the sample %r is %r from the wall, the '
                  'radius is %r', p, y - case['offset'], r)
            m = (cut + s['size'][1]) / 2
            low += y < m
            high += y > m
    if local:
        # 60 fair draws; all on one side has chance 2**-59
        check(low and high, 'all samples lie on one side of the free region')
    return cut > 0, [case['wall'] if 'ring' not in s else 'ring']


def same_map(a, b, what):
    am, bm = np.ma.getmaskarray(a), np.ma.getmaskarray(b)
    check(am.shape == bm.shape and np.array_equal(am, bm),
          '%s: masks differ', what)
    x, y = np.ma.getdata(a)[~am], np.ma.getdata(b)[~bm]
    check(np.allclose(x, y, 1e-9, 1e-9, equal_nan=True), '%s differs', what)


def same_mesh(a, b):
    check(tuple(a.shape) == tuple(b.shape) and float(a.step) == float(b.step)
          and all(np.array_equal(x, y) for x, y in zip(a.values, b.values))
          and list(a.bounds) == list(b.bounds), 'the grid differs')


def maps(case):
    from functools import reduce
    fs, raw = [], []
    for s in case['fields']:
        dom, _, og, _, _ = S.build(s)
        ts = [S.build(dict(s, target=t))[1] for t in s['targets']]
        if s['nodomain']:
            dom = None
        f = Field(obstacles=og, targets=ts)
        if dom is not None:
            f.domain = dom
        fs.append(f)
        raw.append((dom, og, ts))
    seen = {}
    again = False
    for k, q in case['queries']:
        f, (dom, og, ts) = fs[k], raw[k]
        key = (k,) + tuple(q)
        kind = q[0]
        step = case['steps'][q[1] if kind in ('mesh', 'obs') else q[2]]
        idx = q[1]
        if idx in ('i0', 'i1'):
            idx = np.int64(int(idx[1]))
        if kind == 'bad':
            e = raises((InvalidType, CrowdDynamicsException), f.
                       navigation_to_target, idx, step, 0.5, 0.3)
            check(e is not None, 'target index %r was accepted', idx)
            if ts and dom is not None:
                check(isinstance(e, InvalidType), 'target index %r raised '
                      '%r', idx, e)
            continue
        if idx != 'closest' and kind in ('nav', 'path') and \
                ts and int(idx) >= len(ts):
            continue
        calls = {'mesh': lambda: f.meshgrid(step),
                 'obs': lambda: f.direction_map_obstacles(step),
                 'path': lambda: f.shortest_path_target(step, idx, q[3]),
                 'nav': lambda: f.navigation_to_target(idx, step, q[3],
                                                       q[4])}
        if dom is None or kind == 'nav' and not ts:
            e = raises(CrowdDynamicsException, calls[kind]) \
                if kind in ('mesh', 'nav') else True
            check(e is not None, '%s without %s', kind,
                  'domain' if dom is None else 'targets')
            continue
        if kind in ('nav', 'path') and not ts:
            continue
        if kind == 'obs' and og is None:
            continue
        mesh = QP.meshgrid(step, *dom.bounds)
        if kind == 'mesh':
            same_mesh(f.meshgrid(step), mesh)
            continue

        def both(fn):
            try:
                return fn(), None
            except ValueError as e:     # the target is hidden by obstacles
                return None, e

        def direct():
            if kind == 'obs':
                return OH.direction_map_obstacles(mesh, og)
            t = reduce(lambda a, b: a | b, ts) if idx == 'closest' else \
                ts[int(idx)]
            dirs, dmap = QP.shortest_path(mesh, dom, t, og, q[3])
            if kind == 'path' or og is None:
                return dirs, dmap
            do, mo = OH.direction_map_obstacles(mesh, og)
            return OH.obstacle_handling(mo, do, dirs, q[3], q[4]), dmap
        want, e1 = both(direct)
        got, e2 = both(calls[kind])
        check((e1 is None) == (e2 is None), 'query %r: %r, directly %r', q,
              e2, e1)
        if e1 is not None:
            continue
        if kind == 'nav':
            same_mesh(got[0], mesh)
            got = (got[2], got[1])
        (u, v), d = got
        (u1, v1), d1 = want
        same_map(d, d1, 'distance map of %r' % (q,))
        same_map(u, u1, 'direction map (x) of %r' % (q,))
        same_map(v, v1, 'direction map (y) of %r' % (q,))
        again = again or key in seen or any(x[0] != k for x in seen)
        seen[key] = True
    return bool(again), ['n%d' % len(fs)]
