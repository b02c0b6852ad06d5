import math

import numpy as np

from crowddynamics.core.steering import collective_motion as CM
from crowddynamics.core.steering import navigation as NA
from crowddynamics.core.steering import obstacle_handling as OH
from crowddynamics.core.steering import quickest_path as QP
from execs import crowd as K
from execs.places import sees
from vlib import check, num, vec, require_same, same

# C20


def mesh(case):
    s, (x0, y0), (w, h) = case['step'], case['min'], case['size']
    x1, y1 = x0 + w, y0 + h
    g = QP.meshgrid(s, x0, y0, x1, y1)
    X, Y = [np.asarray(v) for v in g.values]
    ny, nx = X.shape
    check(tuple(g.shape) == (ny, nx) and Y.shape == (ny, nx),
          'shape %r for values of shape %r', g.shape, X.shape)
    require_same(float(g.step), s, 'step')
    require_same(list(g.bounds), [x0, y0, x1, y1], 'bounds')
    eps = 1e-9 * (1 + abs(x0) + abs(y0) + w + h)
    for name, v, a, b, n in (('x', X[0], x0, x1, nx), ('y', Y[:, 0], y0, y1,
                                                      ny)):
        require_same(vec(v), [a + k * s for k in range(n)],
                     '%s coordinates' % name, 1e-9, eps)
        check(float(v[-1]) >= b - eps, 'the last %s %r leaves %r uncovered',
              name, float(v[-1]), b)
        check(float(v[-1]) < b + s + eps, 'the last %s %r is too far beyond '
              '%r', name, float(v[-1]), b)
    check(np.array_equal(X, np.tile(X[0], (ny, 1))) and
          np.array_equal(Y, np.tile(Y[:, :1], (1, nx))),
          'the values are no grid')
    # positions in the interior of each cell belong to its lower node
    ps, want = [], []
    for u, v in case['p']:
        i, j = int(u * (w / s)), int(v * (h / s))
        fu, fv = 0.001 + 0.998 * (u * 7919 % 1), 0.001 + 0.998 * (v * 104729
                                                                  % 1)
        ps.append([x0 + (i + fu) * s, y0 + (j + fv) * s])
        want.append([i, j])
    if ps:
        got = np.asarray(g.indicer(np.array(ps)))
        check(got.dtype.kind == 'i', 'indices have type %r', got.dtype)
        check(got.tolist() == want, 'indices of %r are %r, expected %r', ps,
              got.tolist(), want)
        one = np.asarray(g.indicer(ps[0])).tolist()
        check(one == want[0], 'index of one position is %r', one)
    # nodes themselves, up to rounding
    nodes = np.stack((X.ravel(), Y.ravel()), axis=1)[:400]
    got = np.asarray(g.indicer(nodes)).tolist()
    for (i, j), (x, y) in zip(got, nodes.tolist()):
        check(0 <= i < nx and 0 <= j < ny and
              abs(X[j, i] - x) < s + eps and abs(Y[j, i] - y) < s + eps and
              x - X[j, i] > -eps and y - Y[j, i] > -eps,
              'the node at %r has the index %r', (x, y), (i, j))
    return nx > 1 and ny > 1, []


def gradient(case):
    n, m = case['shape']
    rnd = np.random.RandomState(case['seed'])
    i, j = np.mgrid[0:n, 0:m].astype(float)
    k = case['kind']
    if k == 'noise':
        d = rnd.uniform(-5, 5, (n, m))
    elif k == 'plane':
        d = math.cos(case['tilt']) * i + math.sin(case['tilt']) * j
    elif k == 'cone':
        d = -np.hypot(i - n / 3.0, j - m / 1.7)
    else:
        d = np.where(i < n / 2.0, 1.0, 2.0 + 0 * i)
    mask = np.zeros((n, m), dtype=bool)
    a = d
    if case['mask']:
        mask = rnd.uniform(size=(n, m)) < 0.2
        a = np.ma.MaskedArray(d.copy(), mask)
    d0 = d.copy()
    u, v = QP.direction_map(a)
    check(np.array_equal(d, d0), 'the distance map changed')
    um, vm = np.ma.getmaskarray(u), np.ma.getmaskarray(v)
    ud, vd = np.ma.getdata(u), np.ma.getdata(v)
    check(ud.shape == (n, m) and vd.shape == (n, m), 'shape %r', ud.shape)

    def diff(f, k, n):
        if k == 0:
            return f(1) - f(0), [0, 1]
        if k == n - 1:
            return f(n - 1) - f(n - 2), [n - 1, n - 2]
        return (f(k + 1) - f(k - 1)) / 2, [k - 1, k + 1]
    some = False
    for r in range(n):
        for c in range(m):
            gy, rows = diff(lambda q: d[q, c], r, n)
            gx, cols = diff(lambda q: d[r, q], c, m)
            if mask[r, c] or any(mask[q, c] for q in rows) or \
                    any(mask[r, q] for q in cols):
                continue
            l = math.hypot(gx, gy)
            if l < 1e-9:
                if l == 0 and not um[r, c]:
                    check(not math.isfinite(ud[r, c]), 'direction %r where '
                          'the gradient is zero', (ud[r, c], vd[r, c]))
                continue
            check(not um[r, c] and not vm[r, c], 'direction masked where the '
                  'gradient is not zero')
            some = True
            require_same([float(ud[r, c]), float(vd[r, c])], [gx / l, gy / l],
                         'direction at node %r' % ((r, c),), 1e-9, 1e-9)
    return some, [k, 'masked' if mask.any() else 'plain']


def build(case):
    from shapely.geometry import Polygon, LineString, MultiPolygon
    from shapely.geometry import MultiLineString, GeometryCollection
    (x0, y0), (w, h) = case['min'], case['size']

    def place(c):
        return [(x0 + x * w, y0 + y * h) for x, y in c]

    def shape(c):
        return LineString(c) if len(c) == 2 else Polygon(c)
    dom = Polygon(place([[0, 0], [1, 0], [1, 1], [0, 1]]))
    t = place(case['target'])
    obs = [place(o) for o in case['obstacles']]
    g = [shape(o) for o in obs]
    if not g:
        og = None
    elif len(g) == 1:
        og = g[0]
    elif all(len(o) == 2 for o in obs):
        og = MultiLineString(g)
    elif all(len(o) == 4 for o in obs):
        og = MultiPolygon(g)
    else:
        og = GeometryCollection(g)
    return dom, shape(t), og, t, obs


def inside(c, p):
    return len(c) == 4 and (min(x for x, _ in c) < p[0] < max(
        x for x, _ in c) and min(y for _, y in c) < p[1] < max(
        y for _, y in c))


def depth(c, p):
    return min(K.norm(K.sub(p, K.closest_on_segment(p, a, b)))
               for a, b in zip(c, c[1:] + c[:1]))


def far(c, p):
    """Distance of the point from the segment or (axis parallel) block and
    the nearest point."""
    if inside(c, p):
        return 0.0, list(p)
    best = None
    for a, b in zip(c, c[1:] + (c[:1] if len(c) > 2 else [])):
        q = K.closest_on_segment(p, a, b)
        d = K.norm(K.sub(p, q))
        if best is None or d < best[0]:
            best = (d, q)
    return best


def seg_far(p, q, c):
    """Least distance of sampled points of the segment pq from c."""
    n = 40
    return min(far(c, [p[0] + (q[0] - p[0]) * k / n,
                       p[1] + (q[1] - p[1]) * k / n])[0]
               for k in range(n + 1))


def distances(case):
    dom, target, obstacles, t, obs = build(case)
    s = case['step']
    if any(seg_far(a, b, o) < 2 * s for o in obs
           for a, b in zip(t, t[1:] + t[:1])):
        return False, ['crowded']
    g = QP.meshgrid(s, *dom.bounds)
    X, Y = g.values
    dmap = QP.distance_map(g, target, obstacles)
    check(dmap.shape == tuple(g.shape), 'distance map of shape %r',
          dmap.shape)
    mask = np.ma.getmaskarray(dmap)
    D = np.ma.getdata(dmap)
    n, m = D.shape
    for i in range(n):
        for j in range(m):
            p = [float(X[i, j]), float(Y[i, j])]
            near = min([far(o, p)[0] for o in obs] or [1e9])
            d, q = far(t, p)
            if any(inside(o, p) and depth(o, p) > 1.5 * s for o in obs):
                check(mask[i, j], 'the node at %r inside an obstacle is not '
                      'masked', p)
            if near < 2.5 * s:
                continue
            x = -float(D[i, j])
            free = all(seg_far(p, q, o) > 2.5 * s for o in obs)
            if free:
                check(not mask[i, j], 'the node at %r is masked', p)
            elif mask[i, j]:
                continue
            if d == 0:
                check(x <= 2 * s, 'distance %r on the target at %r', x, p)
                continue
            check(x >= d - 2.2 * s, 'distance map is %r at %r, the target '
                  'is %r away', x, p, d)
            if free:
                check(x <= d * 1.08 + 2.5 * s, 'distance map is %r at %r, '
                      'the target is %r away in a straight line', x, p, d)
    return bool(obs), ['n%d' % len(obs), 'block' if len(t) > 2 else 'line']


def paths(case):
    dom, target, obstacles, t, obs = build(case)
    s = case['step']
    x0, y0 = case['min']
    w, h = case['size']
    clear = case['buffer'] + 2 * s
    # a target close to an obstacle, or obstacles close to each other or to
    # the border, leave no passage on a coarse grid
    edges = set()
    for k, o in enumerate(obs):
        if min(seg_far(a, b, t) for a, b in
               zip(o, o[1:] + (o[:1] if len(o) > 2 else []))) < clear:
            return False, ['crowded']
        for q in obs[:k]:
            if min(seg_far(a, b, q) for a, b in
                   zip(o, o[1:] + (o[:1] if len(o) > 2 else []))) < 2 * clear:
                return False, ['crowded']
        for x, y in o:
            edges |= {k for k, z in enumerate((x - x0, y - y0, x0 + w - x,
                                               y0 + h - y)) if z < clear}
    if len(edges) > 1:
        return False, ['crowded']
    g = QP.meshgrid(s, *dom.bounds)
    (u, v), dmap = QP.shortest_path(g, dom, target, obstacles, case['buffer'])
    um = np.ma.getmaskarray(u) | np.ma.getmaskarray(v)
    U, V = np.ma.getdata(u), np.ma.getdata(v)
    X, Y = g.values
    D = -np.ma.getdata(dmap)
    l = np.hypot(U, V)
    ok = ~um & np.isfinite(l)
    check(np.all(np.abs(l[ok] - 1) < 1e-6), 'directions are not unit vectors')
    hidden = False
    for fx, fy in case['starts']:
        p = [x0 + fx * w, y0 + fy * h]
        if any(far(o, p)[0] < clear for o in obs):
            continue
        d, q = far(t, p)
        if any(seg_far(p, q, o) < 1e-3 for o in obs):
            hidden = True
        # walk
        limit = 3 * d + 2 * (w + h) * (1 if obs else 0) + 10 * s
        gone = 0.0
        while far(t, p)[0] > 2.0 * s:
            i = min(max(int(round((p[1] - y0) / s)), 0), U.shape[0] - 1)
            j = min(max(int(round((p[0] - x0) / s)), 0), U.shape[1] - 1)
            near, q = min((far(o, p) for o in obs), default=(1e9, None))
            if not ok[i, j]:
                check(near < 2 * s, 'no direction at %r on the way to the '
                      'target', p)
            e = [float(U[i, j]), float(V[i, j])] if ok[i, j] else None
            if near < 0.5 * s or e is None:
                # what the contact with an obstacle does
                n = K.unit(K.sub(p, q))
                e = n if e is None else K.sub(e, K.mul(min(
                    0.0, K.dot(e, n)) - 0.2, n))
            p = K.add(p, K.mul(0.4 * s, e))
            check(not any(far(o, p)[0] < 1e-9 for o in obs),
                  'the way leads through an obstacle at %r', p)
            p = [min(max(p[0], x0), x0 + w), min(max(p[1], y0), y0 + h)]
            gone += 0.4 * s
            check(gone < limit, 'starting from %r, %.1f away, the way does '
                  'not end: at %r after %.1f', [x0 + fx * w, y0 + fy * h], d,
                  p, gone)
    return hidden, ['n%d' % len(obs)]


def ring_has(c, p):
    """Even-odd test of the closed ring c."""
    r = False
    for (ax, ay), (bx, by) in zip(c, c[1:] + c[:1]):
        if (ay > p[1]) != (by > p[1]) and \
                p[0] < (bx - ax) * (p[1] - ay) / (by - ay) + ax:
            r = not r
    return r


def drawn(case):
    from crowddynamics.core.geometry import draw_geom
    from execs.storage import geom
    n, shapes = case['n'], case['shapes']
    if case['group'] == 'each':
        gs = [geom(x) for x in shapes]
    elif case['group'] == 'MultiPolygon' and \
            all(x[0] == 'Polygon' for x in shapes):
        gs = [geom(['MultiPolygon', [x[1] for x in shapes]])]
    else:
        gs = [geom(['GeometryCollection', shapes])]
    dtype = bool if case['value'] is True else float
    bg = dtype(case['background'])
    grid = np.full((n, n), bg, dtype=dtype)
    for g in gs:
        draw_geom(g, grid, lambda q: np.asarray(q).astype(np.int64),
                  case['value'])
    check(grid.shape == (n, n), 'shape %r', grid.shape)
    check(set(np.unique(grid).tolist()) <= {bg, dtype(case['value'])},
          'values %r on a background of %r', np.unique(grid).tolist(), bg)
    holes = False
    for i in range(n):
        for j in range(n):
            p = (j, i)
            inside, close = False, False
            for t, c in shapes:
                if t == 'Polygon':
                    holes = holes or len(c) > 1
                    edges = [e for r in c for e in zip(r, r[1:] + r[:1])]
                elif t == 'LineString':
                    edges = list(zip(c, c[1:]))
                else:
                    continue
                if min(K.norm(K.sub(p, K.closest_on_segment(p, a, b)))
                       for a, b in edges) < 2.2:
                    close = True
                elif t == 'Polygon' and ring_has(c[0], p) and \
                        not any(ring_has(r, p) for r in c[1:]):
                    inside = True
            if inside:
                check(grid[i, j] == case['value'], 'the node at %r inside a '
                      'shape is not drawn', p)
            elif not close:
                check(grid[i, j] == bg, 'the node at %r outside of all '
                      'shapes is %r', p, grid[i, j])
    for t, c in shapes:
        if t == 'LineString':
            for x, y in c:
                check(grid[int(y), int(x)] == case['value'], 'the vertex %r '
                      'of a line is not drawn', (x, y))
    return holes or len(shapes) > 1, [case['group']]


def rooms(case):
    from shapely.geometry import Polygon, LineString, MultiLineString
    from shapely.geometry import GeometryCollection
    s, r = case['step'], case['buffer']
    (x0, y0), (w, h) = case['min'], case['size']

    def place(c):
        return [(x0 + x * w, y0 + y * h) for x, y in c]
    a, b = case['door']
    turn = {0: lambda x, y: (y, x), 1: lambda x, y: (1 - y, x),
            2: lambda x, y: (x, y), 3: lambda x, y: (x, 1 - y)}[case['side']]
    t = place([turn(a, 0), turn(b, 0)])
    wall = place([turn(*q) for q in [(b, 0), (1, 0), (1, 1), (0, 1), (0, 0),
                                     (a, 0)]])
    inner = [place(o) for o in case['walls']]
    segs = [list(x) for x in zip(wall, wall[1:])]
    obs = segs + inner
    need = r + 2.5 * s
    if K.norm(K.sub(t[1], t[0])) < 2 * need:
        return False, ['crowded']
    if any(seg_far(t[0], t[1], o) < 2 * need for o in inner):
        return False, ['crowded']
    lines = [LineString(wall)] + [LineString(o) for o in inner
                                  if len(o) == 2]
    blocks = [Polygon(o) for o in inner if len(o) == 4]
    g = lines + blocks
    og = g[0] if len(g) == 1 else GeometryCollection(g) if blocks else \
        MultiLineString(lines)
    dom = Polygon(place([[0, 0], [1, 0], [1, 1], [0, 1]]))
    mg = QP.meshgrid(s, *dom.bounds)
    (u, v), dmap = QP.shortest_path(mg, dom, LineString(t), og, r)
    X, Y = [np.asarray(q) for q in mg.values]
    n, m = X.shape
    mask = np.ma.getmaskarray(dmap)
    D = -np.ma.getdata(dmap)
    um = np.ma.getmaskarray(u) | np.ma.getmaskarray(v)
    U, V = np.ma.getdata(u), np.ma.getdata(v)
    check(mask.shape == (n, m) and um.shape == (n, m), 'shapes %r and %r for '
          'a grid of %r', mask.shape, um.shape, (n, m))
    near = np.zeros((n, m))
    for i in range(n):
        for j in range(m):
            near[i, j] = min(far(o, (float(X[i, j]), float(Y[i, j])))[0]
                             for o in obs)
    ins = (X <= x0 + w + 1e-9) & (Y <= y0 + h + 1e-9)
    # shortest ways over clear nodes: an upper bound of the distances
    import heapq
    best = np.full((n, m), np.inf)
    heap = []
    for i in range(n):
        for j in range(m):
            if ins[i, j] and near[i, j] > need:
                d = far(t, (float(X[i, j]), float(Y[i, j])))[0]
                if d < 3.5 * s:
                    heap.append((d, i, j))
                    best[i, j] = d
    heapq.heapify(heap)
    while heap:
        d, i, j = heapq.heappop(heap)
        if d > best[i, j]:
            continue
        for di in (-1, 0, 1):
            for dj in (-1, 0, 1):
                p, q = i + di, j + dj
                if 0 <= p < n and 0 <= q < m and ins[p, q] and \
                        near[p, q] > need:
                    e = d + s * math.hypot(di, dj)
                    if e < best[p, q] - 1e-12:
                        best[p, q] = e
                        heapq.heappush(heap, (e, p, q))
    for i in range(n):
        for j in range(m):
            if not ins[i, j]:
                continue
            p = (float(X[i, j]), float(Y[i, j]))
            edge = min(p[0] - x0, p[1] - y0, x0 + w - p[0], y0 + h - p[1])
            if near[i, j] < r - 1.5 * s and edge > 1.5 * s:
                check(mask[i, j], 'the node at %r, %r from an obstacle, is '
                      'not masked', p, near[i, j])
            if near[i, j] < s:
                continue
            if not um[i, j] and math.isfinite(float(U[i, j])):
                l = math.hypot(float(U[i, j]), float(V[i, j]))
                check(abs(l - 1) < 1e-6, 'direction of length %r at %r', l, p)
            if not math.isfinite(best[i, j]):
                continue
            check(not mask[i, j], 'the node at %r, %r from any obstacle, is '
                  'masked', p, near[i, j])
            d = far(t, p)[0]
            check(D[i, j] >= d - 2.2 * s, 'distance map is %r at %r, the '
                  'door is %r away', float(D[i, j]), p, d)
            check(D[i, j] <= best[i, j] * 1.1 + 3 * s, 'distance map is %r '
                  'at %r, a way of length %r leads to the door',
                  float(D[i, j]), p, float(best[i, j]))
            if 2 < i < n - 3 and 2 < j < m - 3 and d > 3 * s:
                check(not um[i, j], 'no direction at %r', p)
    return bool(inner), ['n%d' % len(inner)]


# C21

def merge(case):
    n, m = case['shape']
    rnd = np.random.RandomState(case['seed'])
    r, c = case['radius'], case['strength']
    d = -rnd.uniform(-0.5 * r, 2 * r, (n, m))
    if case['grid']:
        d = np.round(d / r * 4) / 4 * r
    a, b = rnd.uniform(-math.pi, math.pi, (2, n, m))
    ob = (np.cos(a), np.sin(a))
    ta = (np.cos(b), np.sin(b))
    copies = [x.copy() for x in (d,) + ob + ta]
    u, v = OH.obstacle_handling(d, ob, ta, r, c)
    u, v = np.asarray(u), np.asarray(v)
    inn = out = 0

    def want(i, j, e):
        x = -float(d[i, j])
        if not 0 < x < r:
            return e, False, 1.0
        p = c ** (x / r)
        w = [-p * float(o[i, j]) + (1 - p) * ee for o, ee in zip(ob, e)]
        l = K.norm(w)
        return (K.mul(1 / l, w) if l else None), True, l
    check(u.shape == (n, m) and v.shape == (n, m), 'shape %r', u.shape)
    for i in range(n):
        for j in range(m):
            e, near, l = want(i, j, [float(x[i, j]) for x in ta])
            inn += near
            out += not near
            if l > 1e-9:
                require_same([float(u[i, j]), float(v[i, j])], e,
                             'merged direction', 1e-6, 1e-9 / l)
    idx = np.array(case['indices'], dtype=np.int64).reshape(-1, 2)
    t = rnd.uniform(-math.pi, math.pi, len(idx))
    dirs = np.stack((np.cos(t), np.sin(t)), axis=1)
    dirs0, idx0 = dirs.copy(), idx.copy()
    got = np.asarray(OH.obstacle_handling_continuous(d, ob, dirs, idx, r, c))
    check(got.shape == dirs.shape, 'shape %r for %r', got.shape, dirs.shape)
    for k, (i, j) in enumerate(idx.tolist()):
        e, l = vec(dirs0[k]), 1.0
        if 0 <= i < n and 0 <= j < m:
            e, _, l = want(i, j, e)
        if l > 1e-9:
            require_same(vec(got[k]), e, 'direction of agent %d at %r' % (
                k, (i, j)), 1e-6, 1e-9 / l)
    look = np.asarray(NA.getdefault(idx, ta, dirs))
    check(look.shape == dirs.shape, 'shape %r', look.shape)
    for k, (i, j) in enumerate(idx.tolist()):
        e = vec(dirs0[k])
        if 0 <= i < n and 0 <= j < m:
            e = [float(ta[0][i, j]), float(ta[1][i, j])]
        require_same(vec(look[k]), e, 'looked up direction at %r' % ((i, j),),
                     0, 0)
    check(np.array_equal(dirs, dirs0) and np.array_equal(idx, idx0) and
          all(np.array_equal(x, y) for x, y in zip((d,) + ob + ta, copies)),
          'an argument was changed')
    return inn > 0 and out > 0, ['inside' if inn else 'outside']


# C22

class Unclear(Exception):
    pass


def heads(x1, x2, v1, v2, phi):
    """Whether agent 2 does not head for agent 1 (so that 1 may follow)."""
    if K.norm(v1) == 0 or K.norm(v2) == 0:
        return False
    e = K.sub(x1, x2)
    l = K.norm(e)
    if l == 0:
        raise Unclear
    c = K.dot(e, v2) / l / K.norm(v2)
    if abs(c - math.cos(phi)) < 1e-9:
        raise Unclear
    return not c > math.cos(phi)


def relation(case):
    x1, x2, v1, v2 = case['x1'], case['x2'], case['v1'], case['v2']
    phi = case['phi']
    d = K.sub(x2, x1)
    if case['aim'] & 1:
        v1 = K.mul(0.5, d)
    if case['aim'] & 2:
        v2 = K.mul(-0.25, d)
    elif case['aim'] & 4:
        v2 = list(d)
    a = [np.array(x, dtype=np.float64) for x in (x1, x2, v1, v2)]
    kw = {} if phi is None else {'phi': phi}
    if phi is None:
        phi = math.pi / 2
    try:
        want = (heads(x1, x2, v1, v2, phi), heads(x2, x1, v2, v1, phi))
    except Unclear:
        return False, ['unclear']
    r = CM.herding_relationship(*a, **kw)
    got = (bool(r[0]), bool(r[1]))
    check(got == want, 'agents at %r moving %r: relation %r, expected %r',
          (x1, x2), (v1, v2), got, want)
    r = CM.herding_relationship(a[1], a[0], a[3], a[2], **kw)
    check((bool(r[1]), bool(r[0])) == want, 'the relation is %r when the '
          'agents are swapped, expected %r', r, want[::-1])
    return K.norm(v1) > 0 and K.norm(v2) > 0, ['%d%d' % want]


def data(case):
    a = K.make(case['model'], case['agents'], mixed=False)
    return a, [list(map(float, p)) for p in a['position']], \
        [list(map(float, v)) for v in a['velocity']], \
        [(list(p), list(q)) for p, q in case['walls']]


def near_set(k, pos, walls, sight):
    out, hidden = [], 0
    for j in range(len(pos)):
        if j == k:
            continue
        d = K.norm(K.sub(pos[k], pos[j]))
        if abs(d - sight) < 1e-9:
            raise Unclear
        if d > sight:
            continue
        if d == 0:
            raise Unclear
        s = sees(pos[k], pos[j], walls)
        if s is None:
            raise Unclear
        if s:
            out.append((d, j))
        else:
            hidden += 1
    return sorted(out), hidden


def neighbors(case):
    case = K.tiled(case)
    from cell_lists import add_to_cells, neighboring_cells
    a, pos, vel, walls = data(case)
    if not len(a):
        return False, ['empty']
    pi, cc, co, shape = add_to_cells(a['position'], case['sight'])
    got = np.asarray(CM.find_nearest_neighbors(
        a['position'], case['sight'], case['size'], np.arange(len(cc)),
        neighboring_cells(shape), pi, cc, co, K.walls(walls)))
    check(got.shape == (len(a), case['size']), 'neighbours of shape %r',
          got.shape)
    hard = False
    for k in range(len(a)):
        try:
            near, hidden = near_set(k, pos, walls, case['sight'])
        except Unclear:
            continue
        row = [int(j) for j in got[k] if j != CM.MISSING_NEIGHBOR]
        n = min(case['size'], len(near))
        hard = hard or n and (hidden or len(near) > n)
        check(len(row) == n and len(set(row)) == n,
              'agent %d has the neighbours %r, %d are due', k, row, n)
        if n:
            last = near[n - 1][0]
            ok = [j for d, j in near if d <= last + 1e-9]
            must = [j for d, j in near if d < last - 1e-9]
            check(set(must) <= set(row) <= set(ok), 'agent %d has the '
                  'neighbours %r, nearest are %r', k, row, near)
    return bool(hard), ['n%d' % min(len(a), 4),
                        'large' if case.get('tile') else 'small']


def averaged(a, b, w):
    r = K.add(K.mul(w, a), K.mul(1 - w, b))
    if K.norm(r) < 1e-9:
        raise Unclear
    return K.unit(r)


def follow(rows, pos, vel, walls, sight, phi, w):
    """Reference for the leader following: directions and strategies; rows
    (targets and remembered leaders) are updated."""
    n = len(rows)
    out = [[0.0, 0.0] for _ in range(n)]
    has = [False] * n
    leaders = [j for j in range(n) if rows[j]['is_leader']]
    for i in range(n):
        try:
            follow_one(i, rows, pos, vel, walls, sight, phi, w, leaders, out,
                       has)
        except Unclear:
            rows[i]['unclear'] = True
    return out, has


def follow_one(i, rows, pos, vel, walls, sight, phi, w, leaders, out, has):
    r = rows[i]
    if not r['is_follower']:
        return
    cand = []
    for j in leaders:
        d = K.norm(K.sub(pos[i], pos[j]))
        if abs(d - sight) < 1e-9 or d == 0:
            raise Unclear
        if d < sight:
            cand.append((d, j))
    cand.sort()
    if any(y[0] - x[0] < 1e-9 for x, y in zip(cand, cand[1:])):
        raise Unclear
    decided = False
    for d, j in cand:
        s = sees(pos[i], pos[j], walls)
        if s is None:
            raise Unclear
        if not s:
            if r['index_leader'] == j:
                r['target'] = rows[j]['target']
                has[i] = decided = True
                break
        elif heads(pos[i], pos[j], vel[i], vel[j], phi):
            r['index_leader'] = j
            r['target'] = -1
            out[i] = averaged(K.unit(K.sub(pos[j], pos[i])),
                              K.unit(vel[j]), w)
            has[i] = decided = True
            break
    if not decided and r['index_leader'] != -1:
        r['target'] = rows[r['index_leader']]['target']
        has[i] = True


def prepare(case):
    """Only leaders may be remembered, and nobody both leads and follows."""
    rows = [dict(r) for r in case['agents']]
    for r in rows:
        k = r['index_leader']
        if k >= 0 and not rows[k]['is_leader']:
            r['index_leader'] = -1
    return rows


def compare(before, a, rows, got, want, what):
    K.unchanged(before, a, 'target', 'index_leader')
    got = np.asarray(got)
    check(got.shape == (len(rows), 2), 'directions of shape %r', got.shape)
    for i, r in enumerate(rows):
        if r.get('unclear'):
            continue
        for n in ('target', 'index_leader'):
            check(int(a[n][i]) == r[n], '%s of agent %d is %d, expected %d',
                  n, i, a[n][i], r[n])
        require_same(vec(got[i]), want[i], '%s of agent %d' % (what, i),
                     1e-6, 1e-6)


def leaders(case):
    case = K.tiled(case)
    rows = prepare(case)
    a, pos, vel, walls = data(dict(case, agents=rows))
    before = a.copy()
    kw = {} if case['phi'] is None else {'phi': case['phi']}
    phi = 0.45 * math.pi if case['phi'] is None else case['phi']
    got = CM.leader_follower_interaction(a, K.walls(walls), case['sight'],
                                         **kw)
    out, has = follow(rows, pos, vel, walls, case['sight'], phi, 0.4)
    for i, r in enumerate(rows):
        if r['is_follower'] and not has[i]:
            r['target'] = r['familiar_exit']
    compare(before, a, rows, got, out, 'leader direction')
    f = [i for i, r in enumerate(rows) if r['is_follower']]
    return any(has), ['follow' if any(any(o) for o in out) else 'none',
                      'lost' if any(not has[i] for i in f) else 'led']


def herd_direction(i, pos, vel, walls, sight, n, phi):
    near, _ = near_set(i, pos, walls, sight)
    if len(near) > n > 0 and near[n][0] - near[n - 1][0] < 1e-9:
        raise Unclear
    js = [j for d, j in near[:n]
          if heads(pos[i], pos[j], vel[i], vel[j], phi)]
    if not js:
        return None
    mp = K.mul(1 / len(js), [sum(pos[j][k] for j in js) for k in (0, 1)])
    mv = [sum(vel[j][k] for j in js) for k in (0, 1)]
    dp = K.sub(mp, pos[i])
    if min(K.norm(mv), K.norm(dp)) < 1e-9:
        raise Unclear
    return averaged(K.unit(dp), K.unit(mv), 0.15)


def herding(case):
    case = K.tiled(case)
    rows = prepare(case)
    a, pos, vel, walls = data(dict(case, agents=rows))
    if not len(a):
        return False, ['empty']
    before = a.copy()
    kw = {} if case['phi'] is None else {'phi': case['phi']}
    phi = 0.45 * math.pi if case['phi'] is None else case['phi']
    herd = [[0.0, 0.0] for _ in rows]
    has_h = [False] * len(rows)
    for i, r in enumerate(rows):
        if not r['is_follower']:
            continue
        try:
            d = herd_direction(i, pos, vel, walls, case['sight'],
                               case['size'], phi)
        except Unclear:
            r['unclear'] = True
            continue
        if d:
            herd[i] = d
            has_h[i] = True
            r['target'] = -1
    led, has_l = follow(rows, pos, vel, walls, 20.0, phi, 0.4)
    want = []
    for i, r in enumerate(rows):
        d = K.add(K.mul(0.65, led[i]), K.mul(0.35, herd[i]))
        if (any(led[i]) or any(herd[i])) and K.norm(d) < 1e-9:
            r['unclear'] = True
        want.append(K.unit(d))
        if r['is_follower'] and not has_h[i] and not has_l[i]:
            r['target'] = r['familiar_exit']
    got = CM.leader_follower_with_herding_interaction(
        a, K.walls(walls), case['sight'], case['size'], **kw)
    compare(before, a, rows, got, want, 'herding direction')
    return any(has_h), ['herd' if any(has_h) else 'alone',
                        'led' if any(has_l) else 'free',
                        'large' if case.get('tile') else 'small']
