import math
from fractions import Fraction as F

import numpy as np

from crowddynamics.core import vector2D as V
from crowddynamics.core.geom2D import polygon_area, line_intersect
from crowddynamics.core.sensory_region import is_obstacle_between_points
from crowddynamics.core.structures import obstacle_type_linear
from vlib import check, num, vec, require_same, same

PI = math.pi


def unit(x, y):
    l = math.hypot(x, y)
    return (x / l, y / l) if l else (x, y)


def algebra(case):
    rows = case['rows']
    a = np.array([r[0] for r in rows], dtype=np.float64)
    b = np.array([r[1] for r in rows], dtype=np.float64)
    a0, b0 = a.copy(), b.copy()
    w = case['weight']
    for k, ((ax, ay), (bx, by)) in enumerate(rows):
        s = max(1.0, abs(ax), abs(ay), abs(bx), abs(by))
        require_same(vec(V.rotate90(a[k])), [-ay, ax], 'rotate90', 0, 0)
        require_same(vec(V.rotate270(a[k])), [ay, -ax], 'rotate270', 0, 0)
        require_same(num(V.angle(a[k])), math.atan2(ay, ax), 'angle')
        require_same(num(V.length(a[k])), math.hypot(ax, ay), 'length')
        require_same(num(V.dot(a[k], b[k])), ax * bx + ay * by, 'dot',
                     atol=1e-12 * s * s)
        require_same(num(V.cross(a[k], b[k])), ax * by - ay * bx, 'cross',
                     atol=1e-12 * s * s)
        n = vec(V.normalize(a[k]))
        require_same(n, list(unit(ax, ay)), 'normalize %r' % [ax, ay])
        require_same(vec(V.weighted_average(a[k], b[k], w)),
                     [w * ax + (1 - w) * bx, w * ay + (1 - w) * by],
                     'weighted_average', atol=1e-11 * s)
        t = a[k].copy()
        lim = case['limit']
        if isinstance(lim, list):
            lim = lim[1] * (math.hypot(ax, ay) or 1.0)
        if lim < 1e-300:
            continue
        r = V.truncate(t, lim)
        check(r is None or np.all(np.asarray(r) == t), 'truncate returned %r',
              r)
        l = math.hypot(ax, ay)
        f = lim / l if l > lim else 1.0
        require_same(vec(t), [ax * f, ay * f], 'truncate %r to %r' % (
            [ax, ay], lim))
        if l <= lim * (1 - 1e-12):
            require_same(vec(t), [ax, ay], 'truncate (short vector)', 0, 0)
    # row-wise versions
    require_same(vec(V.angle(a)), [math.atan2(y, x) for (x, y), _ in rows],
                 'angle of rows')
    require_same(vec(V.length(a)), [math.hypot(x, y) for (x, y), _ in rows],
                 'length of rows')
    big = max(1.0, np.abs(a).max(), np.abs(b).max()) ** 2
    require_same(vec(V.dot(a, b)), [num(V.dot(x, y)) for x, y in zip(a, b)],
                 'dot of rows', atol=1e-12 * big)
    require_same(vec(V.cross(a, b)),
                 [num(V.cross(x, y)) for x, y in zip(a, b)],
                 'cross of rows', atol=1e-12 * big)
    require_same(vec(V.weighted_average(a, b, w)),
                 vec([V.weighted_average(x, y, w) for x, y in zip(a, b)]),
                 'weighted_average of rows', atol=1e-12 * big)
    check(np.array_equal(a, a0) and np.array_equal(b, b0),
          'an argument was changed')
    rads = case['rads']
    for r in rads:
        wrap(num(V.wrap_to_pi(r)), r)
        require_same(vec(V.unit_vector(r)), [math.cos(r), math.sin(r)],
                     'unit_vector')
    arr = np.array(rads, dtype=np.float64)
    for out, r in zip(vec(V.wrap_to_pi(arr)), rads):
        wrap(out, r)
    uv = np.asarray(V.unit_vector(arr))
    check(uv.shape == (len(rads), 2), 'unit_vector of %d angles has shape %r',
          len(rads), uv.shape)
    require_same(vec(uv), vec([[math.cos(r), math.sin(r)] for r in rads]),
                 'unit_vector of rows')
    check(np.array_equal(arr, np.array(rads)), 'angles were changed')
    return bool(np.any(a0 != 0)), ['rows%d' % len(rows)]


def wrap(out, r):
    check(-PI <= out <= PI, 'wrap_to_pi(%r) = %r is outside [-pi, pi]', r, out)
    turns = (r - out) / (2 * PI)
    check(abs(turns - round(turns)) < 1e-9 * max(1.0, abs(r)),
          'wrap_to_pi(%r) = %r is another angle', r, out)
    if math.fmod(abs(r), 2 * PI) == PI:
        check(out == math.copysign(PI, r),
              'wrap_to_pi(%r) = %r: odd multiples keep their sign', r, out)


def exact_meet(p):
    """(parallel, share a point, margin) by exact rationals."""
    (ax, ay), (bx, by), (cx, cy), (dx, dy) = [
        (F(q[0]), F(q[1])) for q in p]
    ux, uy, vx, vy = bx - ax, by - ay, dx - cx, dy - cy
    wx, wy = cx - ax, cy - ay
    d = ux * vy - uy * vx
    if d == 0:
        # collinear and overlapping?
        def on(qx, qy, x0, y0, x1, y1):
            return (x1 - x0) * (qy - y0) == (y1 - y0) * (qx - x0) and \
                min(x0, x1) <= qx <= max(x0, x1) and \
                min(y0, y1) <= qy <= max(y0, y1)
        meet = on(cx, cy, ax, ay, bx, by) or on(dx, dy, ax, ay, bx, by) or \
            on(ax, ay, cx, cy, dx, dy) or on(bx, by, cx, cy, dx, dy)
        return True, meet, 1.0
    s = (wx * vy - wy * vx) / d
    t = (wx * uy - wy * ux) / d
    margin = min(abs(x) for x in (s, t, s - 1, t - 1))
    size = float(abs(d)) / max(1e-30, float(
        (abs(ux) + abs(uy)) * (abs(vx) + abs(vy))))
    return False, 0 <= s <= 1 and 0 <= t <= 1, min(float(min(margin, 1)), size)


def dyadic(p):
    """Small multiples of one power of two: no rounding in products."""
    top = max(abs(float(x)) for q in p for x in q)
    if top == 0:
        return True
    unit = 2.0 ** (math.frexp(top)[1] - 7)
    return all(float(x) / unit == int(float(x) / unit) for q in p for x in q)


def intersect(case):
    p = [np.array(q, dtype=np.float64) for q in case]
    parallel, meet, margin = exact_meet(case)
    for order in ((0, 1, 2, 3), (1, 0, 2, 3), (0, 1, 3, 2), (2, 3, 0, 1),
                  (3, 2, 1, 0)):
        got = bool(line_intersect(*[p[k] for k in order]))
        if parallel:
            # overlapping collinear segments share more than a point: left
            # open
            if not meet and dyadic(case):
                check(not got, 'parallel apart segments intersect')
        elif dyadic(case) or margin > 1e-9:
            check(got == meet, 'line_intersect in order %r is %r, exact '
                  'answer is %r', order, got, meet)
    for q, c in zip(p, case):
        require_same(vec(q), c, 'argument after the call', 0, 0)
    return not parallel, ['parallel' if parallel else
                          'meet' if meet else 'apart',
                          'touching' if margin == 0 else 'generic']


def shoelace(v):
    n = len(v)
    if n < 3:
        return 0.0
    v = [(F(x), F(y)) for x, y in v]
    s = sum(v[i][0] * v[(i + 1) % n][1] - v[(i + 1) % n][0] * v[i][1]
            for i in range(n))
    return float(abs(s) / 2)


def area(case):
    v = case['v']
    want = shoelace(v)
    n = len(v)

    def arr(q):
        return np.array(q, dtype=np.float64).reshape(-1, 2)
    tol = dict(rtol=1e-9, atol=1e-9)
    a = arr(v)
    require_same(num(polygon_area(a)), want, 'area of %r' % v, **tol)
    check(np.array_equal(a, arr(v)), 'the vertices were changed')
    if n:
        k = case['shift'] % n
        require_same(num(polygon_area(arr(v[k:] + v[:k]))), want,
                     'area from another start vertex', **tol)
        require_same(num(polygon_area(arr(v[::-1]))), want,
                     'area of the reversed polygon', **tol)
        mx, my = case['move']
        require_same(num(polygon_area(arr([[x + mx, y + my]
                                           for x, y in v]))),
                     want, 'area of the moved polygon', 1e-9, 1e-8)
        c, s = math.cos(case['turn']), math.sin(case['turn'])
        require_same(num(polygon_area(arr([[c * x - s * y, s * x + c * y]
                                           for x, y in v]))),
                     want, 'area of the turned polygon', 1e-9, 1e-8)
        f = case['scale']
        require_same(num(polygon_area(arr([[f * x, f * y] for x, y in v]))),
                     want * f * f, 'area of the scaled polygon', 1e-9, 1e-8)
        # closing the ring explicitly adds nothing
        require_same(num(polygon_area(arr(v + v[:1]))), want,
                     'area of the closed ring', **tol)
    return want > 0, ['n%d' % n]


def sight(case):
    p, q = [np.array(x, dtype=np.float64) for x in case['p']]
    obs = np.zeros(len(case['obstacles']), dtype=obstacle_type_linear)
    hits, open_ = [], False
    for k, (s, e) in enumerate(case['obstacles']):
        obs[k]['p0'], obs[k]['p1'] = s, e
        parallel, meet, _ = exact_meet(case['p'] + [s, e])
        if parallel and meet:
            open_ = True
        else:
            hits.append(meet)
    got = bool(is_obstacle_between_points(p, q, obs))
    back = bool(is_obstacle_between_points(q, p, obs))
    if any(hits) or not open_:
        check(got == any(hits), 'obstacle between %r: %r, exact answer %r',
              case['p'], got, any(hits))
        check(back == got, 'sight depends on the direction')
    return bool(hits) and not all(hits), ['blocked' if any(hits) else 'free']
