import math
from fractions import Fraction

import numpy as np

from _stubmissing import StubMissing


# --- plain coordinate helpers -------------------------------------------

def _pt(c):
    c = list(c)
    if len(c) < 2:
        raise ValueError('coordinates need two components')
    return (float(c[0]), float(c[1]))


def _coords(obj):
    if isinstance(obj, BaseGeometry):
        return list(obj.coords)
    return [p.coords[0] if isinstance(p, Point) else _pt(p) for p in obj]


def _signed_area(ring):
    s = 0.0
    n = len(ring)
    x0, y0 = ring[0] if n else (0, 0)
    for k in range(n):
        x1, y1 = ring[k]
        x2, y2 = ring[(k + 1) % n]
        s += (x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0)
    return s / 2.0


def _turn(a, b, c):
    """Sign of the turn from a over b to c, exact as in GEOS."""
    u, v = (b[0] - a[0]) * (c[1] - a[1]), (b[1] - a[1]) * (c[0] - a[0])
    if abs(u - v) > 1e-12 * (abs(u) + abs(v)):
        d = u - v
        size = max(map(abs, a + b + c)) * (
            max(abs(x - y) for p, q in ((b, a), (c, a)) for x, y in zip(p, q)))
        if abs(d) > 1e-14 * size:
            return d
    a, b, c = [tuple(map(Fraction, map(float, p))) for p in (a, b, c)]
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def _hull(points):
    pts = sorted(set(points))
    if len(pts) <= 2:
        return pts

    def half(ps):
        out = []
        for p in ps:
            while len(out) >= 2 and _turn(out[-2], out[-1], p) <= 0:
                out.pop()
            out.append(p)
        return out
    lo, hi = half(pts), half(pts[::-1])
    return lo[:-1] + hi[:-1]


def _seg_dist(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    L = dx * dx + dy * dy
    if L == 0:
        return math.hypot(p[0] - a[0], p[1] - a[1])
    t = ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / L
    t = min(1.0, max(0.0, t))
    return math.hypot(p[0] - a[0] - t * dx, p[1] - a[1] - t * dy)


def _orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def _seg_cross(a, b, c, d):
    o1, o2, o3, o4 = (_orient(a, b, c), _orient(a, b, d),
                      _orient(c, d, a), _orient(c, d, b))
    if ((o1 > 0) != (o2 > 0)) and ((o3 > 0) != (o4 > 0)) \
            and 0 not in (o1, o2, o3, o4):
        return True
    for o, p, q, r in ((o1, a, b, c), (o2, a, b, d), (o3, c, d, a),
                       (o4, c, d, b)):
        if o == 0 and min(p[0], q[0]) <= r[0] <= max(p[0], q[0]) \
                and min(p[1], q[1]) <= r[1] <= max(p[1], q[1]):
            return True
    return False


def _seg_seg_dist(a, b, c, d):
    if _seg_cross(a, b, c, d):
        return 0.0
    return min(_seg_dist(a, c, d), _seg_dist(b, c, d),
               _seg_dist(c, a, b), _seg_dist(d, a, b))


def _in_ring(p, ring):
    """Even-odd; boundary counts as inside."""
    inside = False
    n = len(ring)
    for k in range(n):
        a, b = ring[k], ring[(k + 1) % n]
        if _orient(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) \
                and min(a[1], b[1]) <= p[1] <= max(a[1], b[1]):
            return True
        if (a[1] > p[1]) != (b[1] > p[1]):
            x = a[0] + (p[1] - a[1]) * (b[0] - a[0]) / (b[1] - a[1])
            if p[0] < x:
                inside = not inside
    return inside


# --- trapezoidal boolean operations --------------------------------------

def _rings_of(geom):
    """List of polygons, each a list of open rings."""
    out = []
    for poly in _polys(geom):
        rings = [list(poly.exterior.coords)[:-1]]
        rings += [list(h.coords)[:-1] for h in poly.interiors]
        out.append(rings)
    return out


def _polys(geom):
    if isinstance(geom, Polygon):
        return [geom] if not geom.is_empty else []
    if isinstance(geom, BaseMultipartGeometry):
        out = []
        for g in geom.geoms:
            out += _polys(g)
        return out
    return []


def _boolean(A, B, keep):
    """Trapezoids of {p : keep(p in A, p in B)} where A, B are lists of
    polygons (lists of rings), each polygon even-odd, A and B their unions."""
    edges = []   # (side, polygon id, (x1,y1),(x2,y2)) with y1<y2
    ys = set()
    for side, polys in ((0, A), (1, B)):
        for pid, rings in enumerate(polys):
            for ring in rings:
                n = len(ring)
                for k in range(n):
                    p, q = ring[k], ring[(k + 1) % n]
                    ys.add(p[1])
                    if p[1] != q[1]:
                        if p[1] > q[1]:
                            p, q = q, p
                        edges.append((side, pid, p, q))
    for i in range(len(edges)):
        a, b = edges[i][2:]
        for j in range(i):
            c, d = edges[j][2:]
            if max(a[1], c[1]) >= min(b[1], d[1]):
                continue
            if max(a[0], b[0]) < min(c[0], d[0]) or \
                    max(c[0], d[0]) < min(a[0], b[0]):
                continue
            den = (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0])
            if den == 0:
                continue
            t = ((c[0] - a[0]) * (d[1] - c[1]) -
                 (c[1] - a[1]) * (d[0] - c[0])) / den
            if 0 <= t <= 1:
                ys.add(a[1] + t * (b[1] - a[1]))
    ys = sorted(ys)
    out = []
    for y0, y1 in zip(ys, ys[1:]):
        if y1 - y0 <= 1e-12 * max(1.0, abs(y0)):
            continue
        ym = (y0 + y1) / 2
        active = []
        for side, pid, p, q in edges:
            if p[1] <= ym < q[1]:
                f = (q[0] - p[0]) / (q[1] - p[1])
                active.append((p[0] + (ym - p[1]) * f, side, pid,
                               p[0] + (y0 - p[1]) * f, p[0] + (y1 - p[1]) * f))
        active.sort()
        state = [{}, {}]
        start = None
        for xm, side, pid, xa, xb in active:
            was = keep(any(state[0].values()), any(state[1].values()))
            state[side][pid] = not state[side].get(pid, False)
            now = keep(any(state[0].values()), any(state[1].values()))
            if now and not was:
                start = (xm, xa, xb)
            elif was and not now:
                if xm - start[0] > 1e-12:
                    ring = [(start[1], y0), (xa, y0), (xb, y1), (start[2], y1)]
                    clean = []
                    for p in ring:
                        if not clean or p != clean[-1]:
                            clean.append(p)
                    if clean[0] == clean[-1]:
                        clean.pop()
                    if len(clean) >= 3:
                        out.append(Polygon(clean))
                start = None
    return out


def _as_multi(polys):
    if not polys:
        return Polygon()
    if len(polys) == 1:
        return polys[0]
    return MultiPolygon(polys)


def _is_convex(ring):
    n = len(ring)
    s = 0
    for k in range(n):
        o = _orient(ring[k], ring[(k + 1) % n], ring[(k + 2) % n])
        if o != 0:
            if s and (o > 0) != (s > 0):
                return False
            s = o
    return s != 0


def _clip_convex(subject, clip):
    """Sutherland-Hodgman, both convex open rings."""
    if _signed_area(clip) < 0:
        clip = clip[::-1]
    out = subject
    n = len(clip)
    for k in range(n):
        a, b = clip[k], clip[(k + 1) % n]
        inp, out = out, []
        for i in range(len(inp)):
            p, q = inp[i - 1], inp[i]
            op, oq = _orient(a, b, p), _orient(a, b, q)
            if oq >= 0:
                if op < 0:
                    t = op / (op - oq)
                    out.append((p[0] + t * (q[0] - p[0]),
                                p[1] + t * (q[1] - p[1])))
                out.append(q)
            elif op >= 0:
                t = op / (op - oq)
                out.append((p[0] + t * (q[0] - p[0]),
                            p[1] + t * (q[1] - p[1])))
        if not out:
            break
    clean = []
    for p in out:
        if not clean or p != clean[-1]:
            clean.append(p)
    if len(clean) > 1 and clean[0] == clean[-1]:
        clean.pop()
    return clean


def _line_minus(lines, other):
    """The lines without the parts that run along lines of `other`."""
    out = []
    for line in _parts(lines):
        run = []
        for a, b in line._segments():
            L = math.hypot(b[0] - a[0], b[1] - a[1])
            cuts = []
            for c, d in other._segments():
                if max(abs(_orient(a, b, c)), abs(_orient(a, b, d))) > \
                        1e-12 * L * max(1.0, L):
                    continue
                t = sorted(((p[0] - a[0]) * (b[0] - a[0]) + (
                    p[1] - a[1]) * (b[1] - a[1])) / L ** 2 for p in (c, d))
                if t[1] > 0 and t[0] < 1:
                    cuts.append((max(t[0], 0.0), min(t[1], 1.0), c, d))
            cuts.sort()

            def at(t):
                if t <= 0:
                    return a
                if t >= 1:
                    return b
                return (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
            left = 0.0
            for t0, t1 in [x[:2] for x in cuts] + [(1.0, None)]:
                if t0 > left:
                    if not run or run[-1] != at(left):
                        if len(run) > 1:
                            out.append(LineString(run))
                        run = [at(left)]
                    run.append(at(t0))
                if t1 is not None:
                    left = max(left, t1)
        if len(run) > 1:
            out.append(LineString(run))
    return out


# --- geometry classes ------------------------------------------------------

class CoordinateSequence(object):
    def __init__(self, pts):
        self._p = list(pts)

    def __len__(self):
        return len(self._p)

    def __iter__(self):
        return iter(self._p)

    def __getitem__(self, k):
        return self._p[k]

    def __array__(self, dtype=None, copy=None):
        return np.array(self._p, dtype=dtype or np.float64).reshape(-1, 2)

    def __eq__(self, other):
        return list(self) == list(other)

    @property
    def xy(self):
        return [p[0] for p in self._p], [p[1] for p in self._p]


class BaseGeometry(object):
    _gtype = 'GeometryCollection'

    def __getattr__(self, name):
        if name.startswith('__') or name in ('geoms', 'coords', 'exterior',
                                             'interiors', 'x', 'y', '_len',
                                             'dtype', 'size'):
            raise AttributeError(name)
        raise StubMissing('%s.%s' % (type(self).__name__, name))

    @property
    def geom_type(self):
        return self._gtype

    type = geom_type

    def geometryType(self):
        return self._gtype

    # overridden
    def _all_points(self):
        return []

    def _segments(self):
        return []

    def _line_ends(self):
        """Ends of open lines that no second segment of that line meets."""
        if isinstance(self, BaseMultipartGeometry):
            return {p for g in self.geoms for p in g._line_ends()}
        if not isinstance(self, LineString) or isinstance(self, LinearRing):
            return set()
        c = [tuple(p) for p in self.coords]
        return {p for p in (c[0], c[-1]) if c.count(p) == 1}

    @property
    def is_empty(self):
        return not self._all_points()

    @property
    def is_valid(self):
        return True

    @property
    def is_simple(self):
        return True

    @property
    def area(self):
        return 0.0

    @property
    def length(self):
        return sum(math.hypot(b[0] - a[0], b[1] - a[1])
                   for a, b in self._segments())

    def __bool__(self):
        return not self.is_empty

    __nonzero__ = __bool__

    @property
    def bounds(self):
        pts = self._all_points()
        if not pts:
            return ()
        xs, ys = [p[0] for p in pts], [p[1] for p in pts]
        return (min(xs), min(ys), max(xs), max(ys))

    @property
    def envelope(self):
        return box(*self.bounds)

    @property
    def centroid(self):
        if self.area > 0:
            sx = sy = sa = 0.0
            for poly in _polys(self):
                for k, r in enumerate([poly.exterior] + list(poly.interiors)):
                    ring = list(r.coords)[:-1]
                    w = 1 if k == 0 else -1
                    ox, oy = ring[0]
                    a = cx = cy = 0.0
                    for i in range(len(ring)):
                        x1, y1 = ring[i][0] - ox, ring[i][1] - oy
                        x2, y2 = (ring[(i + 1) % len(ring)][0] - ox,
                                  ring[(i + 1) % len(ring)][1] - oy)
                        c = x1 * y2 - x2 * y1
                        a += c / 2
                        cx += (x1 + x2) * c / 6
                        cy += (y1 + y2) * c / 6
                    s = math.copysign(1, a) * w
                    sx += s * (cx + ox * a)
                    sy += s * (cy + oy * a)
                    sa += s * a
            return Point(sx / sa, sy / sa)
        segs = self._segments()
        L = self.length
        if L > 0:
            x = sum(math.hypot(b[0] - a[0], b[1] - a[1]) * (a[0] + b[0]) / 2
                    for a, b in segs) / L
            y = sum(math.hypot(b[0] - a[0], b[1] - a[1]) * (a[1] + b[1]) / 2
                    for a, b in segs) / L
            return Point(x, y)
        pts = self._all_points()
        return Point(sum(p[0] for p in pts) / len(pts),
                     sum(p[1] for p in pts) / len(pts))

    @property
    def convex_hull(self):
        h = _hull(self._all_points())
        if not h:
            return GeometryCollection()
        if len(h) == 1:
            return Point(h[0])
        if len(h) == 2:
            return LineString(h)
        return Polygon(h)

    def equals(self, other):
        return self.symmetric_area(other) == 0 if self.area else self == other

    def symmetric_area(self, other):
        return sum(p.area for p in _boolean(
            _rings_of(self), _rings_of(other), lambda a, b: a != b))

    def almost_equals(self, other, decimal=6):
        a, b = self._all_points(), other._all_points()
        return len(a) == len(b) and all(
            abs(p[0] - q[0]) < 0.5 * 10 ** -decimal and
            abs(p[1] - q[1]) < 0.5 * 10 ** -decimal for p, q in zip(a, b))

    def _covers_point(self, p):
        for poly in _polys(self):
            if poly._inside(p):
                return True
        for a, b in self._segments():
            if _seg_dist(p, a, b) == 0:
                return True
        return False

    def distance(self, other):
        best = float('inf')
        for p in other._all_points():
            if any(q._inside(p) for q in _polys(self)):
                return 0.0
        for p in self._all_points():
            if any(q._inside(p) for q in _polys(other)):
                return 0.0
        sa, sb = self._segments(), other._segments()
        pa = [] if sa else self._all_points()
        pb = [] if sb else other._all_points()
        pa += self._lone_points()
        pb += other._lone_points()
        for a, b in sa:
            for c, d in sb:
                best = min(best, _seg_seg_dist(a, b, c, d))
            for p in pb:
                best = min(best, _seg_dist(p, a, b))
        for p in pa:
            for c, d in sb:
                best = min(best, _seg_dist(p, c, d))
            for q in pb:
                best = min(best, math.hypot(p[0] - q[0], p[1] - q[1]))
        return best

    def _lone_points(self):
        return []

    def intersects(self, other):
        return self.distance(other) == 0.0

    def disjoint(self, other):
        return not self.intersects(other)

    def covers(self, other):
        if isinstance(other, Point):
            return self._covers_point(other.coords[0])
        if _polys(self):
            if _polys(other):
                return sum(p.area for p in _boolean(
                    _rings_of(other), _rings_of(self),
                    lambda a, b: a and not b)) <= 1e-12 * max(other.area, 1)
            return all(self._covers_point(p) for p in other._all_points())
        raise StubMissing('covers of %s' % type(self).__name__)

    def contains(self, other):
        if isinstance(other, Point) and _polys(self):
            p = other.coords[0]
            return self._covers_point(p) and all(
                _seg_dist(p, a, b) > 0 for a, b in self._segments())
        return self.covers(other)

    def within(self, other):
        return other.contains(self)

    # set operations
    def union(self, other):
        if self.is_empty:
            return other
        if other.is_empty:
            return self
        pa, pb = _polys(self), _polys(other)
        if pa and pb and not _parts_other(self) and not _parts_other(other):
            if any(x.distance(y) == 0 for x in pa for y in pb):
                return _as_multi(_boolean(_rings_of(self), _rings_of(other),
                                          lambda a, b: a or b))
        return _collect(_parts(self) + _parts(other))

    def difference(self, other):
        if self.is_empty or other.is_empty:
            return self
        if not _polys(self) and not self._lone_points() and \
                not _polys(other):
            return _collect(_line_minus(self, other))
        if not _polys(self) or _parts_other(self):
            raise StubMissing('difference of non-polygon')
        if not _polys(other):
            return self
        if self.distance(other) > 0:
            return self
        return _as_multi(_boolean(_rings_of(self), _rings_of(other),
                                  lambda a, b: a and not b))

    def intersection(self, other):
        if self.is_empty or other.is_empty:
            return Polygon()
        if isinstance(self, Polygon) and isinstance(other, Polygon) and \
                not self.interiors and not other.interiors:
            a = list(self.exterior.coords)[:-1]
            b = list(other.exterior.coords)[:-1]
            if _is_convex(a) and _is_convex(b):
                c = _clip_convex(a, b)
                return Polygon(c) if len(c) >= 3 else Polygon()
        if isinstance(self, BaseMultipartGeometry) and isinstance(other, Polygon):
            parts = [g.intersection(other) for g in self.geoms]
            return _collect([q for p in parts for q in _parts(p)
                             if not q.is_empty])
        if _polys(self) and _polys(other):
            return _as_multi(_boolean(_rings_of(self), _rings_of(other),
                                      lambda a, b: a and b))
        raise StubMissing('intersection of %s and %s' % (
            type(self).__name__, type(other).__name__))

    def symmetric_difference(self, other):
        return _as_multi(_boolean(_rings_of(self), _rings_of(other),
                                  lambda a, b: a != b))

    def __or__(self, other):
        return self.union(other)

    def __and__(self, other):
        return self.intersection(other)

    def __sub__(self, other):
        return self.difference(other)

    def __xor__(self, other):
        return self.symmetric_difference(other)

    def buffer(self, distance, resolution=16, quadsegs=None, cap_style=1,
               join_style=1, mitre_limit=5.0, **kw):
        """Every part grown by `distance`: the pieces (one per segment or
        vertex, plus the polygons themselves) are returned unmerged."""
        if join_style != 1 or cap_style not in (1, 2, 3):
            raise StubMissing('buffer styles')
        r = float(distance)
        if r < 0:
            raise StubMissing('negative buffer')
        polys = [Polygon(list(p.exterior.coords),
                         [list(h.coords) for h in p.interiors])
                 for p in _polys(self)]
        if r == 0:
            return _as_multi(polys)
        n = 4 * int(quadsegs or resolution)
        pieces = []
        ends = set() if cap_style == 1 else self._line_ends()
        for a, b in self._segments():
            pts = []
            # the sides of the segment are exactly r away
            start = math.atan2(b[1] - a[1], b[0] - a[0])
            for c, out in ((a, math.pi), (b, 0.0)):
                if c in ends:
                    ux, uy = r * math.cos(start), r * math.sin(start)
                    more = 0 if cap_style == 2 else math.cos(out)
                    pts += [(c[0] + more * ux - s * uy,
                             c[1] + more * uy + s * ux) for s in (1, -1)]
                    continue
                for k in range(n):
                    t = start + 2 * math.pi * k / n
                    pts.append((c[0] + r * math.cos(t), c[1] + r * math.sin(t)))
            pieces.append(Polygon(_hull(pts)))
        for c in self._lone_points():
            if cap_style == 3:
                pieces.append(Polygon([(c[0] + i * r, c[1] + j * r) for i, j in
                                       ((1, 1), (-1, 1), (-1, -1), (1, -1))]))
            if cap_style != 1:
                continue
            pieces.append(Polygon([
                (c[0] + r * math.cos(2 * math.pi * k / n),
                 c[1] + r * math.sin(2 * math.pi * k / n)) for k in range(n)]))
        # drop holes that the pieces fill completely is left to the rasteriser
        return _as_multi(pieces + polys)

    # comparison, conversion
    def __eq__(self, other):
        return type(self) is type(other) and \
            mapping(self) == mapping(other)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return object.__hash__(self)

    @property
    def __geo_interface__(self):
        return mapping(self)

    @property
    def wkt(self):
        return '%s %r' % (self._gtype.upper(), mapping(self).get('coordinates'))

    def __str__(self):
        return self.wkt

    __repr__ = __str__

    @property
    def ctypes(self):
        raise AttributeError('ctypes')


class Point(BaseGeometry):
    _gtype = 'Point'

    def __init__(self, *args):
        if not args:
            self._c = []
        elif len(args) == 1:
            a = args[0]
            if isinstance(a, Point):
                self._c = list(a.coords)
            else:
                a = list(a)
                if len(a) == 1:
                    a = list(a[0])
                self._c = [_pt(a)]
        else:
            self._c = [_pt(args)]

    @property
    def coords(self):
        return CoordinateSequence(self._c)

    @property
    def x(self):
        return self._c[0][0]

    @property
    def y(self):
        return self._c[0][1]

    @property
    def xy(self):
        return self.coords.xy

    def _all_points(self):
        return list(self._c)

    def _lone_points(self):
        return list(self._c)

    def __array__(self, dtype=None, copy=None):
        return np.array(self._c[0], dtype=dtype or np.float64)


class LineString(BaseGeometry):
    _gtype = 'LineString'

    def __init__(self, coordinates=None):
        self._c = [] if coordinates is None else _coords(coordinates)
        if len(self._c) == 1:
            raise ValueError('LineStrings must have at least 2 coordinate '
                             'tuples')

    @property
    def coords(self):
        return CoordinateSequence(self._c)

    @property
    def xy(self):
        return self.coords.xy

    @property
    def is_closed(self):
        return bool(self._c) and self._c[0] == self._c[-1]

    @property
    def is_ring(self):
        return self.is_closed

    @property
    def is_valid(self):
        return not self._c or len(set(self._c)) > 1

    @property
    def boundary(self):
        return MultiPoint([self._c[0], self._c[-1]])

    def interpolate(self, distance, normalized=False):
        d = distance * self.length if normalized else distance
        for a, b in self._segments():
            L = math.hypot(b[0] - a[0], b[1] - a[1])
            if d <= L and L > 0:
                t = max(d, 0) / L
                return Point(a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
            d -= L
        return Point(self._c[-1])

    def _all_points(self):
        return list(self._c)

    def _segments(self):
        return list(zip(self._c[:-1], self._c[1:]))

    def __array__(self, dtype=None, copy=None):
        return np.array(self._c, dtype=dtype or np.float64).reshape(-1, 2)


class LinearRing(LineString):
    _gtype = 'LinearRing'

    def __init__(self, coordinates=None):
        c = [] if coordinates is None else _coords(coordinates)
        if c and len(c) < 3:
            raise ValueError('A LinearRing must have at least 3 coordinate '
                             'tuples')
        if c and c[0] != c[-1]:
            c = c + [c[0]]
        self._c = c

    @property
    def is_ccw(self):
        return _signed_area(self._c[:-1]) > 0


class Polygon(BaseGeometry):
    _gtype = 'Polygon'

    def __init__(self, shell=None, holes=None):
        if isinstance(shell, Polygon):
            self._ext = shell._ext
            self._int = list(shell._int)
            return
        self._ext = LinearRing(shell) if shell is not None and \
            len(_coords(shell)) else LinearRing()
        self._int = [h if isinstance(h, LinearRing) else LinearRing(h)
                     for h in (holes or [])]

    @property
    def exterior(self):
        return self._ext

    @property
    def interiors(self):
        return list(self._int)

    @property
    def boundary(self):
        if self._int:
            return MultiLineString([self._ext] + self._int)
        return LineString(list(self._ext.coords))

    @property
    def coords(self):
        raise NotImplementedError(
            'Component rings have coordinate sequences, but the polygon does '
            'not')

    @property
    def area(self):
        if self.is_empty:
            return 0.0
        return abs(_signed_area(list(self._ext.coords)[:-1])) - sum(
            abs(_signed_area(list(h.coords)[:-1])) for h in self._int)

    @property
    def is_valid(self):
        for r in [self._ext] + self._int:
            ring = list(r.coords)[:-1]
            n = len(ring)
            if not n:
                continue
            if n < 3 or len(set(ring)) < n:
                return False
            for i in range(n):
                for j in range(i + 2, n):
                    if i == 0 and j == n - 1:
                        continue
                    if _seg_cross(ring[i], ring[(i + 1) % n], ring[j],
                                  ring[(j + 1) % n]):
                        return False
            if _signed_area(ring) == 0:
                return False
        return True

    @property
    def length(self):
        return self._ext.length + sum(h.length for h in self._int)

    def _inside(self, p):
        if self.is_empty or not _in_ring(p, list(self._ext.coords)[:-1]):
            return False
        for h in self._int:
            ring = list(h.coords)[:-1]
            if _in_ring(p, ring) and all(
                    _seg_dist(p, a, b) > 0 for a, b in h._segments()):
                return False
        return True

    def _all_points(self):
        return list(self._ext.coords)

    def _segments(self):
        out = self._ext._segments()
        for h in self._int:
            out += h._segments()
        return out

    def representative_point(self):
        return self.centroid


class BaseMultipartGeometry(BaseGeometry):
    _one = None

    def __init__(self, geoms=None):
        if isinstance(geoms, BaseMultipartGeometry):
            geoms = geoms.geoms
        self._g = []
        for g in (geoms or []):
            if isinstance(g, BaseGeometry):
                self._g.append(g)
            elif self._one is Polygon:
                shell, holes = (g[0], g[1]) if len(g) == 2 and not np.isscalar(
                    g[0][0]) and not isinstance(g[0][0], float) else (g, None)
                self._g.append(Polygon(shell, holes))
            else:
                self._g.append(self._one(g))

    @property
    def geoms(self):
        return list(self._g)

    def __iter__(self):
        return iter(list(self._g))

    def __len__(self):
        return len(self._g)

    def __getitem__(self, k):
        return self._g[k]

    @property
    def coords(self):
        raise NotImplementedError(
            'Multi-part geometries do not provide a coordinate sequence')

    @property
    def area(self):
        return sum(g.area for g in self._g)

    @property
    def is_valid(self):
        return all(g.is_valid for g in self._g)

    def _all_points(self):
        return [p for g in self._g for p in g._all_points()]

    def _segments(self):
        return [s for g in self._g for s in g._segments()]

    def _lone_points(self):
        return [p for g in self._g for p in g._lone_points()]


class GeometryCollection(BaseMultipartGeometry):
    _gtype = 'GeometryCollection'


class MultiPoint(BaseMultipartGeometry):
    _gtype = 'MultiPoint'
    _one = Point


class MultiLineString(BaseMultipartGeometry):
    _gtype = 'MultiLineString'
    _one = LineString


class MultiPolygon(BaseMultipartGeometry):
    _gtype = 'MultiPolygon'
    _one = Polygon


def _parts(g):
    if isinstance(g, BaseMultipartGeometry):
        return [q for p in g.geoms for q in _parts(p)]
    return [] if g.is_empty else [g]


def _parts_other(g):
    return [p for p in _parts(g) if not isinstance(p, Polygon)]


def _collect(parts):
    uniq = []
    for p in parts:
        if p not in uniq:
            uniq.append(p)
    if not uniq:
        return GeometryCollection()
    if len(uniq) == 1:
        return uniq[0]
    kinds = set(type(p) for p in uniq)
    if kinds <= {LineString, LinearRing}:
        return MultiLineString([LineString(list(p.coords)) for p in uniq])
    if kinds == {Point}:
        return MultiPoint(uniq)
    if kinds == {Polygon}:
        return MultiPolygon(uniq)
    return GeometryCollection(uniq)


def mapping(ob):
    if not isinstance(ob, BaseGeometry):
        return ob.__geo_interface__
    t = ob._gtype

    def ring(r):
        return tuple(tuple(c) for c in r.coords)
    if t == 'Point':
        return {'type': t, 'coordinates': tuple(ob.coords[0]) if ob else ()}
    if t in ('LineString', 'LinearRing'):
        return {'type': t, 'coordinates': ring(ob)}
    if t == 'Polygon':
        if ob.is_empty:
            return {'type': t, 'coordinates': ()}
        return {'type': t, 'coordinates': tuple(
            [ring(ob.exterior)] + [ring(h) for h in ob.interiors])}
    if type(ob) is BaseGeometry or t == 'GeometryCollection':
        return {'type': 'GeometryCollection', 'geometries': [
            mapping(g) for g in getattr(ob, '_g', [])]}
    return {'type': t, 'coordinates': tuple(
        mapping(g)['coordinates'] for g in ob.geoms)}


def shape(context):
    ob = getattr(context, '__geo_interface__', context)
    t = ob.get('type').lower()
    if t == 'geometrycollection':
        return GeometryCollection([shape(g) for g in ob['geometries']])
    c = ob['coordinates']
    if t == 'point':
        return Point(c) if len(c) else Point()
    if t == 'linestring':
        return LineString(c)
    if t == 'linearring':
        return LinearRing(c)
    if t == 'polygon':
        return Polygon(c[0], c[1:]) if len(c) else Polygon()
    if t == 'multipoint':
        return MultiPoint(c)
    if t == 'multilinestring':
        return MultiLineString(c)
    if t == 'multipolygon':
        return MultiPolygon([Polygon(p[0], p[1:]) for p in c])
    raise ValueError('Unknown geometry type: %s' % ob['type'])


asShape = shape


def box(minx, miny, maxx, maxy, ccw=True):
    return Polygon([(maxx, miny), (maxx, maxy), (minx, maxy), (minx, miny)])
