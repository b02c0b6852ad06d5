import math
import random

import hypothesis
import numpy as np
from hypothesis import strategies as hs
from hypothesis.errors import UnsatisfiedAssumption

from crowddynamics import testing as T
from crowddynamics.simulation.agents import Circular, ThreeCircle, AgentType
from vlib import check, vec, require_same, raises


def reseed(case):
    hypothesis.RANDOM.seed(case['seed'])
    random.seed(case['seed'])
    np.random.seed(case['seed'])


def fits(x, lo, hi, zero):
    x = float(x)
    check(math.isfinite(x), 'drew %r', x)
    check((lo is None or x >= lo) and (hi is None or x <= hi),
          'drew %r outside of [%r, %r]', x, lo, hi)
    if zero == 'exact':
        check(x != 0, 'drew zero')
    elif zero == 'near':
        check(abs(x) > 1e-8, 'drew %r, which is near zero', x)


def reals(case):
    reseed(case)
    lo, hi = case['limits']
    kw = {}
    shape = case['shape']
    if isinstance(shape, list):
        shape = tuple(shape)
    if case['dtype'] != 'default':
        kw['dtype'] = None if case['dtype'] is None else np.float64
    s = T.reals(lo, hi, case['zero'], shape, **kw)
    zeros = False
    for _ in range(10):
        v = s.example()
        if shape is None:
            check(np.ndim(v) == 0, 'drew %r, not a number', v)
            fits(v, lo, hi, case['zero'])
            zeros = zeros or v == 0
        else:
            want = (shape,) if isinstance(shape, int) else shape
            check(isinstance(v, np.ndarray) and v.shape == want and
                  v.dtype == np.float64, 'drew %r for shape %r', v, shape)
            for x in v.reshape(-1).tolist():
                fits(x, lo, hi, case['zero'])
    e = raises(AssertionError, T.reals, 1.0, 1.0)
    check(e is not None, 'an empty range was accepted')
    e = raises(AssertionError, T.reals, dtype=np.int64)
    check(e is not None, 'a dtype that is not a float was accepted')
    return case['zero'] is not None or None not in (lo, hi), []


def units(case):
    reseed(case)
    a = case['angles']
    s = T.unit_vectors() if a is None else T.unit_vectors(*a)
    for _ in range(10):
        v = s.example()
        check(isinstance(v, np.ndarray) and v.shape == (2,), 'drew %r', v)
        x, y = vec(v)
        require_same(math.hypot(x, y), 1.0, 'length of a unit vector', 1e-9)
        if a is not None and a[1] - a[0] < 2 * math.pi:
            q = (math.atan2(y, x) - a[0]) % (2 * math.pi)
            w = a[1] - a[0]
            check(q <= w + 1e-6 or q >= 2 * math.pi - 1e-6, 'a vector at '
                  '%r is outside of %r', math.atan2(y, x), a)
    return a is not None, []


def shapes(case):
    from shapely.geometry import Point, LineString, Polygon
    reseed(case)
    lo, hi = case['limits']
    kw = {'min_value': lo, 'max_value': hi, 'exclude_zero': case['zero']}
    kind, num = case['kind'], case['num']
    holes = closed = False
    if kind == 'points':
        num = None
    elif kind == 'polygons' and num is not None:
        num += 1
    if num is not None:
        kw['num_verts'] = num
    if kind == 'linestrings' and case['flag'] is not None:
        closed = kw['closed'] = case['flag']
    if kind == 'polygons' and case['flag'] is not None:
        holes = kw['has_holes'] = case['flag']
    s = getattr(T, kind)(**kw)
    cls = {'points': Point, 'linestrings': LineString,
           'polygons': Polygon}[kind]
    # hull triangulations of degenerate shells may fail: left to chance
    for _ in range(5):
        try:
            g = s.example()
        except UnsatisfiedAssumption:
            return False, ['unsatisfied']
        check(isinstance(g, cls), 'drew %r from %s', g, kind)
        if kind == 'polygons':
            ring = [list(map(float, c)) for c in g.exterior.coords]
            n = 3 if num is None else num
            check(ring[0] == ring[-1], 'the shell is not closed')
            # a shell whose last vertex repeats the first is closed already
            check(len(ring) in (n, n + 1), '%d vertices instead of %d',
                  len(ring) - 1, n)
            pts = ring
            inner = list(g.interiors)
            check(holes or not inner, 'drew a hole')
            for r in inner:
                for c in r.coords:
                    for x in c:
                        check(lo - 1e-6 * (1 + abs(lo)) <= x <=
                              hi + 1e-6 * (1 + abs(hi)),
                              'a hole at %r outside of [%r, %r]', x, lo, hi)
            if holes and not inner:
                a = np.array(ring[:-1])
                b = a - a.mean(axis=0)
                sv = np.linalg.svd(b, compute_uv=False)
                check(sv[-1] < 1e-3 * (sv[0] + 1e-30) + 1e-6, 'no hole in '
                      'the shell %r', ring)
        else:
            pts = [list(map(float, c)) for c in g.coords]
            n = 1 if kind == 'points' else (2 if num is None else num)
            if closed:
                check(pts[0] == pts[-1], 'the closed line ends at %r, it '
                      'starts at %r', pts[-1], pts[0])
                n += 1
            check(len(pts) == n, '%d vertices instead of %d', len(pts), n)
        for p in pts:
            for x in p:
                fits(x, lo, hi, case['zero'])
    low = {'linestrings': 1, 'polygons': 2}.get(kind)
    if low:
        e = raises(AssertionError, lambda: getattr(T, kind)(
            num_verts=low).example())
        check(e is not None, '%s with %d vertices accepted', kind, low)
    return num is not None, [kind]


def agents(case):
    reseed(case)
    cls = {'Circular': Circular, 'ThreeCircle': ThreeCircle}[case['model']]
    log = []

    def watch(name, s):
        return s.map(lambda v: log.append((name, v)) or v)
    pair = hs.tuples(hs.floats(-9, 9, False, False),
                     hs.floats(-9, 9, False, False))
    every = {'radius': hs.floats(0.1, 1, False, False),
             'mass': hs.floats(1, 99, False, False),
             'target_velocity': hs.floats(0.1, 5, False, False),
             'position': pair, 'velocity': pair,
             'orientation': hs.floats(-3, 3, False, False),
             'target': hs.integers(-1, 3), 'is_leader': hs.booleans(),
             'body_type': hs.sampled_from(['adult', 'male', 'female'])}
    names = [n for n in case['attributes'] if not (
        n == 'orientation' and cls is Circular)]
    size = case['size']
    ss = hs.just(size) if isinstance(size, int) else hs.integers(*size)
    sizes = []
    s = T.agents(ss.map(lambda v: sizes.append(v) or v), cls,
                 {n: watch(n, every[n]) for n in names})
    for _ in range(2):
        del log[:], sizes[:]
        a = s.example()
        check(len(sizes) == 1 and a.shape == (sizes[0],), 'drew %r agents '
              'for size %r', a.shape, sizes)
        check(a.dtype == cls.dtype(), 'drew an array of another agent type')
        for n in names:
            if n not in a.dtype.names:
                continue
            drawn_ = [v for m, v in log if m == n]
            check(len(drawn_) == len(a), '%s drawn %d times for %d agents', n,
                  len(drawn_), len(a))
            for k, v in enumerate(drawn_):
                require_same(vec(a[n][k]), vec(v), '%s of agent %d' % (n, k))
        if 'body_type' in names:
            for k in range(len(a)):
                check(a['mass'][k] > 0 and a['radius'][k] > 0,
                      'agent %d has no body', k)
    for bad in (AgentType, int):
        e = raises((AssertionError, TypeError), lambda: T.agents(
            hs.just(1), bad, {}).example())
        check(e is not None, '%r accepted as agent type', bad)
    return len(a) > 1, [case['model']]
