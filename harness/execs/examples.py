import importlib
import math

import numpy as np
from anytree import PostOrderIter

from crowddynamics.core.geometry import geom_to_linear_obstacles
from crowddynamics.examples import fields as F
from crowddynamics.simulation.agents import Circular, ThreeCircle, NO_TARGET
from crowddynamics.simulation.logic import Reset, Integrator, Adjusting, \
    Orientation
from execs import crowd as K
from vlib import same, check, vec, require_same

CLS = {'circular': Circular, 'three_circle': ThreeCircle}
TOL = 1e-9


def segments(g):
    return [] if g is None else [(vec(s['p0']), vec(s['p1']))
                                 for s in geom_to_linear_obstacles(g)]


def meets(a, b, c, d, tol=0.0):
    """The segments a-b and c-d share a point (or come within tol)."""
    def side(p, q, r):
        return K.cross(K.sub(q, p), K.sub(r, p))
    if side(a, b, c) * side(a, b, d) < 0 and side(c, d, a) * side(
            c, d, b) < 0:
        return True
    return min(
        K.norm(K.sub(p, K.closest_on_segment(p, q, r))) if q != r else
        K.norm(K.sub(p, q)) for p, q, r in (
            (a, c, d), (b, c, d), (c, a, b), (d, a, b))) <= tol


def corners(g):
    """Corner points of any geometry."""
    if hasattr(g, 'geoms'):
        return [p for x in g.geoms for p in corners(x)]
    if hasattr(g, 'exterior'):
        return [list(map(float, p)) for p in g.exterior.coords]
    return [list(map(float, p)) for p in g.coords]


def area(ring):
    x0 = ring[0]
    return abs(sum(K.cross(K.sub(a, x0), K.sub(b, x0))
                   for a, b in zip(ring, ring[1:] + ring[:1]))) / 2


def length(g):
    return sum(K.norm(K.sub(b, a)) for a, b in segments(g))


def same_field(a, b, what):
    def key(g):
        if g is None:
            return None
        return sorted(sorted((round(x, 9), round(y, 9)) for x, y in s)
                      for s in segments(g))
    for n in ('domain', 'obstacles'):
        check(key(getattr(a, n)) == key(getattr(b, n)), '%s: the %s is %s, '
              'constructed directly %s', what, n, getattr(a, n),
              getattr(b, n))
    for n in ('targets', 'spawns'):
        check([key(g) for g in getattr(a, n)] == [
            key(g) for g in getattr(b, n)], '%s: the %s are %s, constructed '
            'directly %s', what, n, [str(g) for g in getattr(a, n)],
            [str(g) for g in getattr(b, n)])


def well_formed(f, kind, p, rnd):
    w, h = p.get('width', 10.0), p.get('height', 10.0)
    box = {'RoomWithOneExit': (0, 0, w + p.get('exit_hall_width', 2.0), h),
           'FourExitsField': (0, 0, 100, 80),
           'PillarInTheMiddle': (-w / 2, -h / 2, w / 2, h / 2)}.get(
               kind, (0, 0, w, h))
    size = (box[2] - box[0], box[3] - box[1])
    d = f.domain
    check(d is not None and d.is_valid, 'domain %s', d)
    known = None
    if kind == 'PillarInTheMiddle':
        # only the size is documented
        pts = corners(d)
        got = [max(c) - min(c) for c in zip(*pts)]
        lo = [min(c) for c in zip(*pts)]
        box = (lo[0], lo[1], lo[0] + got[0], lo[1] + got[1])
        if same(list(box), [w / 2, h / 2, w, h]) and \
                same(area(pts), w * h / 4):
            # known finding: only the upper right quarter; everything else
            # is judged all the same
            known = 'the domain is %s, the pillar is not in its middle' % d
            size = (w / 2, h / 2)
        require_same(got, list(size), 'size of the domain')
    pts = corners(d)
    require_same([min(x for x, _ in pts), min(y for _, y in pts),
                  max(x for x, _ in pts), max(y for _, y in pts)],
                 list(box), 'bounds of the domain')
    require_same(area(pts), size[0] * size[1], 'area of the domain')

    def within(q):
        return box[0] - TOL <= q[0] <= box[2] + TOL and \
            box[1] - TOL <= q[1] <= box[3] + TOL
    walls = segments(f.obstacles)
    for n, gs in (('obstacles', [f.obstacles] if f.obstacles is not None
                   else []), ('target', f.targets), ('spawn', f.spawns)):
        for g in gs:
            for q in corners(g):
                check(within(q) or known and n == 'obstacles', '%s has the point %r outside of the domain '
                      '%r', n, q, box)
    n = {'HallwayField': 2, 'Rounding': 1, 'AvoidObstacle': 1,
         'RoomWithOneExit': 1, 'FourExitsField': 4}.get(kind, 0)
    check(len(f.targets) == n, '%d targets', len(f.targets))
    wide = {'HallwayField': h, 'Rounding': h / 2,
            'AvoidObstacle': p.get('exit_width', 3.0)}.get(
                kind, p.get('exit_width', 1.25))
    doors = []
    for t in f.targets:
        require_same(length(t), wide, 'width of the exit %s' % t)
        ss = segments(t)
        doors += ss
        for a, b in ss:
            for x in (0.01, 0.25, 0.5, 0.75, 0.99):
                q = K.add(a, K.mul(x, K.sub(b, a)))
                for s in walls:
                    check(K.norm(K.sub(q, K.closest_on_segment(q, *s))) >
                          1e-6, 'the exit %s is walled up by %r', t, s)
    n = {'HallwayField': 2, 'AvoidObstacle': 2}.get(kind, 1)
    check(len(f.spawns) == n, '%d spawns', len(f.spawns))
    for s in f.spawns:
        check(area(corners(s)) > 0, 'spawn %s has no area', s)
    if kind in ('HallwayField',):
        r = p.get('ratio', 1 / 3)
        for s in f.spawns:
            require_same(area(corners(s)), r * w * h, 'area of the spawn')
        a, b = [[sum(x for x, _ in corners(s)) / len(corners(s))]
                for s in f.spawns]
        check(a[0] <= b[0] + TOL, 'the first spawn is not the left one')
        # the first target is on the side of the first spawn
        x0, x1 = [corners(t)[0][0] for t in f.targets]
        require_same([x0, x1], [0, w], 'sides of the targets', atol=TOL)
    if kind == 'PillarInTheMiddle':
        r = p.get('radius_pillar', 1.0)
        c = [0.0, 0.0] if known else [(box[0] + box[2]) / 2,
                                      (box[1] + box[3]) / 2]
        for q in corners(f.obstacles):
            require_same(K.norm(K.sub(q, c)), r, 'distance of the rim of the '
                         'pillar from the middle', 1e-6)
    # the way out of a spawn leads through an obstacle or an exit
    if kind in ('OutdoorField', 'PillarInTheMiddle'):
        return known
    far = 3 * (size[0] + size[1])
    mid = [(box[0] + box[2]) / 2, (box[1] + box[3]) / 2]
    for _ in range(12):
        ring = corners(f.spawns[rnd.randint(len(f.spawns))])
        i = rnd.randint(len(ring) - 1)
        u = rnd.uniform(0.01, 0.99)
        v = rnd.uniform(0.05, 0.9)
        q = K.add(ring[i], K.mul(u, K.sub(ring[i + 1], ring[i])))
        c = [sum(x) / (len(ring) - 1) for x in zip(*ring[:-1])]
        q = K.add(q, K.mul(v, K.sub(c, q)))
        t = rnd.uniform(-math.pi, math.pi)
        e = K.add(mid, [far * math.cos(t), far * math.sin(t)])
        check(any(meets(q, e, *s, tol=1e-9) for s in walls + doors),
              'open way from %r in the spawn to %r outside', q, e)


def fields(case):
    cls = getattr(F, case['kind'])
    rnd = np.random.RandomState(case['seed'])
    p = dict((n, v) for n, v in case['given'])
    if case['kind'] == 'PillarInTheMiddle':
        p.setdefault('width', 20.0)
        p.setdefault('height', 20.0)
    f = cls(**dict((n, v) for n, v in case['given']))
    for n, v in p.items():
        require_same(getattr(f, n), v, n)
    known = None
    if case['look'] or not case['edits']:
        known = well_formed(f, case['kind'], p, rnd)
    for n, v in case['edits']:
        setattr(f, n, v)
        p[n] = v
        if case['look']:
            same_field(f, cls(**p), 'after %s = %r' % (n, v))
    if case['edits']:
        known = well_formed(f, case['kind'], p, rnd)
        same_field(f, cls(**p), 'after changes')
    check(not known, '%s', known, tag='pillar-outside')
    return bool(p and (f.obstacles is not None or case['edits'])), \
        [case['kind']]


def start(case):
    np.random.seed(case['seed'])
    mod = importlib.import_module('crowddynamics.examples.' + case['module'])
    sim = getattr(mod, case['name'])(agent_type=CLS[case['model']],
                                     **case['kw'])
    if case['step'] is not None:
        try:
            sim.logic['Navigation'].step = case['step']
        except KeyError:
            pass
    return sim


def finite(a, k):
    for n in a.dtype.names:
        x = np.asarray(a[n], dtype=np.float64)
        check(np.all(np.isfinite(x)), 'step %d: %s is %s', k, n, x.tolist())


def crossed(walls, before, after, k):
    for i in range(len(after)):
        p, q = vec(before[i]), vec(after[i])
        if p == q:
            continue
        for a, b in walls:
            def side(r):
                return K.cross(K.sub(b, a), K.sub(r, a))

            def other(r):
                return K.cross(K.sub(q, p), K.sub(r, p))
            check(not (side(p) * side(q) < 0 and other(a) * other(b) < 0),
                  'step %d: agent %d walked through the wall %r from %r to '
                  '%r', k, i, (a, b), p, q)


def crowds(case):
    sim = start(case)
    a = sim.agents.array
    kw, name = case['kw'], case['name']
    f = sim.field
    check(a.dtype == CLS[case['model']].dtype(), 'agents of type %s', a.dtype)
    finite(a, 0)
    if 'size' in kw:
        sizes = [kw['size'] // 2] * 2 if name == 'Hallway' else [kw['size']]
        lead = [None] * len(sizes)
    elif name == 'FourExitsFixedPlacing':
        sizes = [1] * 4 + [kw['size_herding']]
        lead = [True] * 4 + [False]
    else:
        sizes = [kw['size_leaders'], kw['size_herding']]
        lead = [True, False]
    check(len(a) == sum(sizes), '%d agents, %r asked for', len(a), sizes)
    spawn = {'Hallway': [0, 1], 'AvoidObstacle': [0, 1],
             'FourExitsFixedPlacing': [1, 2, 3, 4, 0]}.get(
                 name, [0] * len(sizes))
    i = 0
    for g, n in enumerate(sizes):
        ring = corners(f.spawns[spawn[g]])
        xs, ys = zip(*ring)
        for r in a[i:i + n]:
            x = vec(r['position'])
            check(min(xs) - TOL <= x[0] <= max(xs) + TOL and
                  min(ys) - TOL <= x[1] <= max(ys) + TOL,
                  'group %d starts at %r outside of its spawn %r', g, x, ring)
            check(bool(r['active']), 'an agent starts inactive')
            if lead[g] is not None:
                check(bool(r['is_leader']) == lead[g] and
                      bool(r['is_follower']) != lead[g], 'leader %s, follower '
                      '%s in group %d', r['is_leader'], r['is_follower'], g)
            t = int(r['target'])
            if name == 'Hallway':
                check(t == 1 - g, 'group %d walks to target %d', g, t)
            elif name == 'FourExitsFixedPlacing' and g < 4:
                check(t == g, 'leader %d has target %d', g, t)
            elif f.targets and lead[g] is not False:
                check(0 <= t < len(f.targets), 'target %d', t)
            else:
                check(t == NO_TARGET, 'target %d', t)
            check(0 < r['radius'] < 0.4 and 50 < r['mass'] < 100 and
                  0.5 < r['target_velocity'] < 2, 'not an adult: %r', r)
        i += n
    parts = [K.parts(r) for r in a]
    for i in range(len(a)):
        for j in range(i):
            h = min(K.norm(K.sub(x, y)) - r - q for x, r in parts[i]
                    for y, q in parts[j])
            check(h > -1e-9, 'agents %d and %d overlap by %r', i, j, -h)
    walls = segments(f.obstacles)
    if name not in ('Outdoor', 'Hallway', 'RoomWithOneExit', 'ClosedRoom'):
        for i, p in enumerate(parts):
            for x, r in p:
                for s in walls:
                    check(K.norm(K.sub(x, K.closest_on_segment(x, *s))) >
                          r - 1e-9, 'agent %d starts in the wall %r', i, s)
    sim.exit_condition = lambda s: s.data['iterations'] >= case['steps']
    was = [a['position'].copy()]
    todo = case['steps']
    obstacles = walls
    for k in range(todo):
        sim.exit_condition = lambda s: s.data['iterations'] > k
        sim.run()
        b = sim.agents.array
        check(len(b) == sum(sizes), 'agents appeared or vanished')
        finite(b, k + 1)
        if name != 'Outdoor':
            crossed(obstacles, was[0], b['position'], k + 1)
        v = np.hypot(b['velocity'][:, 0], b['velocity'][:, 1])
        check(np.all(v < 6), 'step %d: velocity %s', k, v.tolist())
        was[0] = b['position'].copy()
    check(sim.data['iterations'] == todo, '%r iterations, %d steps',
          sim.data['iterations'], todo)
    return sum(sizes) > 1, [name, case['model']]


placed = crowds


def default_step(sim):
    try:
        return float(sim.logic['Navigation'].step)
    except KeyError:
        return 0.1


def walkout(case):
    sim = start(case)
    f = sim.field
    a = sim.agents.array
    if not len(a):
        return False, []
    n = len(a)
    goal = [int(t) for t in a['target']]
    walls = segments(f.obstacles)
    doors = [segments(t) for t in f.targets]
    left = [False] * n
    w = case['kw']
    slow = float(min(a['target_velocity']))
    # the longest way within any of the fields, at half the wanted speed
    most = 10 + 2 * (2 * w['width'] + 2 * w['height'] + w.get(
        'exit_hall_width', 0)) / slow
    was = a['position'].copy()
    time = 0.0
    k = 0
    while time < most and not all(left):
        sim.exit_condition = lambda s: s.data['iterations'] > k
        sim.run()
        k += 1
        time = float(sim.data['time_tot'])
        b = sim.agents.array
        finite(b, k)
        for i in range(n):
            if left[i]:
                continue
            p, q = vec(was[i]), vec(b['position'][i])
            crossed(walls, [p], [q], k)
            if not b['active'][i]:
                left[i] = True
        was = b['position'].copy()
        # the domain is left through the exit; checked where it is left
        for i in range(n):
            if left[i] is True:
                p, q = before[i], vec(b['position'][i])
                check(any(meets(p, q, *s, tol=0.05) for s in doors[goal[i]]),
                      'agent %d with target %d left at %r', i, goal[i], q)
                left[i] = 'done'
        before = [vec(x) for x in was]
    # Directions end at the grid cells of the exit: who is within them has
    # arrived, even if the crowd or the wall beside the exit holds them there.
    step = case['step'] or default_step(sim)
    for i in range(n):
        if not left[i]:
            p = vec(was[i])
            check(min(K.norm(K.sub(p, K.closest_on_segment(p, *s)))
                      for s in doors[goal[i]]) <= 1.5 * step + 0.05,
                  'after %.0f s the agents are at %r, targets %r', time,
                  was.tolist(), goal)
    return True, [case['name'], case['model']]


def free(case):
    from crowddynamics.examples.validation import TestMovement
    cls = CLS[case['model']]
    sim = TestMovement(agent_type=cls)
    a = sim.agents.array
    check(len(a) == 1, '%d agents', len(a))
    v = case['target_velocity']
    e = [math.cos(case['direction']), math.sin(case['direction'])]
    t, s = case['start']
    v0 = [s * math.cos(t), s * math.sin(t)]
    a['target_velocity'] = v
    a['target_direction'] = e
    a['velocity'] = v0
    a['tau_adj'] = tau = case['tau']
    a['mass'] = case['mass']
    if case['model'] == 'three_circle':
        a['orientation'] = case['orientation']
    if case['nested']:
        sim.logic = Reset(sim) << (Integrator(sim) << (
            Adjusting(sim) << Orientation(sim)))
    else:
        check(sorted(n.name for n in PostOrderIter(sim.logic.root)) == [
            'Adjusting', 'Integrator', 'Orientation', 'Reset'], 'logic %r',
            list(PostOrderIter(sim.logic.root)))
    x0 = vec(a['position'][0])
    sim.exit_condition = lambda s: s.data['iterations'] >= case['steps']
    sim.run()
    a = sim.agents.array
    check(sim.data['iterations'] == case['steps'], 'iterations')
    T = float(sim.data['time_tot'])
    dt = T / case['steps']
    u = math.exp(-T / tau)
    vt = K.mul(v, e)
    dv = K.sub(v0, vt)
    want_v = K.add(vt, K.mul(u, dv))
    want_x = K.add(K.add(x0, K.mul(T, vt)), K.mul(tau * (1 - u), dv))
    err = K.norm(dv) * 2 * dt / tau
    got_v, got_x = vec(a['velocity'][0]), vec(a['position'][0])
    if not case['nested'] and K.norm(dv) > 1e-3 and same(
            got_v, v0, 1e-9, 1e-9) and same(
                got_x, K.add(x0, K.mul(T, v0)), 1e-9, 1e-9):
        # known finding: the force is reset before it is integrated
        check(False, 'after %r s the velocity still is %r, target velocity '
              '%r', T, got_v, vt, tag='never-driven')
    check(K.norm(K.sub(got_v, want_v)) <= err + 1e-6, 'after %r s: velocity '
          '%r, free relaxation gives %r', T, got_v, want_v)
    check(K.norm(K.sub(got_x, want_x)) <= err * max(tau, dt) * 2 + 1e-6,
          'after %r s: position %r, free relaxation gives %r', T, got_x,
          want_x)
    return K.norm(dv) > 0.1, [case['model']]
