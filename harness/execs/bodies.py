import math

import numpy as np

from crowddynamics.core.distance import distance_circles, \
    distance_circle_line, distance_three_circles, distance_three_circle_line
from crowddynamics.core.motion.adjusting import force_adjust, torque_adjust, \
    force_adjust_agents, torque_adjust_agents
from crowddynamics.core.motion.contact import force_contact
from crowddynamics.core.motion.fluctuation import force_fluctuation, \
    torque_fluctuation
from crowddynamics.core.steering.orientation import \
    orient_towards_target_direction
from execs import crowd as K
from vlib import check, num, vec, require_same, same

TOL = dict(rtol=1e-9, atol=1e-9)


def tup(b):
    return (tuple(np.array(x, dtype=np.float64) for x in b['x']),
            tuple(float(r) for r in b['r']))


def lst(b):
    return [(list(x), float(r)) for x, r in zip(b['x'], b['r'])]


def near(got, want, what, tied):
    check(any(same(g, w, 1e-7, 1e-7) for g in [got] for w in want),
          '%s: got %r, expected %s', what, got,
          ' or '.join(repr(w) for w in want[:4]))


def clearance(case):
    a, b = case['a'], case['b']
    (xa, ra), (xb, rb) = tup(a), tup(b)
    la, lb = lst(a), lst(b)
    p, q = case['seg']
    P, Q = np.array(p), np.array(q)
    copies = [x.copy() for x in xa + xb + (P, Q)]
    # circles
    for i in range(3):
        for j in range(3):
            h, n = distance_circles(xa[i], ra[i], xb[j], rb[j])
            d = K.sub(la[i][0], lb[j][0])
            require_same(num(h), K.norm(d) - ra[i] - rb[j],
                         'clearance of circles', **TOL)
            if K.norm(d) > 1e-100 or K.norm(d) == 0:
                require_same(vec(n), K.unit(d), 'normal of circles', **TOL)
    # bodies
    cands, hmin = K.pair_candidates(la, lb)
    h, n, ma, mb = distance_three_circles(xa, ra, xb, rb)
    require_same(num(h), hmin, 'clearance of bodies', **TOL)
    if all(c[6] > 1e-100 or c[6] == 0 for c in cands):
        near(vec(n) + vec(ma) + vec(mb),
             [c[1] + c[2] + c[3] for c in cands],
             'normal and moment arms of bodies', cands)
    h2, n2, mb2, ma2 = distance_three_circles(xb, rb, xa, ra)
    require_same(num(h2), hmin, 'clearance of swapped bodies', **TOL)
    sw = (0, 2, 1)
    h3 = distance_three_circles(tuple(xa[k] for k in sw),
                                tuple(ra[k] for k in sw), xb, rb)[0]
    require_same(num(h3), hmin, 'clearance with swapped shoulders', **TOL)
    # walls
    for s, e in ((p, q), (q, p)):
        S, E = np.array(s), np.array(e)
        for (x, r), X in zip(la, xa):
            c = K.closest_on_segment(x, s, e)
            h, n = distance_circle_line(X, r, S, E)
            d = K.sub(x, c)
            require_same(num(h), K.norm(d) - r, 'clearance of %r from wall '
                         '%r' % (x, [s, e]), **TOL)
            if K.norm(d) > 1e-5:
                require_same(vec(n), K.unit(d), 'normal from the wall',
                             rtol=1e-6, atol=1e-6)
        wc, wmin = K.wall_candidates(la, s, e)
        h, n, m = distance_three_circle_line(xa, ra, S, E)
        require_same(num(h), wmin, 'clearance of body from wall', **TOL)
        if all(c[3] > 1e-5 for c in wc):
            check(any(same(vec(n) + vec(m), c[1] + c[2], 1e-6, 1e-6)
                      for c in wc), 'normal and moment arm from wall: %r, '
                  'expected %r', vec(n) + vec(m), wc[0][1] + wc[0][2])
    # rigid motions
    t, mv = case['turn'], case['move']

    def rigid(X):
        return np.array([math.cos(t) * X[0] - math.sin(t) * X[1] + mv[0],
                         math.sin(t) * X[0] + math.cos(t) * X[1] + mv[1]])
    h4 = distance_three_circles(tuple(map(rigid, xa)), ra,
                                tuple(map(rigid, xb)), rb)[0]
    require_same(num(h4), hmin, 'clearance after a rigid motion', 1e-7, 1e-8)
    h5 = distance_three_circle_line(tuple(map(rigid, xa)), ra, rigid(P),
                                    rigid(Q))[0]
    require_same(num(h5), K.wall_candidates(la, p, q)[1],
                 'wall clearance after a rigid motion', 1e-7, 1e-7)
    for c, x in zip(copies, xa + xb + (P, Q)):
        check(np.array_equal(c, x), 'an argument was changed')
    i, j = cands[0][4], cands[0][5]
    return hmin < 3, ['overlap' if hmin < 0 else 'apart',
                      'parts%d%d' % (i, j),
                      'wall' if K.wall_candidates(la, p, q)[1] < 0 else
                      'nowall']


def contact(case):
    h, n, v = case['h'], case['n'], case['v']
    t = [n[1], -n[0]]
    args = [np.array(x) for x in (n, v, t)]
    f = vec(force_contact(h, args[0], args[1], args[2], case['mu'],
                          case['kappa'], case['damping']))
    want = K.contact_force(h, n, v, case['mu'], case['kappa'],
                           case['damping'])
    require_same(f, want, 'contact force', 1e-9,
                 1e-9 * (1 + case['mu'] + case['kappa'] + case['damping']))
    check(vec(args[0]) == n and vec(args[1]) == v and vec(args[2]) == t,
          'an argument was changed')
    return h != 0 and any(v), ['overlap' if h < 0 else 'apart']


def adjust(case):
    case = K.tiled(case)
    three = case['model'] == 'three_circle'
    a = K.make(case['model'], case['agents'])
    before = a.copy()
    force_adjust_agents(a)
    K.unchanged(before, a, 'force')
    for r, row in enumerate(case['agents']):
        want = [row['mass'] / row['tau_adj'] *
                (row['target_velocity'] * row['target_direction'][k] -
                 row['velocity'][k]) for k in (0, 1)]
        require_same(vec(force_adjust(
            row['mass'], row['tau_adj'], row['target_velocity'],
            np.array(row['target_direction']), np.array(row['velocity']))),
            want, 'adjusting force', 1e-9, 1e-9)
        require_same(vec(a['force'][r]), K.add(row['force'], want),
                     'accumulated force', 1e-9, 1e-8)
    if three:
        before = a.copy()
        torque_adjust_agents(a)
        K.unchanged(before, a, 'torque')
        for r, row in enumerate(case['agents']):
            d = K.wrap(row['target_orientation'] - row['orientation'])
            f = row['inertia_rot'] / row['tau_rot']
            w0, w = row['target_angular_velocity'], row['angular_velocity']
            wants = [f * (d / math.pi * w0 - w)]
            if abs(abs(d) - math.pi) < 1e-9:
                wants.append(f * (-d / math.pi * w0 - w))
            got = num(torque_adjust(row['inertia_rot'], row['tau_rot'],
                                    row['target_orientation'],
                                    row['orientation'], w0, w))
            check(any(same(got, x, 1e-9, 1e-7) for x in wants),
                  'adjusting torque %r, expected %r', got, wants)
            require_same(num(a['torque'][r]), row['torque'] + got,
                         'accumulated torque', 1e-9, 1e-8)
        before = a.copy()
        orient_towards_target_direction(a)
        K.unchanged(before, a, 'target_orientation')
        for r, row in enumerate(case['agents']):
            e = row['target_direction']
            require_same(num(a['target_orientation'][r]),
                         math.atan2(e[1], e[0]), 'target orientation')
    return len(a) > 0, [case['model']]


def fluctuation(case):
    np.random.seed(case['seed'])
    ms = case['mass']
    if case['many'] and ms:
        ms = [ms[k % len(ms)] for k in range(
            8000 if case['seed'] % 8 == 7 else 1500)]
    m = np.array([x[0] for x in ms])
    s = np.array([x[1] for x in ms])
    if not len(ms):
        f = np.asarray(force_fluctuation(m, s))
        check(f.shape[0] == 0 or f.size == 0, 'forces without agents')
        return False, ['empty']
    f = np.asarray(force_fluctuation(m, s))
    check(f.shape == (len(ms), 2), 'fluctuation force has shape %r', f.shape)
    l = np.hypot(f[:, 0], f[:, 1])
    check(np.all(np.isfinite(l)), 'fluctuation force is not finite')
    bound = 3 * m * s * (1 + 1e-9)
    check(np.all(l <= bound), 'fluctuation force beyond three standard '
          'deviations')
    tq = np.asarray(torque_fluctuation(m, s))
    check(tq.shape == (len(ms),), 'fluctuation torque has shape %r', tq.shape)
    check(np.all(np.abs(tq) <= bound), 'fluctuation torque beyond three '
          'standard deviations')
    if len(ms) >= 1500:
        from execs.motion import ks, phi
        z = phi(3.0) - phi(-3.0)
        t = np.sort(np.arctan2(f[:, 1], f[:, 0]))
        ks(t, lambda x: (x + math.pi) / (2 * math.pi), 'direction of forces')
        ks(l / (m * s), lambda x: min(1.0, (2 * phi(x) - 1) / z),
           'force by mass and scale')
        ks(tq / (m * s), lambda x: min(1.0, max(0.0, (
            phi(x) - phi(-3.0)) / z)), 'torque by inertia and scale')
        # the sum of independent uniform numbers modulo one is uniform: of
        # neighbours, of direction and size, of force and torque, of calls
        at = (np.arctan2(f[:, 1], f[:, 0]) + math.pi) / (2 * math.pi)
        up = np.array([(2 * phi(x) - 1) / z for x in l / (m * s)])
        ut = np.array([(phi(x) - phi(-3.0)) / z for x in tq / (m * s)])
        g = np.asarray(force_fluctuation(m, s))
        nx = (np.arctan2(g[:, 1], g[:, 0]) + math.pi) / (2 * math.pi)
        for what, u, v in (
                ('directions of neighbours', at[1:], at[:-1]),
                ('sizes of neighbours', up[1:], up[:-1]),
                ('torques of neighbours', ut[1:], ut[:-1]),
                ('direction and size', at, up), ('force and torque', up, ut),
                ('direction and torque', at, ut),
                ('directions of two calls', at, nx)):
            for w in (u + v, u - v):
                ks(np.mod(w, 1.0), lambda x: min(1.0, max(0.0, x)),
                   'dependence of ' + what)
        # n uniform directions leave a gap of g with probability below
        # n exp(-n g / 2 pi)
        gap = np.max(np.diff(np.append(t, t[0] + 2 * math.pi)))
        n = len(t)
        check(gap < 2 * math.pi / n * (math.log(n) + 28), 'no force within a '
              'sector of %.3f rad for %d agents', gap, n)
    return len(ms) > 1, ['many' if len(ms) >= 1500 else 'few']
