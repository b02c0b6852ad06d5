import itertools
import math

import numpy as np

from crowddynamics.core import interactions as I
from crowddynamics.core.motion import power_law as P
from execs import crowd as K
from vlib import check, num, vec, require_same, same

SIGHT = 3.0
F_MAX = 2000.0


class Unclear(Exception):
    """Too close to a discontinuity to predict the answer in floats."""


def contact_times(x, v, r):
    """First contact of a point starting at x with speed v and a circle of
    radius r around zero: time in the future or None, and the sharpness of
    the contact."""
    a = K.dot(v, v)
    b = -K.dot(x, v)
    c = K.dot(x, x) - r * r
    disc = b * b - a * c
    if a == 0:
        return None, 0
    if abs(disc) < 1e-5 * (b * b + abs(a * c)):
        if b > 0 and c > 0:
            raise Unclear      # grazing
        return None, 0
    if disc < 0:
        return None, 0
    d = math.sqrt(disc)
    # roots without cancellation
    tau = c / (b + d) if b > 0 else (b - d) / a
    if abs(c) < 1e-6 * (r * r + 1e-3) and b > 0:
        raise Unclear          # touching just now
    return (tau, d) if tau > 0 else (None, d)


def mag(tau, tau0):
    return (2 / tau + 1 / tau0) * math.exp(-tau / tau0) / tau ** 2


def social(a, b):
    """Candidate pairs of forces on a and b (rows); several if tied."""
    v = K.sub(list(map(float, a['velocity'])), list(map(float, b['velocity'])))
    if v == [0.0, 0.0]:
        return [([0.0, 0.0], [0.0, 0.0])], None
    if K.dot(v, v) < 1e-12:
        raise Unclear
    hits = []
    for xi, ri in K.parts(a):
        for xj, rj in K.parts(b):
            x = K.sub(xi, xj)
            tau, d = contact_times(x, v, ri + rj)
            if tau is not None:
                hits.append((tau, x, d))
    zero = ([0.0, 0.0], [0.0, 0.0])
    if not hits:
        return [zero], None
    tau = min(h[0] for h in hits)
    out = []
    for t, x, d in hits:
        if t > tau * (1 + 1e-9) + 1e-12:
            continue
        g = K.mul(1 / d, K.add(x, K.mul(t, v)))     # gradient of tau
        fs = []
        for ag, s in ((a, 1), (b, -1)):
            f = K.mul(s * float(ag['mass']) * float(ag['k_soc']) *
                      mag(t, float(ag['tau_0'])), g)
            l = K.norm(f)
            if l > F_MAX:
                f = K.mul(F_MAX / l, f)
            fs.append(f)
        out.append(tuple(fs))
    if 'position_ls' in a.dtype.names:
        if tau > 29.9:
            out.append(zero)
    elif abs(tau - 30) < 1e-6:
        out.append(zero)
    elif tau > 30:
        out = [zero]
    return out, tau


def pick(model):
    return P.force_social_circular if model == 'circular' \
        else P.force_social_three_circle


def close(f, want):
    s = 1e-6 * (1 + K.norm(want))
    return same(f, want, 1e-6, s)


def social_case(case, arr, i, j):
    before = arr.copy()
    fi, fj = pick(case['model'])(arr, i, j)
    fi, fj = vec(fi), vec(fj)
    K.unchanged(before, arr)
    check(all(map(math.isfinite, fi + fj)), 'the force is %r', fi + fj)
    for f in (fi, fj):
        check(K.norm(f) <= F_MAX * (1 + 1e-9), 'the force %r is beyond the '
              'maximum', f)
    return fi, fj


def social_pair(case):
    rows = [dict(case['a']), dict(case['b'])]
    if case['equal']:
        for k in ('radius', 'mass', 'k_soc', 'tau_0', 'r_t', 'r_s', 'r_ts'):
            if k in rows[0]:
                rows[1][k] = rows[0][k]
    extra = [dict(rows[0], position=[3.0 * k, 1.0]) for k in
             range(case['extra'])]
    arr = K.make(case['model'], extra + rows)
    i, j = len(extra), len(extra) + 1
    if case['swap']:
        i, j = j, i
    fi, fj = social_case(case, arr, i, j)
    label = case['model']
    try:
        cands, tau = social(arr[i], arr[j])
    except Unclear:
        return False, [label, 'unclear']
    check(any(close(fi, a) and close(fj, b) for a, b in cands),
          'social forces are %r, expected %r (time to collision %r)',
          (fi, fj), cands[0], tau)
    if len(cands) == 1:
        gj, gi = social_case(case, arr, j, i)
        check(close(gi, fi) and close(gj, fj), 'swapping the agents changes '
              'the forces from %r to %r', (fi, fj), (gi, gj))
    if case['equal']:
        require_same(fj, K.mul(-1, fi), 'force on an equal partner', 1e-9,
                     1e-9)
    if case['model'] == 'circular':
        x = arr['position'][i] - arr['position'][j]
        v = arr['velocity'][i] - arr['velocity'][j]
        r = float(arr['radius'][i] + arr['radius'][j])
        t, g = P.time_to_collision_circle_circle(x, v, r)
        want = contact_times(vec(x), vec(v), r)[0]
        if want is None:
            check(math.isnan(num(t)), 'time to collision is %r without a '
                  'collision', num(t))
            require_same(vec(g), [0, 0], 'gradient without a collision')
        else:
            require_same(num(t), want, 'time to collision', 1e-6, 1e-9)
    if tau is not None and 1e-3 < tau < 100:
        k, t0 = float(arr['k_soc'][i]), float(arr['tau_0'][i])
        require_same(num(P.potential(k, tau, t0)),
                     k * math.exp(-tau / t0) / tau ** 2, 'potential')
        require_same(num(P.magnitude(tau, t0)), mag(tau, t0), 'magnitude')
    moved = arr.copy()
    for n in ('position', 'position_ls', 'position_rs'):
        if n in moved.dtype.names:
            moved[n] += np.array(case['move'])
    if len(cands) == 1:
        gi, gj = social_case(case, moved, i, j)
        s = 1e-4 * (1 + K.norm(fi) + K.norm(fj))
        try:
            now = social(moved[i], moved[j])[0]
        except Unclear:
            now = []
        if len(now) == 1 and close(now[0][0], cands[0][0]):
            require_same(gi + gj, fi + fj, 'forces after translation', 1e-4,
                         s)
    labels = [label, 'none' if tau is None else
              'max' if K.norm(fi) > F_MAX * .999 else 'hit']
    return tau is not None, labels


def pair_force(a, b):
    """Forces and torques of one pair and whether there are any."""
    pa, pb = K.parts(a), K.parts(b)
    cands, h = K.pair_candidates(pa, pb)
    if abs(h - SIGHT) < 1e-9:
        raise Unclear
    if h >= SIGHT:
        return None
    if len(cands) > 1 or abs(h) < 1e-9:
        raise Unclear
    if cands[0][6] < 1e-6 and cands[0][6] > 0:
        raise Unclear
    fs, tau = social(a, b)
    if len(fs) > 1:
        raise Unclear
    fi, fj = fs[0]
    n, ma, mb = cands[0][1:4]
    if h < 0:
        v = K.sub(list(map(float, a['velocity'])),
                  list(map(float, b['velocity'])))
        c = [K.contact_force(h, n, v, float(x['mu']), float(x['kappa']),
                             float(x['damping'])) for x in (a, b)]
        fi, fj = K.add(fi, c[0]), K.sub(fj, c[1])
    return fi, fj, K.cross(ma, fi), K.cross(mb, fj), h < 0


def expected(arr):
    n = len(arr)
    three = 'torque' in arr.dtype.names
    f = [list(map(float, x)) for x in arr['force']]
    m = [float(x) for x in arr['torque']] if three else None
    size = [K.norm(x) + 1 for x in f]
    pairs = touch = 0
    skip = set()            # agents of a pair on the edge of two cases
    for i in range(n):
        for j in range(i + 1, n):
            try:
                r = pair_force(arr[i], arr[j])
            except Unclear:
                skip |= {i, j}
                continue
            if r is None:
                continue
            f[i], f[j] = K.add(f[i], r[0]), K.add(f[j], r[1])
            if three:
                m[i] += r[2]
                m[j] += r[3]
            size[i] += K.norm(r[0])
            size[j] += K.norm(r[1])
            pairs += r[0] != [0.0, 0.0]
            touch += r[4]
    return f, m, size, pairs, touch, skip


def shift(arr, move):
    out = arr.copy()
    for n in ('position', 'position_ls', 'position_rs'):
        if n in out.dtype.names:
            out[n] += np.array(move)
    return out


def compare(arr, want, what, tol=1e-6):
    f, m, size = want[:3]
    for k in range(len(arr)):
        if k in want[5]:
            continue
        require_same(vec(arr['force'][k]), f[k], 'force on agent %d %s' % (
            k, what), tol, tol * size[k])
        if m is not None:
            require_same(num(arr['torque'][k]), m[k], 'torque on agent %d %s'
                         % (k, what), tol, tol * size[k])


def agents(case):
    case = K.tiled(case)
    arr = K.make(case['model'], case['agents'])
    if len(arr) == 0:
        return False, ['empty']     # cell lists need a point
    for i, j, t, depth in case.get('graze', []):
        K.graze(arr, i, j, t, depth)
    reach = SIGHT + 2 * max(float(r) for r in arr['radius'])
    if case['model'] == 'three_circle':
        reach = SIGHT + 2 * max(float(r['r_ts'] + r['r_s']) if
                                r['r_ts'] + r['r_s'] > r['r_t'] else
                                float(r['r_t']) for r in arr)
    want = expected(arr)
    fields = ('force', 'torque')
    a = arr.copy()
    I.agent_agent_block_list(a, reach * case['cell'])
    K.unchanged(arr, a, *fields)
    compare(a, want, '')
    b = arr.copy()
    I.agent_agent_block_list(b, reach * case['cell2'])
    compare(b, want, 'with another cell size')
    p = list(case['perm'])
    c = np.ascontiguousarray(arr[p])
    I.agent_agent_block_list(c, reach * case['cell'])
    inv = [p.index(k) for k in range(len(p))]
    compare(c[inv], want, 'in another order')
    d = shift(arr, case['move'])
    moved = expected(d)
    I.agent_agent_block_list(d, reach * case['cell'])
    compare(d, moved, 'elsewhere')
    labels = [case['model'], 'touch' if want[4] else 'apart',
              'pairs%d' % min(want[3], 4)]
    if want[5]:
        labels.append('unclear')
    if case.get('tile'):
        labels.append('large')
    return want[3] > 1 and len(want[5]) < len(arr), labels


def wall_sums(arr, k, segs):
    """All admissible (force, torque) of the walls on agent k."""
    body = K.parts(arr[k])
    v = list(map(float, arr['velocity'][k]))
    opts, touched = [], 0
    for p, q in segs:
        cands, h = K.wall_candidates(body, p, q)
        if abs(h) < 1e-9:
            raise Unclear
        if h > 0:
            continue
        if any(c[3] < 1e-5 for c in cands):
            raise Unclear
        touched += 1
        o = []
        for c in cands:
            f = K.contact_force(c[0], c[1], v, float(arr['mu'][k]),
                                float(arr['kappa'][k]),
                                float(arr['damping'][k]))
            o.append((f, K.cross(c[2], f)))
        opts.append(o)
    sums, size = [], 0
    for combo in itertools.islice(itertools.product(*opts), 64):
        f, m, s = [0.0, 0.0], 0.0, 1.0
        for x in combo:
            f = K.add(f, x[0])
            m += x[1]
            s += K.norm(x[0])
        sums.append((f, m, s))
    return sums, touched


def wall_check(arr, after, segs, what):
    three = 'torque' in arr.dtype.names
    n = 0
    for k in range(len(arr)):
        try:
            sums, touched = wall_sums(arr, k, segs)
        except Unclear:
            continue
        n += touched
        f0 = list(map(float, arr['force'][k]))
        got = vec(after['force'][k])
        if touched == 0:
            check(got == f0, 'an agent touching no wall got the force %r '
                  'from %r %s', got, f0, what)
            if three:
                check(float(after['torque'][k]) == float(arr['torque'][k]),
                      'an agent touching no wall got a torque %s', what)
            continue
        g = got + ([float(after['torque'][k])] if three else [])
        wants = [K.add(f0, f) + ([float(arr['torque'][k]) + m] if three
                                 else []) for f, m, s in sums]
        check(any(same(g, w, 1e-6, 1e-6 * s[2]) for w, s in
                  zip(wants, sums)),
              'force (and torque) of walls on agent %d %s: %r, expected %r',
              k, what, g, wants[0])
    return n


def obstacles(case):
    near = list(case['walls'])
    for w, k, t, depth, a, b in case.get('touch', []):
        body = K.parts(K.make(case['model'], case['agents'])[k])
        near[w] = K.wall_by(body, t, depth, a, b)
    case = K.tiled(dict(case, walls=near))
    arr = K.make(case['model'], case['agents'])
    segs = [(list(p), list(q)) for p, q in case['walls']]
    w = K.walls(segs)
    w0 = w.copy()
    a = arr.copy()
    I.agent_obstacle(a, w)
    K.unchanged(arr, a, 'force', 'torque')
    K.unchanged(w0, w)
    n = wall_check(arr, a, segs, '')
    other = [segs[k] for k in case['perm']]
    if case['flip']:
        other = [(q, p) for p, q in other]
    b = arr.copy()
    I.agent_obstacle(b, K.walls(other))
    wall_check(arr, b, other, 'with reordered walls')
    c = shift(arr, case['move'])
    c0 = c.copy()
    moved = [(K.add(p, case['move']), K.add(q, case['move']))
             for p, q in segs]
    I.agent_obstacle(c, K.walls(moved))
    wall_check(c0, c, moved, 'elsewhere')
    return n > 0, [case['model'], 'touch%d' % min(n, 3),
                   'large' if case.get('tile') else 'small']
