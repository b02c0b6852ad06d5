"""Agent arrays from plain data, and reference formulas on plain floats."""
import math
import random

import numpy as np

from crowddynamics.core.structures import obstacle_type_linear
from crowddynamics.simulation.agents import agent_type_circular, \
    agent_type_three_circle
from vlib import check, Violation

DTYPES = {'circular': agent_type_circular,
          'three_circle': agent_type_three_circle}
DEFAULTS = {'active': True, 'target': -1, 'index_leader': -1,
            'familiar_exit': -1, 'mass': 80.0, 'radius': 0.25,
            'inertia_rot': 4.0, 'tau_adj': 0.5, 'k_soc': 1.5, 'tau_0': 3.0,
            'mu': 1.2e5, 'kappa': 4e4, 'damping': 500, 'std_rand_force': 0.1,
            'tau_rot': 0.2, 'std_rand_torque': 0.1, 'target_velocity': 1.25,
            'target_angular_velocity': 12.0}


def shoulders(x, phi, rts):
    dx, dy = rts * math.sin(phi), -rts * math.cos(phi)
    return [x[0] - dx, x[1] - dy], [x[0] + dx, x[1] + dy]


def roles(rows):
    """Some target, leader, follower and exit for every second crowd."""
    rnd = random.Random(repr(rows))
    out = []
    mixed = rnd.random() < 0.5
    for _ in rows:
        c = rnd.choice
        out.append({'target': c([-1, 0, 1, 5]), 'is_leader': c([0, 1]) == 1,
                    'is_follower': c([0, 1]) == 1,
                    'index_leader': c([-1, 0, 1]),
                    'familiar_exit': c([-1, 0, 2])} if mixed else {})
    return out


def make(model, rows, mixed=True):
    """Structured array of agents; body parts derived when not given, and
    roles in the crowd when they are not of interest."""
    a = np.zeros(len(rows), dtype=DTYPES[model])
    names = set(a.dtype.names)
    role = roles(rows) if mixed else [{}] * len(rows)
    for k, row in enumerate(rows):
        full = dict(DEFAULTS, **role[k])
        full.update(row)
        if model == 'three_circle':
            r = full['radius']
            full.setdefault('r_t', 0.5926 * r)
            full.setdefault('r_s', 0.3704 * r)
            full.setdefault('r_ts', 0.6296 * r)
            full.setdefault('orientation', 0.0)
            ls, rs = shoulders(full['position'], full['orientation'],
                               full['r_ts'])
            full.setdefault('position_ls', ls)
            full.setdefault('position_rs', rs)
        for n, v in full.items():
            if n in names:
                a[n][k] = v
    return a


def walls(segs):
    o = np.zeros(len(segs), dtype=obstacle_type_linear)
    for k, (p, q) in enumerate(segs):
        o['p0'][k], o['p1'][k] = p, q
    return o


def unchanged(before, after, *changed):
    check(before.dtype == after.dtype and before.shape == after.shape,
          'the array changed its type or size')
    for n in before.dtype.names:
        if n not in changed:
            a, b = before[n], after[n]
            check(np.ascontiguousarray(a).tobytes() ==
                  np.ascontiguousarray(b).tobytes(),
                  'attribute %s changed from %r to %r', n, a.tolist(),
                  b.tolist())


# reference geometry

def sub(a, b):
    return [a[0] - b[0], a[1] - b[1]]


def add(a, b):
    return [a[0] + b[0], a[1] + b[1]]


def mul(k, a):
    return [k * a[0], k * a[1]]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1]


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def norm(a):
    return math.hypot(a[0], a[1])


def unit(a):
    l = norm(a)
    return [a[0] / l, a[1] / l] if l else [0.0, 0.0]


def closest_on_segment(x, p, q):
    d = sub(q, p)
    t = dot(sub(x, p), d) / dot(d, d)
    t = min(1.0, max(0.0, t))
    return add(p, mul(t, d))


def parts(row):
    """[(centre, radius)] of one row of an agent array."""
    if 'position_ls' in row.dtype.names:
        return [(list(map(float, row['position'])), float(row['r_t'])),
                (list(map(float, row['position_ls'])), float(row['r_s'])),
                (list(map(float, row['position_rs'])), float(row['r_s']))]
    return [(list(map(float, row['position'])), float(row['radius']))]


def pair_candidates(a, b):
    """All part pairs: (h, normal, moment a, moment b, i, j), nearest first;
    normal points from b to a."""
    out = []
    for i, (xi, ri) in enumerate(a):
        for j, (xj, rj) in enumerate(b):
            d = sub(xi, xj)
            l = norm(d)
            n = unit(d)
            out.append((l - ri - rj, n,
                        sub(add(xi, mul(ri, n)), a[0][0]),
                        sub(sub(xj, mul(rj, n)), b[0][0]), i, j, l))
    out.sort(key=lambda c: c[0])
    return [c for c in out if c[0] <= out[0][0] + 1e-9], out[0][0]


def wall_candidates(a, p, q):
    out = []
    for i, (x, r) in enumerate(a):
        c = closest_on_segment(x, p, q)
        d = sub(x, c)
        l = norm(d)
        n = unit(d)
        out.append((l - r, n, sub(sub(x, mul(r, n)), a[0][0]), l))
    out.sort(key=lambda c: c[0])
    return [c for c in out if c[0] <= out[0][0] + 1e-9], out[0][0]


def contact_force(h, n, v, mu, kappa, damping):
    t = [n[1], -n[0]]
    return add(mul(-h, sub(mul(mu, n), mul(kappa * dot(v, t), t))),
               mul(damping * dot(v, n), n))


def wrap(a):
    a = math.fmod(a, 2 * math.pi)
    if a > math.pi:
        a -= 2 * math.pi
    elif a < -math.pi:
        a += 2 * math.pi
    return a


# bodies that barely touch

def wall_by(body, t, depth, a, b):
    """A wall with its normal at the angle t that reaches the given depth
    into the body, from a to b along the wall."""
    u = [math.cos(t), math.sin(t)]
    far = max(dot(x, u) + r for x, r in body)
    c = max(body, key=lambda y: dot(y[0], u) + y[1])[0]
    o = add(c, mul(far - depth - dot(c, u), u))
    w = [-u[1], u[0]]
    return [add(o, mul(-a, w)), add(o, mul(b, w))]


def graze(arr, i, j, t, depth):
    """Put agent j next to agent i so that they overlap by the depth (apart
    for a negative one)."""
    u = [math.cos(t), math.sin(t)]
    a, b = parts(arr[i]), parts(arr[j])
    o = sub(a[0][0], b[0][0])

    def gap(d):
        c = [(add(add(x, o), mul(d, u)), r) for x, r in b]
        return min(norm(sub(x, y)) - r - s for x, r in a for y, s in c)
    lo, hi = 0.0, 4 * sum(r for _, r in a + b)
    if not gap(hi) > -depth > gap(lo):
        return
    for _ in range(80):
        mid = (lo + hi) / 2
        lo, hi = (mid, hi) if gap(mid) < -depth else (lo, mid)
    move = add(o, mul(lo, u))
    for n in ('position', 'position_ls', 'position_rs'):
        if n in arr.dtype.names:
            arr[n][j] += np.array(move)


# larger crowds

def turn(v, t):
    c, s = math.cos(t), math.sin(t)
    return [c * v[0] - s * v[1], s * v[0] + c * v[1]]


def tiled(case):
    """The case with its agents (and some of its walls) repeated on a grid of
    tiles, each turned a little further; the first tile is the original."""
    tile = case.get('tile')
    n = len(case['agents'])
    if not tile or not n:
        return case
    most, gap, phi, wall_tiles = tile
    copies = max(1, most // n)
    side = int(math.ceil(math.sqrt(copies)))
    out = dict(case)
    rows, walls_ = [], []
    for c in range(copies):
        move = [c % side * gap, c // side * gap]
        t = c * phi

        def place(x):
            return add(turn(x, t), move) if c else list(x)
        for k, r in enumerate(case['agents']):
            r = dict(r)
            if c:
                for name in ('velocity', 'force', 'force_prev',
                             'target_direction'):
                    if name in r:
                        r[name] = turn(r[name], t)
                for name in ('orientation', 'target_orientation'):
                    if name in r:
                        r[name] = wrap(r[name] + t)
                for name in ('target_velocity', 'mass'):
                    if name in r:
                        r[name] *= 1 + c / 128
                if r.get('index_leader', -1) >= 0:
                    r['index_leader'] += c * n
            r['position'] = place(r['position'])
            rows.append(r)
        if c < wall_tiles or not c:
            walls_ += [[place(p), place(q)] for p, q in case.get('walls', [])]
    out['agents'] = rows
    if 'walls' in case:
        out['walls'] = walls_
    for name in ('forces', 'torques'):
        if name in case:
            out[name] = [list(x) * copies for x in case[name]]
    if 'perm' in case:
        m = len(walls_) if case.get('perm_of') == 'walls' else len(rows)
        p = list(case['perm'])
        out['perm'] = sorted(range(m), key=lambda k: (
            p[k % len(p)] if p else 0, (k * 7919) % 1009, k))
    return out
