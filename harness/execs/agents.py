import math

import numpy as np
from traitlets import TraitError

import crowddynamics.simulation.agents as A
from crowddynamics.exceptions import CrowdDynamicsException
from execs import crowd as K
from vlib import check, vec, require_same, raises

CLS = {'circular': A.Circular, 'three_circle': A.ThreeCircle}
# documented body types: ratios, then mean and range
TABLE = {
    'adult': (0.5882, 0.3725, 0.6275, 0.255, 0.035, 1.25, 0.3, 73.5, 8.0),
    'male': (0.5926, 0.3704, 0.6296, 0.27, 0.02, 1.35, 0.2, 80.0, 8.0),
    'female': (0.5833, 0.375, 0.625, 0.24, 0.02, 1.15, 0.2, 67.0, 6.7),
    'child': (0.5714, 0.3333, 0.6667, 0.21, 0.015, 0.9, 0.3, 57.0, 5.7),
    'eldery': (0.6, 0.36, 0.64, 0.25, 0.02, 0.8, 0.3, 70.0, 7.0)}
COLS = ('ratio_rt', 'ratio_rs', 'ratio_ts', 'radius_mean', 'radius_scale',
        'target_velocity_mean', 'target_velocity_scale', 'mass_mean',
        'mass_scale')
PART = {'ratio_rt': 'r_t', 'ratio_rs': 'r_s', 'ratio_ts': 'r_ts'}
DRAWN = ('radius', 'mass', 'target_velocity')


def tangent_shoulders(a):
    x, r, p = vec(a.position), float(a.r_ts), float(a.orientation)
    t = [math.sin(p), -math.cos(p)]
    require_same(vec(a.position_ls), K.sub(x, K.mul(r, t)),
                 'left shoulder of an agent at %r' % x, 1e-9, 1e-9)
    require_same(vec(a.position_rs), K.add(x, K.mul(r, t)),
                 'right shoulder of an agent at %r' % x, 1e-9, 1e-9)


def judge(a, known, given, loose, what):
    """known: what was set (body types expanded); given: values that must be
    as set; loose: the inertia was derived before mass or radius changed."""
    for n, v in known.items():
        if n == 'body_type':
            check(a.body_type == v, 'body type %r', a.body_type)
        elif n == 'position':
            require_same(vec(a.position), v, 'position', 0, 0)
        else:
            require_same(float(getattr(a, n)), v, '%s %s' % (n, what), 0, 0)
    for n in DRAWN:
        x = float(getattr(a, n))
        if n in known:
            continue
        m, s = known.get(n + '_mean'), known.get(n + '_scale')
        if m and s:
            check(m - s - 1e-9 <= x <= m + s + 1e-9 and x > 0, '%s is %r %s, '
                  'outside of %r +- %r', n, x, what, m, s)
        else:
            check(x == 0, '%s is %r %s though nothing defines it', n, x, what)
    r, m = float(a.radius), float(a.mass)
    for q, p in PART.items():
        if p in known:
            continue
        want = known[q] * r if q in known else 0.0
        require_same(float(getattr(a, p)), want, '%s %s (radius %r)' % (
            p, what, r), 1e-9, 0)
    if 'inertia_rot' not in known:
        want = 4 * math.pi * (m / 80.0) * (r / 0.27) ** 2
        if not loose:
            require_same(float(a.inertia_rot), want, 'rotational inertia %s, '
                         'mass %r and radius %r' % (what, m, r), 1e-9, 0)
        else:
            check(a.inertia_rot > 0, 'no rotational inertia %s', what)
    if hasattr(a, 'position_ls'):
        tangent_shoulders(a)


def learn(known, n, v):
    known[n] = v
    if n == 'body_type':
        known.update(zip(COLS, TABLE[v]))


def body(case):
    np.random.seed(case['seed'])
    known, loose = {}, False
    for n, v in case['init'].items():
        learn(known, n, v)
    a = CLS[case['model']](**case['init'])
    judge(a, known, case, loose, 'after creation with %r' % (case['init'],))
    for k, (n, v) in enumerate(case['sets']):
        if n in ('mass', 'radius') and a.inertia_rot > 0 and \
                'inertia_rot' not in known:
            loose = True
        before = {m: getattr(a, m) for m in DRAWN}
        setattr(a, n, v)
        learn(known, n, v)
        judge(a, known, case, loose, 'after %r' % (case['sets'][:k + 1],))
        for m in DRAWN:
            check(m == n or before[m] == 0 or getattr(a, m) == before[m],
                  '%s changed from %r to %r with %s', m, before[m],
                  getattr(a, m), n)
    if 'body_type' in known and case['again'] != known['body_type']:
        e = raises(TraitError, setattr, a, 'body_type', case['again'])
        check(e is not None, 'the body type was set twice')
        known.pop('body_type')
        judge(a, known, case, loose, 'after refusing a second body type')
    return any(known.get(q) for q in PART) and a.radius > 0, [case['style']]


def fields(a):
    return {n: getattr(a, n) for n in type(a).dtype().names}


def equal(x, y):
    return np.asarray(x).shape == np.asarray(y).shape and \
        bool(np.all(np.asarray(x) == np.asarray(y)))


ORDER = ('active target_reached target is_leader is_follower index_leader '
         'familiar_exit radius r_t r_s r_ts mass inertia_rot target_velocity '
         'target_angular_velocity position velocity target_direction force '
         'force_prev tau_adj k_soc tau_0 mu kappa damping std_rand_force'
         ).split()
ROT = ('orientation angular_velocity target_orientation torque torque_prev '
       'tau_rot std_rand_torque').split()
DEFAULTS = {'active': True, 'target': -1, 'index_leader': -1,
            'familiar_exit': -1, 'tau_adj': 0.5, 'k_soc': 1.5, 'tau_0': 3.0,
            'mu': 1.2e5, 'kappa': 4e4, 'damping': 500, 'std_rand_force': 0.1,
            'tau_rot': 0.2, 'std_rand_torque': 0.1}


def row(case):
    np.random.seed(case['seed'])
    cls = CLS[case['model']]
    v = dict(case['values'])
    names = set(ORDER)
    if case['model'] == 'three_circle':
        names |= set(ROT) | {'position_ls', 'position_rs'}
    check(set(cls.dtype().names) == names, 'attributes in arrays: %r',
          sorted(set(cls.dtype().names) ^ names))
    a = cls(**v)
    for n in names:
        if n in v:
            check(equal(getattr(a, n), v[n]), '%s is %r, given %r', n,
                  getattr(a, n), v[n])
        elif n == 'inertia_rot' and v.get('mass') and v.get('radius'):
            pass
        elif not n.startswith('position_'):
            check(np.all(np.asarray(getattr(a, n)) == DEFAULTS.get(n, 0)),
                  '%s is %r by default', n, getattr(a, n))
    arr = np.array(a)
    check(arr.shape == (1,) and arr.dtype == cls.dtype(),
          'array of shape %r, type %r', arr.shape, arr.dtype)
    for n in names:
        check(equal(arr[n][0], getattr(a, n)), '%s is %r, in the array %r', n,
              getattr(a, n), arr[n][0])
    if hasattr(a, 'position_ls'):
        tangent_shoulders(a)
    arr0 = arr.copy()
    b = cls(**({'body_type': case['other']} if case['other'] else {}))
    b.from_array(arr)
    for n in names:
        check(equal(getattr(b, n), arr0[n][0]), '%s is %r, set from an array '
              'with %r', n, getattr(b, n), arr0[n][0])
    again = np.array(b)
    check(again.tobytes() == arr0.tobytes() or all(
        equal(again[n], arr0[n]) for n in names), 'the array of the agent '
        'set from an array differs')
    # agents do not share state
    c = cls()
    for n in ('position', 'velocity', 'force', 'target_direction'):
        x = vec(getattr(c, n))
        getattr(a, n)[:] = 7.25
        check(vec(getattr(c, n)) == x, '%s of another agent changed', n)
    before = fields(b)
    bad = np.zeros(case['bad'], dtype=cls.dtype())
    e = raises(ValueError, b.from_array, bad)
    check(e is not None, 'an array of length %d was accepted', case['bad'])
    for n in names:
        check(equal(before[n], getattr(b, n)), '%s changed by a refused '
              'array', n)
    return len(v) > 9, []


def refuse(case):
    n, good, bad = case['bad']
    cls = CLS[case['model']]
    if not hasattr(cls, n):
        return False, []
    e = raises(TraitError, lambda: cls(**{n: bad}))
    check(e is not None, '%s=%r was accepted at creation', n, bad)
    a = cls(**{n: good, 'position': [1.5, 2.5] if n != 'position' else good})
    ls = [vec(a.position_ls), vec(a.position_rs)] \
        if hasattr(a, 'position_ls') else None
    e = raises(TraitError, setattr, a, n, bad)
    check(e is not None, '%s=%r was accepted', n, bad)
    check(equal(getattr(a, n), good), '%s is %r after refusing %r, was %r', n,
          getattr(a, n), bad, good)
    if ls:
        check([vec(a.position_ls), vec(a.position_rs)] == ls,
              'the shoulders moved with a refused %s', n)
    setattr(a, n, good)
    return True, [n]


# C24

class Unclear(Exception):
    pass


def attributes(model, d):
    d = dict(d)
    if model == 'circular':
        for n in ('orientation', 'r_t', 'r_s', 'r_ts'):
            d.pop(n)
    return d


def gap(p, q):
    return K.pair_candidates(p, q)[1]


def wall_gap(p, w):
    return K.wall_candidates(p, w[0], w[1])[1]


def below(h):
    if abs(h) < 1e-9:
        raise Unclear
    return h < 0


def overlap(case):
    m = case['model']
    cls = CLS[m]
    one = cls(**attributes(m, case['one']))
    objs = [cls(**attributes(m, d)) for d in case['others']]
    arr = np.concatenate([np.array(o) for o in objs]) if objs else \
        np.zeros(0, dtype=cls.dtype())
    walls = K.walls(case['walls'])
    p = K.parts(np.array(one)[0])
    try:
        w1 = any([below(gap(p, K.parts(r))) for r in arr])
        w2 = any([below(wall_gap(p, w)) for w in case['walls']])
    except Unclear:
        return False, ['unclear']
    got = one.overlapping(arr)
    check(bool(got) == w1, 'overlapping others: %r', got)
    got = one.overlapping_obstacles(walls)
    check(bool(got) == w2, 'overlapping obstacles: %r', got)
    return bool(objs) and len(walls) > 0, ['%d%d' % (w1, w2)]


class Endless(Exception):
    pass


def place(case):
    m = case['model']
    cls = CLS[m]
    rnd = np.random.RandomState(case['seed'])
    agents = A.Agents(agent_type=cls, cell_size=case['cell'])
    segs = [(list(p), list(q)) for p, q in case['walls']]
    placed = []
    collided = 0
    unclear = False
    # groups may take their members from one common stream
    common = (attributes(m, d) for g in case['groups']
              if g['as'] in ('generator', 'callable') for d in g['agents'])
    for g in case['groups']:
        attrs = [attributes(m, d) for d in g['agents']]
        n = len(attrs)
        log = []
        box = case['box'] * g['crowd']

        def draw():
            if len(log) > 2000 * (n + 1):
                raise Endless
            if len(log) < len(g['hint']):
                x = list(g['hint'][len(log)])
            else:
                x = rnd.uniform(-box, box, 2)
                x = (np.round(x * 4) / 4 if case['grid'] else x).tolist()
            log.append(x)
            return np.array(x)

        def stream():
            while True:
                yield draw()
        if g['as'] == 'list':
            group = A.AgentGroup(agent_type=cls, attributes=attrs)
        elif g['as'] == 'sized list':
            group = A.AgentGroup(size=n, agent_type=cls, attributes=attrs)
        elif g['as'] == 'generator':
            group = A.AgentGroup(size=n, agent_type=cls,
                                 attributes=common if case['shared']
                                 else (d for d in attrs))
        else:
            it = common if case['shared'] else iter(attrs)
            group = A.AgentGroup(size=n, agent_type=cls,
                                 attributes=lambda: next(it))
        check(group.size == n and len(group.members) == n, 'a group of %d '
              'has the size %r and %d members', n, group.size,
              len(group.members))
        for d, member in zip(attrs, group.members):
            for k, v in d.items():
                check(equal(getattr(member, k), v), 'the %s of a member is '
                      '%r, given %r', k, getattr(member, k), v)
        if case['foreign']:
            other = CLS['circular' if m == 'three_circle' else 'three_circle']
            odd = A.AgentGroup(size=1, agent_type=other, attributes=[
                {'radius': 0.2}])
            old = agents.array.copy()
            e = raises(CrowdDynamicsException, agents.
                       add_non_overlapping_group, odd, draw)
            check(e is not None, 'a group of another type was added')
            check(agents.array.tobytes() == old.tobytes() and not log,
                  'a refused group changed the agents')
        walls = segs if g['walls'] else []
        old = agents.array.copy()
        try:
            agents.add_non_overlapping_group(
                group, draw if g['pos'] == 'callable' else stream(),
                K.walls(walls) if g['walls'] else None)
        except Endless:
            check(False, 'placing %d agents drew %d positions', n, len(log))
        arr = agents.array
        check(arr.dtype == cls.dtype() and arr.flags.c_contiguous,
              'array of type %r', arr.dtype)
        check(arr[:len(old)].tobytes() == old.tobytes(), 'agents placed '
              'before changed')
        new = arr[len(old):]
        check(len(new) <= n, '%d agents of a group of %d', len(new), n)
        # replay the drawn positions by exact geometry
        at = bad = 0
        expect = []
        for x in log:
            if at == n:
                check(False, 'positions were drawn after the last agent')
            want = K.make(m, [dict(g['agents'][at], position=x)])[0]
            p = K.parts(want)
            try:
                c = any([below(gap(p, q)) for q in placed]) | any(
                    [below(wall_gap(p, w)) for w in walls])
            except Unclear:
                unclear = True
                break
            if c:
                bad += 1
            else:
                placed.append(p)
                expect.append((x, g['agents'][at]))
                at += 1
        if unclear:
            break
        collided += bad
        check(len(new) == at, '%d agents are placed, %d of the drawn '
              'positions were free', len(new), at)
        if at < n:
            check(bad >= 3 * n, 'only %d of %d agents are placed after %d '
                  'collisions', at, n, bad)
        for r, (x, d) in zip(new, expect):
            require_same(vec(r['position']), x, 'position', 0, 0)
            for k, v in attributes(m, d).items():
                if k in arr.dtype.names and k != 'position':
                    require_same(vec(r[k]), vec(v), k, 0, 0)
    # no two overlap, whatever the history was
    parts = [K.parts(r) for r in agents.array]
    for i, p in enumerate(parts):
        for j in range(i):
            check(gap(p, parts[j]) > -1e-9, 'agents %d and %d overlap at %r',
                  j, i, (vec(agents.array['position'][j]),
                         vec(agents.array['position'][i])))
    return collided > 0 and len(parts) > 1, [
        'unclear' if unclear else 'clear',
        'collided' if collided else 'free']
