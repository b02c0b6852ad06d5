import itertools
import math

import numpy as np

from crowddynamics.core import integrator as IN
from crowddynamics.core import rand as R
from crowddynamics.core import sampling as S
from execs import crowd as K
from vlib import check, num, vec, require_same, same

# C14


def timestep(rows, lo, hi):
    vmax = max([K.norm(r['velocity']) for r in rows] or [0.0])
    if vmax == 0:
        return hi
    dt = 1.1 * max(r['target_velocity'] for r in rows) * hi / vmax
    return min(max(dt, lo), hi)


def angle_same(got, want, what):
    check(-math.pi - 1e-9 <= got <= math.pi + 1e-9,
          '%s %r is not within [-pi, pi]', what, got)
    d = K.wrap(got - want)
    check(abs(d) < 1e-6, '%s is %r, expected %r', what, got, want)


def integrate(case):
    case = K.tiled(case)
    m, kind = case['model'], case['kind']
    three = m == 'three_circle'
    lo, hi = case['dt']
    a = K.make(m, case['agents'])
    rows = [dict(r) for r in case['agents']]
    if three:
        for r in rows:
            r.setdefault('orientation', 0.0)
    fn = {'euler': IN.euler_integrator, 'verlet': IN.velocity_verlet_integrator,
          'init': IN.velocity_verlet_integrator_init}[kind]
    labels = {m, kind}
    for fs, ts in zip(case['forces'], case['torques']):
        for k in range(len(rows)):
            a['force'][k] = fs[k]
            if three:
                a['torque'][k] = ts[k]
        want = timestep(rows, lo, hi)
        before = a.copy()
        require_same(num(IN.adaptive_timestep(a, lo, hi)), want, 'time step')
        K.unchanged(before, a)
        dt = num(fn(a, lo, hi))
        require_same(dt, want, 'time step used')
        check(lo * (1 - 1e-12) <= dt <= hi * (1 + 1e-12),
              'time step %r is not within %r', dt, case['dt'])
        labels.add('min' if dt == lo else 'max' if dt == hi else 'mid')
        changed = ['position', 'velocity']
        if three:
            changed += ['orientation', 'angular_velocity', 'position_ls',
                        'position_rs']
        if kind != 'euler':
            changed += ['force_prev', 'torque_prev']
        K.unchanged(before, a, *changed)
        for k, r in enumerate(rows):
            acc = K.mul(1 / r['mass'], fs[k])
            old = K.mul(1 / r['mass'], r['force_prev'])
            if kind == 'verlet':
                v = K.add(r['velocity'], K.mul(dt / 2, K.add(acc, old)))
                x = K.add(r['position'], K.add(K.mul(dt, v),
                                               K.mul(dt * dt / 2, acc)))
            else:
                x = K.add(r['position'], K.add(K.mul(dt, r['velocity']),
                                               K.mul(dt * dt / 2, acc)))
                v = K.add(r['velocity'], K.mul(dt, acc))
            require_same(vec(a['position'][k]), x, 'position', 1e-9, 1e-8)
            require_same(vec(a['velocity'][k]), v, 'velocity', 1e-9, 1e-8)
            r['position'], r['velocity'] = x, v
            if kind != 'euler':
                require_same(vec(a['force_prev'][k]), fs[k], 'remembered '
                             'force')
                r['force_prev'] = fs[k]
            if not three:
                continue
            acc = ts[k] / r['inertia_rot']
            old = r['torque_prev'] / r['inertia_rot']
            w0, p0 = r['angular_velocity'], r['orientation']
            if kind == 'verlet':
                w = w0 + (acc + old) / 2 * dt
                p = p0 + w * dt + acc / 2 * dt * dt
            else:
                p = p0 + w0 * dt + acc / 2 * dt * dt
                w = w0 + acc * dt
            require_same(num(a['angular_velocity'][k]), w,
                         'angular velocity', 1e-9, 1e-8)
            angle_same(num(a['orientation'][k]), p, 'orientation')
            if kind != 'euler':
                require_same(num(a['torque_prev'][k]), ts[k],
                             'remembered torque')
                r['torque_prev'] = ts[k]
            # continue from the stored numbers
            r['orientation'] = num(a['orientation'][k])
            r['angular_velocity'] = w
            ls, rs = K.shoulders(x, p, r['r_ts'])
            require_same(vec(a['position_ls'][k]) + vec(a['position_rs'][k]),
                         ls + rs, 'shoulders', 1e-6, 1e-6)
            if abs(p) > math.pi:
                labels.add('wrapped')
    return len(rows) > 0, sorted(labels)


# C15

def ks(samples, cdf, what, eps=None):
    """Kolmogorov distance within a bound that a correct sampler exceeds with
    probability below 1e-12 (Dvoretzky-Kiefer-Wolfowitz)."""
    s = sorted(float(x) for x in samples)
    n = len(s)
    if n == 0:
        return
    eps = eps or math.sqrt(math.log(2 / 1e-12) / (2.0 * n))
    d = 0.0
    for k, x in enumerate(s):
        c = cdf(x)
        d = max(d, c - k / n, (k + 1) / n - c)
    check(d <= eps, '%s: distribution is off by %.3f (allowed %.3f) for %d '
          'samples', what, d, eps, n)


def phi(x):
    return 0.5 * math.erfc(-x / math.sqrt(2))


def truncated_normal(case):
    np.random.seed(case['seed'])
    lo = case['start']
    hi = lo + case['width']
    n = case['size']
    kw = {}
    s = case['scale']
    if case['loc']:
        kw['loc'] = case['loc']
    if case['abs_scale']:
        kw['abs_scale'] = case['abs_scale']
        s = case['abs_scale'] / max(abs(lo), abs(hi))
        scales = [s] * n
    elif case['array'] and n:
        scales = [s * (1 + k % 5) for k in range(n)]
        kw['scale'] = np.array(scales)
    else:
        kw['scale'] = s
        scales = [s] * n
    x = np.asarray(R.truncnorm(lo, hi, size=n, random_state=case['state'],
                               **kw))
    check(x.shape == (n,), 'shape is %r for size %d', x.shape, n)
    z = [(float(v) - case['loc']) / c for v, c in zip(x, scales)]
    tol = 1e-9 * (1 + abs(case['loc']) / s)
    for v in z:
        check(lo - tol <= v <= hi + tol, 'sample %r is outside [%r, %r]', v,
              lo, hi)
    if case['state'] is not None:
        y = np.asarray(R.truncnorm(lo, hi, size=n,
                                   random_state=case['state'], **kw))
        check(np.array_equal(x, y), 'samples differ for the same random '
              'state')
    p0, p1 = phi(lo), phi(hi)
    ks(z, lambda v: (phi(v) - p0) / (p1 - p0), 'truncated normal')
    return n > 1, ['n%d' % n, 'array' if 'scale' in kw and
                   np.ndim(kw['scale']) else 'scalar']


def vectors(case):
    np.random.seed(case['seed'])
    kw = {}
    o, mag, n = (0.0, 2 * math.pi), 1.0, case['size']
    if case['orient']:
        o = (case['orient'][0], case['orient'][0] + case['orient'][1])
        kw['orient'] = o
    if case['mag']:
        mag = kw['mag'] = case['mag']
    x = np.asarray(R.random_vector(n, **kw))
    check(x.shape == (n, 2), 'shape is %r for size %d', x.shape, n)
    u = []
    for v in x:
        v = vec(v)
        require_same(K.norm(v), mag, 'length')
        t = math.atan2(v[1], v[0])
        while t < o[0] - 1e-7:
            t += 2 * math.pi
        while t > o[1] + 1e-7 and t - 2 * math.pi >= o[0] - 1e-7:
            t -= 2 * math.pi
        check(t <= o[1] + 1e-7, 'orientation %r is outside %r', t, o)
        u.append(t)
    w = o[1] - o[0]
    if 1e-3 < w <= 2 * math.pi:
        ks(u, lambda t: min(1, max(0, (t - o[0]) / w)), 'orientation')
    return n > 1, ['n%d' % n]


def clock(case):
    np.random.seed(case['seed'])
    iv, ratio = case['interval'], case['ratio']
    dt = iv * ratio
    runs = 1 if ratio > 100 else int(max(math.ceil(100 / ratio), min(
        1500, 9000 / ratio)))
    total, gaps, times, first = 0, [], [], []
    for _ in range(runs):
        prev = 0.0
        for t in R.poisson_clock(iv, dt):
            t = float(t)
            if prev == 0:
                first.append(t)
            check(prev < t or (prev == t == 0), 'time %r after %r', t, prev)
            check(t < dt, 'time %r is outside the window %r', t, dt)
            gaps.append(t - prev)
            times.append(t / dt)
            prev = t
            total += 1
    mean = runs * ratio
    # Chernoff bounds keep ten standard deviations below 1e-12
    check(abs(total - mean) < 10 * math.sqrt(mean) + 20,
          '%d updates in %d windows, expected %.1f', total, runs, mean)
    # given their number, the times of a Poisson process are uniform
    ks(times, lambda u: min(1, max(0, u)), 'time within the window')
    q = 1 - math.exp(-ratio)
    if ratio <= 100:
        ks(first, lambda t: min(1, (1 - math.exp(-t / iv)) / q),
           'time of the first update')
    if ratio > 100:
        ks(gaps, lambda g: 1 - math.exp(-g / iv), 'time between updates')
    return total > 0, ['ratio%g' % ratio]


def sequence(case):
    np.random.seed(case['seed'])
    ps = case['players']
    n = len(ps)
    arr = np.array(ps, dtype=np.int64)
    dt = case['interval'] * case['ratio']
    seq = [int(i) for i in R.poisson_timings(arr, case['interval'], dt)]
    check(sorted(int(i) for i in arr) == sorted(ps), 'the players changed')
    check(set(seq) <= set(ps), 'updates of strangers: %r', seq)
    mean = n * case['ratio']
    check(abs(len(seq) - mean) < 10 * math.sqrt(mean) + 20,
          '%d updates, expected %.1f', len(seq), mean)
    for p in ps:
        c, e = seq.count(p), case['ratio']
        check(abs(c - e) < 10 * math.sqrt(e) + 20, 'player %d was updated '
              '%d times, expected %.1f', p, c, e)
    # prescribed times, if the clock can be replaced
    used = []
    if hasattr(R, 'poisson_clock'):
        orig = R.poisson_clock

        def fake(interval, dt):
            ts = sorted(set(case['times'][len(used) % 7]))
            if len(used) >= 7:
                ts = []
            used.append(ts)
            return iter(ts)
        R.poisson_clock = fake
        try:
            arr = np.array(ps, dtype=np.int64)
            got = [int(i) for i in R.poisson_timings(arr, 1.0, 1.0)]
        finally:
            R.poisson_clock = orig
    flat = sorted((t, c) for c, ts in enumerate(used) for t in ts)
    if len(used) == n and n and len(set(t for t, _ in flat)) == len(flat):
        check(len(got) == len(flat), '%d updates for %d times', len(got),
              len(flat))
        fits = {}
        for g, (t, c) in zip(got, flat):
            check(fits.setdefault(c, g) == g, 'updates %r are not in the '
                  'order of their times %r', got, flat)
        check(len(set(fits.values())) == len(fits), 'updates %r mix up the '
              'players of %r', got, flat)
    return len(seq) > 1, ['n%d' % n, 'prescribed' if flat else 'random']


# C16

def take(gen, n):
    return [vec(x) for x in itertools.islice(gen, n)]


def on_line(case):
    np.random.seed(case['seed'])
    v = [list(p) for p in case['v']]
    if case['dup'] < len(v):
        v.insert(case['dup'], list(v[case['dup']]))
    lens = [K.norm(K.sub(q, p)) for p, q in zip(v, v[1:])]
    arr = np.array(v, dtype=np.float64)
    a0 = arr.copy()
    cum = vec(S.linestring_length_cumsum(arr))
    want = list(itertools.accumulate(lens))
    require_same(cum, want, 'accumulated lengths', 1e-9, 1e-9)
    p = vec(S.random_sample_line(arr[0], arr[1]))
    require_same(K.norm(K.sub(p, v[0])) + K.norm(K.sub(v[1], p)), lens[0],
                 'point on the line', 1e-9, 1e-9)
    if want[-1] < 1e-3:
        return False, ['point']
    n = 2500
    pts = take(S.linestring_sample(arr), n)
    check(np.array_equal(arr, a0), 'the vertices were changed')
    us, counts, ambiguous = [], [0] * len(lens), False
    for p in pts:
        best = []
        for k, (a, b) in enumerate(zip(v, v[1:])):
            if lens[k] < 1e-9:
                d, t = K.norm(K.sub(p, a)), 0.0
            else:
                c = K.closest_on_segment(p, a, b)
                d, t = K.norm(K.sub(p, c)), K.norm(K.sub(c, a))
            best.append((d, k, t))
        d, k, t = min(best)
        check(d < 1e-7, 'the point %r is %r away from the line', p, d)
        near = [b for b in best if b[0] < 1e-7]
        u = [want[j] - lens[j] + tt for _, j, tt in near]
        if max(u) - min(u) > 1e-5:
            ambiguous = True
        us.append(u[0])
    if not ambiguous:
        ks(us, lambda u: min(1, max(0, u / want[-1])), 'position on the line')
    return len([l for l in lens if l > 1e-6]) > 1, [
        'ambiguous' if ambiguous else 'unique', 'n%d' % len(lens)]


def tri_area(t):
    return abs(K.cross(K.sub(t[1], t[0]), K.sub(t[2], t[0]))) / 2


def in_triangle(case):
    np.random.seed(case['seed'])
    mesh = case['mesh']
    arr = np.array(mesh, dtype=np.float64)
    require_same(vec(S.triangle_area_cumsum(arr)),
                 list(itertools.accumulate(tri_area(t) for t in mesh)),
                 'accumulated areas', 1e-9, 1e-8)
    t = mesh[0]
    ar = tri_area(t)
    size = max(K.norm(K.sub(t[i], t[j])) for i in range(3) for j in range(i))
    if ar < 1e-3 * size * size or size < 1e-2:
        return False, ['flat']
    lam = [[], [], []]
    a, b, c = [np.array(x, dtype=np.float64) for x in t]
    for _ in range(1500):
        p = vec(S.random_sample_triangle(a, b, c))
        for k in range(3):
            q, r = t[(k + 1) % 3], t[(k + 2) % 3]
            l = K.cross(K.sub(q, p), K.sub(r, p)) / \
                K.cross(K.sub(q, t[k]), K.sub(r, t[k]))
            check(l > -1e-9, 'the point %r is outside the triangle %r', p, t)
            lam[k].append(l)
    for k in range(3):
        ks(lam[k], lambda x: 1 - (1 - min(1, max(0, x))) ** 2,
           'position in the triangle')
    return all(tri_area(t) > 1e-6 for t in mesh), ['n%d' % len(mesh)]


def cut(v, u, s):
    """Area of the part of the convex polygon v where x.u <= s."""
    out = []
    for p, q in zip(v, v[1:] + v[:1]):
        dp, dq = K.dot(p, u) - s, K.dot(q, u) - s
        if dp <= 0:
            out.append(p)
        if (dp < 0 < dq) or (dq < 0 < dp):
            out.append(K.add(p, K.mul(dp / (dp - dq), K.sub(q, p))))
    if len(out) < 3:
        return 0.0
    return abs(sum(K.cross(K.sub(p, out[0]), K.sub(q, out[0]))
                   for p, q in zip(out, out[1:]))) / 2


def in_polygon(case):
    np.random.seed(case['seed'])
    v = [list(p) for p in case['v']]
    n = 1500
    arr = np.array(v + (v[:1] if case['closed'] else []), dtype=np.float64)
    a0 = arr.copy()
    total = cut(v, [1, 0], 1e9)
    size = max(K.norm(K.sub(p, q)) for p in v for q in v)
    if total < 1e-3 * size * size:
        return False, ['flat']
    pts = take(S.polygon_sample(arr), n)
    check(np.array_equal(arr, a0), 'the vertices were changed')
    o = 1 if K.cross(K.sub(v[1], v[0]), K.sub(v[2], v[1])) > 0 else -1
    for p in pts:
        for a, b in zip(v, v[1:] + v[:1]):
            check(o * K.cross(K.sub(b, a), K.sub(p, a)) > -1e-7 * size * size,
                  'the point %r is outside the polygon', p)
    for t in (0.0, 1.0, 2.0):
        u = [math.cos(t), math.sin(t)]
        # tabulated area left of the line, interpolated
        xs = [K.dot(p, u) for p in v]
        a, w = min(xs), max(xs) - min(xs)
        grid = [cut(v, u, a + w * k / 200) / total for k in range(201)]

        def cdf(x):
            k = min(199.999, max(0.0, (x - a) / w * 200))
            i = int(k)
            return grid[i] + (k - i) * (grid[i + 1] - grid[i])
        ks([K.dot(p, u) for p in pts], cdf, 'position in the polygon')
    return True, ['n%d' % len(v)]
