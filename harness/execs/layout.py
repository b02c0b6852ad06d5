"""Whole scenes, laid out in different ways (C32)."""
import math
import random

import numpy as np

from crowddynamics.simulation import logic as L
from crowddynamics.simulation.field import Field
from execs import crowd as K
from execs.steps import simulate, lines
from vlib import check

VECTORS = ('position', 'position_ls', 'position_rs', 'velocity', 'force',
           'force_prev', 'target_direction')
ANGLES = ('orientation', 'target_orientation')
SPINS = ('angular_velocity', 'torque', 'torque_prev')
LABELS = ('target', 'is_follower', 'is_leader', 'familiar_exit', 'active')


class Layout(object):
    """A rigid motion: mirror, then turn, then move; and a common drift."""
    def __init__(self, spec):
        self.mirror, self.angle, self.move, self.drift = spec
        t = self.angle * math.pi / 4 if isinstance(self.angle, int) \
            else self.angle
        self.t = t
        c, s = math.cos(t), math.sin(t)
        if isinstance(self.angle, int) and self.angle % 2 == 0:
            c, s = float(round(c)), float(round(s))
        m = -1.0 if self.mirror else 1.0
        self.m = m
        self.a = [[c, -s * m], [s, c * m]]

    def turn(self, v):
        return [self.a[0][0] * v[0] + self.a[0][1] * v[1],
                self.a[1][0] * v[0] + self.a[1][1] * v[1]]

    def place(self, x, time=0.0):
        y = self.turn(x)
        return [y[i] + self.move[i] + self.drift[i] * time for i in (0, 1)]

    def row(self, r):
        r = dict(r)
        r['position'] = self.place(r['position'])
        r['velocity'] = K.add(self.turn(r['velocity']), self.drift)
        for n in ('force', 'force_prev', 'target_direction'):
            if n in r:
                r[n] = self.turn(r[n])
        for n in ANGLES:
            if n in r:
                r[n] = K.wrap(self.m * r[n] + self.t)
        for n in SPINS:
            if n in r:
                r[n] = self.m * r[n]
        return r


def run(case, layouts, perm, jitter=None):
    """States of the agents (in the order of the case, layout after layout)
    and the data after every step."""
    rnd = random.Random(jitter)
    rows, segs, doors, shells = [], [], [], []

    def spot(lay, p):
        p = lay.place(p)
        if jitter is not None:
            p = [z + 1e-9 * rnd.uniform(-1, 1) for z in p]
        return p

    n, nd = len(case['agents']), len(case['doors'])
    for c, lay in enumerate(layouts):
        for r in case['agents']:
            r = lay.row(r)
            if jitter is not None:
                for k in ('position', 'velocity', 'target_direction'):
                    r[k] = [z + 1e-9 * rnd.uniform(-1, 1) for z in r[k]]
                if 'orientation' in r:
                    r['orientation'] = K.wrap(
                        r['orientation'] + 1e-9 * rnd.uniform(-1, 1))
            if r['index_leader'] >= 0:
                r['index_leader'] += c * n
            for k in ('target', 'familiar_exit'):
                if r[k] >= 0:
                    r[k] += c * nd
            rows.append(r)
        segs += [[spot(lay, p), spot(lay, q)] for p, q in case['walls']]
        doors += [[spot(lay, p), spot(lay, q)] for p, q in case['doors']]
        shells += [[spot(lay, p) for p in ring] for ring in case['areas']]
    order = list(range(len(rows)))
    if perm is not None:
        rnd = random.Random(perm)
        rnd.shuffle(order)
        rnd.shuffle(segs)
        segs = [s[::-1] if rnd.random() < 0.5 else s for s in segs]
        shells = [s[::-1] if rnd.random() < 0.5 else s for s in shells]
        doors = [s[::-1] if rnd.random() < 0.5 else s for s in doors]
    back = dict((k, j) for j, k in enumerate(order))
    listed = []
    for k in order:
        r = dict(rows[k])
        if r['index_leader'] >= 0:
            r['index_leader'] = back[r['index_leader']]
        listed.append(r)
    from shapely.geometry import LineString, Polygon
    f = Field(obstacles=lines(segs), targets=[
        LineString([tuple(p) for p in d]) for d in doors] + [
        Polygon([tuple(p) for p in s]) for s in shells])
    if case['domain']:
        f.domain = Polygon([tuple(spot(layouts[0], p))
                            for p in case['domain']])
    a = K.make(case['model'], listed, mixed=False)
    sim = simulate(case['model'], a, f)
    lo, hi = case['dt']
    integ = L.Integrator(sim, dt_min=lo, dt_max=hi)
    top = L.Reset(sim) << integ
    make = {'adjust': L.Adjusting, 'orient': L.Orientation,
            'agents': L.AgentAgentInteractions,
            'obstacles': L.AgentObstacleInteractions,
            'exit': L.ExitDetection, 'leader': L.LeaderFollower,
            'herding': L.LeaderFollowerWithHerding}
    for p in case['parts']:
        integ << make[p](sim)
    if case['areas']:
        top << L.TargetReached(sim)
    if case['domain']:
        top << L.InsideDomain(sim)
    sim.logic = top
    out = []
    for _ in range(case['steps']):
        sim.update()
        b = sim.agents.array
        state = {}
        for name in b.dtype.names:
            state[name] = [b[name][back[k]].tolist()
                           for k in range(len(rows))]
        state['index_leader'] = [
            order[i] if i >= 0 else i for i in state['index_leader']]
        out.append((state, dict(sim.data)))
    return out


def expected(base, lay, c, n, nd, time, model):
    """The state of the first layout as it should look in another one."""
    want = {}
    for name, values in base.items():
        if name in ('position', 'position_ls', 'position_rs'):
            src = name
            if lay.mirror and name != 'position':
                src = 'position_rs' if name.endswith('ls') else 'position_ls'
            want[name] = [lay.place(v, time) for v in base[src]]
        elif name == 'velocity':
            want[name] = [K.add(lay.turn(v), lay.drift) for v in values]
        elif name in VECTORS:
            want[name] = [lay.turn(v) for v in values]
        elif name in ANGLES:
            want[name] = [lay.m * v + lay.t for v in values]
        elif name in SPINS:
            want[name] = [lay.m * v for v in values]
        elif name == 'index_leader':
            want[name] = [v + c * n if v >= 0 else v for v in values]
        elif name in ('target', 'familiar_exit'):
            want[name] = [v + c * nd if v >= 0 else v for v in values]
        else:
            want[name] = values
    return want


def gap(got, want):
    """Largest relative difference of two states, and where it is."""
    worst, where = 0.0, None
    for name in want:
        for k, (a, b) in enumerate(zip(got[name], want[name])):
            if name in VECTORS:
                s = 1.0 + K.norm(b)
                d = K.norm(K.sub(a, b)) / s
                if name.startswith('position'):
                    d = K.norm(K.sub(a, b))
            elif name in ANGLES:
                d = abs(K.wrap(a - b))
            elif name in SPINS:
                d = abs(a - b) / (1.0 + abs(b))
            else:
                d = 0.0 if a == b or (a != a and b != b) else 1.0
            if not d <= worst:
                if d != d:
                    d = 0.0 if repr(a) == repr(b) else 1.0
                if d > worst:
                    worst, where = d, (name, k, a, b)
    return worst, where


def counts(data, areas, doors):
    return [float(data['dt']), float(data['time_tot']),
            int(data['iterations']), int(data.get('inactive', 0))]


def layout(case):
    """The same scene moved, turned, mirrored, listed in another order, or
    twice far from each other."""
    n, nd = len(case['agents']), len(case['doors'])
    one = [Layout([False, 0, [0.0, 0.0], [0.0, 0.0]])]
    base = run(case, one, None)
    lays = [Layout(s) for s in case['layouts']]
    other = run(case, lays, case['perm'])
    moved = 0.0
    for step, ((s0, d0), (s1, d1)) in enumerate(zip(base, other)):
        t = float(d0['time_tot'])
        worst, where, which = 0.0, None, 0
        for c, lay in enumerate(lays):
            want = expected(s0, lay, c, n, nd, t, case['model'])
            got = dict((k, v[c * n:(c + 1) * n]) for k, v in s1.items())
            g, w = gap(got, want)
            if g > worst:
                worst, where, which = g, w, c
        u, v = counts(d0, 0, 0), counts(d1, 0, 0)
        e = max(abs(x - y) for x, y in zip(u, v))
        if e > worst:
            worst, where = e, ('data', None, v, u)
        for i in range(len(case['areas'])):
            x = int(d0['target_%d' % (nd + i)])
            y = sum(int(d1['target_%d' % (nd * len(lays) + i + c * len(
                case['areas']))]) for c in range(len(lays)))
            if x * len(lays) != y and worst < 1:
                worst, where = 1.0, ('area %d' % i, None, y, x * len(lays))
        if worst > 1e-6:
            # a scene on the edge between two outcomes says nothing
            for k in range(24):
                near = run(dict(case, steps=step + 1), one, None, k)
                s = gap(near[step][0], s0)[0]
                x, y = near[step][1], d0
                for name in y:
                    if name.startswith('target_') or name == 'inactive':
                        s = max(s, float(x[name] != y[name]))
                s = max(s, abs(float(x['dt']) - float(y['dt'])))
                if s > worst * 1e-3:
                    return False, ['sensitive']
            name, k, a, b = where
            check(False, 'after step %d in layout %d: %s of agent %r is %r, '
                  'expected %r', step + 1, which, name, k, a, b)
        moved = max(moved, max([K.norm(x) for x in s0['velocity']] + [0.0]))
    labels = ['perm' if case['perm'] is not None else 'listed',
              'two' if len(lays) > 1 else 'one']
    labels += list(case['parts'])
    return n > 1 and moved > 0 and bool(case['parts']), labels
