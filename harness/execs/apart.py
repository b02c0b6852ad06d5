"""Several simulations in one process (C33)."""
import ctypes
import os
import pickle
import random
import signal
import sys
import traceback

import numpy as np
import shapely.geometry
import shapely.ops

from crowddynamics.core.geometry import geom_to_linear_obstacles
from crowddynamics.core.rand import truncnorm
from crowddynamics.core.vector2D import unit_vector
from crowddynamics.simulation import logic as L
from crowddynamics.simulation.agents import AgentGroup, Agents, Circular, \
    ThreeCircle
from crowddynamics.simulation.field import Field
from crowddynamics.simulation.multiagent import MultiAgentSimulation
from _stubmissing import StubMissing
from execs.steps import lines
from vlib import check

try:
    LIBC = ctypes.CDLL(None)
except OSError:
    LIBC = None
TYPES = {'circular': Circular, 'three_circle': ThreeCircle}
NODES = {'adjust': L.Adjusting, 'orient': L.Orientation,
         'noise': L.Fluctuation, 'agents': L.AgentAgentInteractions,
         'obstacles': L.AgentObstacleInteractions, 'exit': L.ExitDetection,
         'leader': L.LeaderFollower, 'herding': L.LeaderFollowerWithHerding}


def make_field(d):
    from shapely.geometry import LineString, Polygon
    w, h = d['size']

    def box(x0, y0, x1, y1):
        return Polygon([(x0, y0), (x1, y0), (x1, y1), (x0, y1)])
    return Field(domain=box(0, 0, w, h), obstacles=lines(d['walls']),
                 targets=[LineString([(w, h * a), (w, h * b)])
                          for a, b in d['doors']] +
                 [box(w * a, 0, w, h) for a in d['areas']],
                 spawns=[box(w * a, h * b, w * c, h * e)
                         for a, b, c, e in d['spawns']])


def draw(field):
    """The coordinates of everything in a field."""
    def rings(g):
        if g is None:
            return None
        if hasattr(g, 'geoms'):
            return [rings(p) for p in g.geoms]
        if hasattr(g, 'exterior'):
            return [list(g.exterior.coords)] + [
                list(r.coords) for r in g.interiors]
        return list(g.coords)
    return [rings(field.domain), rings(field.obstacles),
            [rings(g) for g in field.targets],
            [rings(g) for g in field.spawns]]


def construct(d, field):
    cls = TYPES[d['model']]
    agents = Agents(agent_type=cls)
    for g in d['groups']:
        def attributes(g=g):
            a = np.random.uniform(-np.pi, np.pi)
            r = dict(body_type=g['body'], velocity=g['speed'] *
                     unit_vector(a), target_direction=unit_vector(a),
                     target=g['target'], is_leader=g['role'] == 1,
                     is_follower=g['role'] == 2,
                     familiar_exit=g['familiar'])
            if d['model'] == 'three_circle':
                r.update(orientation=a, target_orientation=a,
                         angular_velocity=0.0)
            return r
        group = AgentGroup(agent_type=cls, size=g['size'],
                           attributes=attributes)
        agents.add_non_overlapping_group(
            group, position_gen=field.sample_spawn(g['spawn']),
            obstacles=None if field.obstacles is None
            else geom_to_linear_obstacles(field.obstacles))
    simu = MultiAgentSimulation(agents=agents, field=field)
    lo, hi = d['dt']
    integ = L.Integrator(simu, dt_min=lo, dt_max=hi)
    top = L.Reset(simu) << integ
    for p in d['parts']:
        integ << (L.Navigation(simu, step=d['step']) if p == 'navigate'
                  else NODES[p](simu))
    if d['counts']:
        top << (L.InsideDomain(simu), L.TargetReached(simu))
    simu.logic = top
    return simu


class Play(object):
    """Simulations that each have their own stream of random numbers."""
    def __init__(self, scenes, seeds, common):
        self.scenes, self.common = scenes, common
        self.state = []
        for s in seeds:
            np.random.seed(s)
            random.seed(s)
            self.state.append((np.random.get_state(), random.getstate()))
        self.simu = {}
        self.field = None
        self.log = dict((k, []) for k in range(len(scenes)))

    def go(self, k):
        np.random.set_state(self.state[k][0])
        random.setstate(self.state[k][1])
        if k not in self.simu:
            d = self.scenes[k]
            if self.common is None:
                field = make_field(d)
            else:
                if self.field is None:
                    self.field = make_field(self.common)
                field = self.field
            self.simu[k] = construct(d, field)
        else:
            self.simu[k].update()
        self.state[k] = np.random.get_state(), random.getstate()
        s = self.simu[k]
        self.log[k].append((
            s.agents.array.copy(),
            dict((n, float(v)) for n, v in s.data.items()), draw(s.field)))


def same(got, want, what):
    check(len(got) == len(want), '%s: %d steps, expected %d', what, len(got),
          len(want))
    for n, ((a, d, f), (b, e, g)) in enumerate(zip(got, want)):
        at = '%s, step %d' % (what, n)
        check(len(a) == len(b) and a.dtype == b.dtype,
              '%s: %d agents, alone there are %d', at, len(a), len(b))
        for name in a.dtype.names:
            check(a[name].tobytes() == b[name].tobytes(),
                  '%s: %s is %r, alone it is %r', at, name,
                  a[name].tolist(), b[name].tolist())
        check(d == e, '%s: the data is %r, alone it is %r', at, d, e)
        check(f == g, '%s: the field is %r, alone it is %r', at, f, g)


class Broken(Exception):
    pass


def fresh(function, *args):
    """The result of a function in a process that has run nothing yet."""
    get, put = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            if LIBC is not None:
                LIBC.prctl(1, signal.SIGKILL)        # PR_SET_PDEATHSIG
            os.close(get)
            # the helper is alive, but not a child of this process
            rpc = sys.modules.get('scipy._rpc')
            if rpc is not None and rpc._proc is not None:
                rpc._proc.poll = lambda: None
            try:
                out = False, function(*args)
            except (Exception, StubMissing) as e:
                out = isinstance(e, StubMissing) or None, '%s: %s | %s' % (
                    type(e).__name__, e, traceback.format_exc()[-600:])
            with os.fdopen(put, 'wb') as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(put)
    with os.fdopen(get, 'rb') as f:
        text = f.read()
    status = os.waitpid(pid, 0)[1]
    if status or not text:
        raise RuntimeError('the process ended with status %r' % status)
    failed, out = pickle.loads(text)
    if failed is None:
        raise Broken(out)
    if failed:
        raise StubMissing(out)
    return out


def alone(case, k, twice):
    """The history of one of the simulations, on its own."""
    common = case['scenes'][0] if case['common'] else None
    logs = []
    for _ in range(2 if twice else 1):
        p = Play(case['scenes'], case['seeds'], common)
        for j in case['order']:
            if j == k:
                p.go(k)
        logs.append(p.log[k])
    return logs


def together(case):
    """The histories of all, and what they have in the end."""
    p = Play(case['scenes'], case['seeds'],
             case['scenes'][0] if case['common'] else None)
    for j in case['order']:
        p.go(j)
    shared = [(a, b) for a in p.simu for b in p.simu if a < b and
              np.shares_memory(p.simu[a].agents.array,
                               p.simu[b].agents.array)]
    left = dict((k, (s.agents.array.copy(),
                     dict((m, float(v)) for m, v in s.data.items()),
                     draw(s.field))) for k, s in p.simu.items())
    return p.log, shared, left


def apart(case):
    np.random.seed(1)
    truncnorm(-1.0, 1.0)     # starts the helper that all processes share
    order, n = case['order'], len(case['scenes'])
    single = []
    for k in range(n):
        try:
            logs = fresh(alone, case, k, k == case['again'] % n)
        except Broken:
            # such as walls in front of a door; not of interest here
            return False, ['impossible']
        for log in logs[1:]:
            same(log, logs[0], 'simulation %d run again' % k)
        for _, _, f in logs[0]:
            check(f == logs[0][0][2], 'the field of a simulation changed')
        single.append(logs[0])
    logs, shared, left = fresh(together, case)
    check(not shared, 'simulations %r have the same agents', shared)
    for k in range(n):
        same(logs[k], single[k], 'simulation %d among others' % k)
        if k in left:
            same([left[k]], logs[k][-1:],
                 'simulation %d in the end (alone: at its last step)' % k)
    moved = sum(len(log) > 1 and len(log[0][0]) > 0 and not np.array_equal(
        log[0][0]['position'], log[-1][0]['position']) for log in single)
    mixed = sum(a != b for a, b in zip(order, order[1:]))
    labels = sorted(set(q for s in case['scenes'] for q in s['parts']))
    labels += ['common field' if case['common'] else 'own fields']
    return moved > 1 and mixed > 2, labels
