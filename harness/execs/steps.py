import csv
import math
import os
import shutil
import tempfile

import numpy as np

from crowddynamics.core.geometry import geom_to_linear_obstacles
from crowddynamics.core.integrator import velocity_verlet_integrator
from crowddynamics.core.interactions import agent_agent_block_list, \
    agent_obstacle
from crowddynamics.core.motion.adjusting import force_adjust_agents, \
    torque_adjust_agents
from crowddynamics.core.steering import navigation as NA
from crowddynamics.core.steering.orientation import \
    orient_towards_target_direction
from crowddynamics.io import load_npy, load_npy_concatenated, \
    load_geometry_json
from crowddynamics.simulation import logic as L
from crowddynamics.simulation.agents import Agents, Circular, ThreeCircle
from crowddynamics.simulation.field import Field
from crowddynamics.simulation.multiagent import MultiAgentSimulation
from execs import crowd as K
from execs import steering as S
from execs.places import sees
from execs.storage import flat
from vlib import check, vec, require_same, TRUTH

CLS = {'circular': Circular, 'three_circle': ThreeCircle}


def simulate(model, array, field):
    agents = Agents(agent_type=CLS[model])
    agents.array = array
    return MultiAgentSimulation(agents=agents, field=field)


def lines(segs):
    from shapely.geometry import LineString, MultiLineString
    if not segs:
        return None
    if len(segs) == 1:
        return LineString([tuple(p) for p in segs[0]])
    return MultiLineString([[tuple(p) for p in s] for s in segs])


class Mover(L.LogicNode):
    """Puts the agents where the case says."""
    moves = ()
    count = 0

    def update(self):
        a = self.simulation.agents.array
        if len(a):
            a['position'][:] = np.array(self.moves[self.count])
        self.count += 1


class Probe(L.LogicNode):
    log = None

    def update(self):
        self.log.append((self.simulation.agents.array.copy(),
                         dict(self.simulation.data)))


def motion(case):
    case = K.tiled(case)
    np.random.seed(case['seed'])
    m = case['model']
    fluct = case['std'] > 0 and 'fluctuate' in case['parts']
    a = K.make(m, [dict(r, std_rand_force=case['std'],
                        std_rand_torque=case['std']) for r in
                   case['agents']])
    obs = lines(case['walls'])
    sim = simulate(m, a, Field(obstacles=obs))
    kw = {} if case['default_dt'] else {'dt_min': case['dt'][0],
                                        'dt_max': case['dt'][1]}
    lo, hi = (0.01, 0.01) if case['default_dt'] else case['dt']
    ckw = {} if case['cell'] is None else {'cell_size': case['cell']}
    make = {'adjust': lambda: L.Adjusting(sim),
            'orient': lambda: L.Orientation(sim),
            'agents': lambda: L.AgentAgentInteractions(sim, **ckw),
            'obstacles': lambda: L.AgentObstacleInteractions(sim),
            'fluctuate': lambda: L.Fluctuation(sim)}
    parts = list(case['parts'])
    integ = L.Integrator(sim, **kw)
    top = L.Reset(sim)
    top << integ
    under = 'orient' in parts and 'adjust' in parts
    nodes = {p: make[p]() for p in parts}
    at = integ
    for p in parts:
        if p == 'orient' and under:
            nodes['adjust'] << nodes[p]
            continue
        at << nodes[p]
        if case['nest']:
            at = nodes[p]
    sim.logic = top
    w = geom_to_linear_obstacles(obs)
    time = 0.0
    for n in ('time_tot', 'iterations'):
        check(sim.data.get(n, 0) == 0, '%s is %r before the first step', n,
              sim.data.get(n))
    for k in range(case['steps']):
        if case.get('rebuilt') and k == case['rebuilt'][0]:
            obs = lines(case['rebuilt'][1])
            w = geom_to_linear_obstacles(obs)
            sim.field.obstacles = obs
        a = sim.agents.array
        b = a.copy()
        if 'orient' in parts and m == 'three_circle':
            orient_towards_target_direction(b)
        if 'adjust' in parts:
            force_adjust_agents(b)
            if m == 'three_circle':
                torque_adjust_agents(b)
        if 'agents' in parts:
            agent_agent_block_list(b, case['cell'] or 3.6)
        if 'obstacles' in parts:
            agent_obstacle(b, w)
        before = a.copy()
        dt = velocity_verlet_integrator(b, lo, hi)
        sim.update()
        a = sim.agents.array
        check(a.shape == b.shape, 'agents were added or removed')
        got = float(sim.data['dt'])
        if len(a):
            require_same(got, float(dt), 'time step', 1e-9)
        check(lo - 1e-12 <= got <= hi + 1e-12, 'time step %r out of bounds',
              got)
        time += got
        require_same(float(sim.data['time_tot']), time, 'total time', 1e-9)
        check(sim.data['iterations'] == k + 1, '%r iterations after %d steps',
              sim.data['iterations'], k + 1)
        b['force'] = 0
        if m == 'three_circle':
            b['torque'] = 0
        for i in range(len(a)):
            scale = 1 + K.norm(vec(b['velocity'][i]))
            f = 1 + K.norm(vec(b['force_prev'][i]))
            for n in a.dtype.names:
                x, y = vec(a[n][i]), vec(b[n][i])
                if n in ('position', 'velocity', 'position_ls',
                         'position_rs', 'force_prev', 'orientation',
                         'angular_velocity', 'torque_prev'):
                    tol = 1e-9 * (scale + f)
                    if fluct:
                        if n == 'force_prev':
                            d = K.norm(K.sub(x, y))
                            most = 3 * case['std'] * a['mass'][i]
                            check(0 < d <= most * (1 + 1e-6), 'fluctuation '
                                  'force %r of agent %d, at most %r', d, i,
                                  most)
                        if n == 'torque_prev':
                            d = abs(x[0] - y[0])
                            most = 3 * case['std'] * a['inertia_rot'][i]
                            check(0 < d <= most * (1 + 1e-6), 'fluctuation '
                                  'torque %r of agent %d, at most %r', d, i,
                                  most)
                        continue
                    if n == 'orientation':
                        x, y = [K.wrap(x[0] - y[0])], [0.0]
                    if n == 'torque_prev' or n == 'angular_velocity' or \
                            n == 'orientation':
                        tol = 1e-8 * (1 + abs(float(b['torque_prev'][i])) + f)
                    require_same(x, y, '%s of agent %d after step %d' % (
                        n, i, k + 1), 1e-7, tol)
                else:
                    require_same(x, y, '%s of agent %d after step %d' % (
                        n, i, k + 1), 1e-9, 0)
        if fluct and len(a) > 1:
            d = a['force_prev'] - b['force_prev']
            check(not np.allclose(d[0], d[1]), 'agents share one random '
                  'force')
        K.unchanged(before, a, 'position', 'velocity', 'force', 'force_prev',
                    'orientation', 'angular_velocity', 'torque',
                    'torque_prev', 'position_ls', 'position_rs',
                    'target_orientation')
    return len(parts) > 1 and len(a) > 0, parts + [m]


def side(p, ring):
    """Whether p is inside the ring; None when too close to its border."""
    inside = False
    for a, b in zip(ring, ring[1:] + ring[:1]):
        if a == b:
            continue
        if K.norm(K.sub(p, K.closest_on_segment(p, a, b))) < 1e-6:
            return None
        if (a[1] > p[1]) != (b[1] > p[1]) and p[0] < a[0] + (
                p[1] - a[1]) * (b[0] - a[0]) / (b[1] - a[1]):
            inside = not inside
    return inside


def states(case):
    from shapely.geometry import Polygon, LineString
    n = len(case['active'])
    dom = Polygon(case['domain'])
    ts = [Polygon(c) if k == 'polygon' else LineString(
        [tuple(p) for p in c]) for k, c in case['targets']]
    a = K.make(case['model'], [{'position': case['moves'][0][k], 'active': v}
                               for k, v in enumerate(case['active'])])
    sim = simulate(case['model'], a, Field(domain=dom, targets=ts))
    inside, reached = L.InsideDomain(sim), L.TargetReached(sim)
    mover = Mover(sim)
    mover.moves = case['moves']
    order = case['order']
    if order == 0:
        inside << (reached << mover)
    elif order == 1:
        reached << (inside << mover)
    else:
        L.Reset(sim) << (mover, inside, reached)
    sim.logic = inside.root if order < 2 else mover.root
    polys = [i for i, (k, _) in enumerate(case['targets']) if k == 'polygon']
    ever = {i: [False] * n for i in polys}
    active = list(case['active'])
    left = 0
    once = True
    entered = 0
    readings = {'away', 'left', 'changed'}
    for i in range(len(ts)):
        check(('target_%d' % i in sim.data) == (i in polys), 'counter of '
              'target %d: %r', i, list(sim.data))
    check(sim.data['inactive'] == 0, 'inactive agents before the start')
    for places in case['moves']:
        where = [side(p, case['domain']) for p in places]
        at = {i: [side(p, case['targets'][i][1]) for p in places]
              for i in polys}
        if None in where or any(None in v for v in at.values()):
            return False, ['border']
        before = sim.agents.array.copy()
        sim.update()
        K.unchanged(before, sim.agents.array, 'position', 'active', 'force',
                    'torque')
        for k in range(n):
            check(bool(sim.agents.array['active'][k]) == where[k],
                  'the agent at %r is %s', places[k],
                  'active' if not where[k] else 'inactive')
            if active[k] and not where[k]:
                left += 1
            elif where[k] and not active[k]:
                once = False
                entered += 1
        active = where
        if once:
            check(sim.data['inactive'] == left, '%r agents counted as '
                  'inactive, %d left', sim.data['inactive'], left)
        # with agents coming back: all that are away, all that ever left, or
        # all changes, but the same count throughout
        now = int(sim.data['inactive'])
        readings -= {k for k, v in (('away', left - entered), ('left', left),
                                    ('changed', left + entered)) if v != now}
        check(readings, '%r agents counted as inactive, %d left and %d came '
              'back', now, left, entered)
        for i in polys:
            ever[i] = [x or y for x, y in zip(ever[i], at[i])]
            check(int(sim.data['target_%d' % i]) == sum(ever[i]), '%r agents '
                  'reached target %d, not %d', sim.data['target_%d' % i], i,
                  sum(ever[i]))
    some = any(any(v) for v in ever.values())
    return bool(left or some), ['once' if once else 'again',
                                'reached' if some else 'missed']


def navigation(case):
    s = case['scene']
    dom, _, og, _, _ = S.build(s)
    ts = [S.build(dict(s, target=t))[1] for t in s['targets']]
    step = case['step']
    (x0, y0), (w, h) = s['min'], s['size']
    rows = case['rows']
    a = K.make(case['model'], [dict(r, position=[0.0, 0.0]) for r in rows])
    sim = simulate(case['model'], a, Field(domain=dom, obstacles=og,
                                           targets=ts))
    mover = Mover(sim)
    mover.moves = [[[x0 + u * w, y0 + v * h] for u, v in m]
                   for m in case['moves']]
    sim.logic = L.Navigation(sim, step=step, radius=case['radius'],
                             strength=case['strength']) << mover
    maps = []
    for t in ts:
        try:
            maps.append(NA.static_potential(dom, t, og, step, case['radius'],
                                            case['strength']))
        except ValueError:
            return False, ['hidden']      # no way to a target
    led = kept = False
    for places in mover.moves:
        before = sim.agents.array.copy()
        sim.update()
        arr = sim.agents.array
        K.unchanged(before, arr, 'position', 'target_direction')
        for k, p in enumerate(places):
            t = rows[k]['target']
            old = vec(before['target_direction'][k])
            got = vec(arr['target_direction'][k])
            want = old
            if 0 <= t < len(ts):
                mesh, _, (u, v) = maps[t]
                fi, fj = (p[1] - y0) / step, (p[0] - x0) / step
                if any(abs(z - round(z)) < 1e-6 for z in (fi, fj)):
                    continue
                i, j = math.floor(fi), math.floor(fj)
                if i < -1 or j < -1:
                    pass
                elif i < 0 or j < 0:
                    continue          # within one step of the grid
                elif i < u.shape[0] and j < u.shape[1]:
                    want = [float(np.ma.getdata(x)[i, j]) for x in (u, v)]
            led = led or want is not old
            kept = kept or want is old
            require_same(got, want, 'target direction of agent %d at %r with '
                         'target %d' % (k, p, t), 1e-9, 1e-9)
    return led and kept, ['n%d' % len(rows)]


def following(case):
    case = K.tiled(case)
    node = case['node']
    rows = S.prepare(case)
    n = len(rows)
    a, pos, vel, walls = S.data(dict(case, agents=rows))
    from shapely.geometry import LineString, Polygon
    doors = [[list(p), K.add(p, d)] for p, d in case['doors']]
    ts = [LineString([tuple(p), tuple(q)]) for p, q in doors]
    f = Field(targets=ts, obstacles=lines(case['walls']))
    sim = simulate(case['model'], a, f)
    kw = {}
    if node == 'exit':
        r = 20.0 if case['defaults'] else case['range']
        if not case['defaults']:
            kw = {'detection_range': r}
        sim.logic = L.ExitDetection(sim, **kw)
    elif node == 'leader':
        r = 20.0 if case['defaults'] else case['sight']
        if not case['defaults']:
            kw = {'sight': r}
        sim.logic = L.LeaderFollower(sim, **kw)
    else:
        r, size = (10.0, 5) if case['defaults'] else (case['sight'],
                                                      case['size'])
        if not case['defaults']:
            kw = {'sight_follower': r, 'size_nearest_other': size}
        if not n:
            return False, ['empty']
        sim.logic = L.LeaderFollowerWithHerding(sim, **kw)
    before = a.copy()
    if node == 'exit':
        want = []
        for i, row in enumerate(rows):
            t, fol = row['target'], row['is_follower']
            if fol:
                best, unsure = None, False
                for j, (p, q) in enumerate(doors):
                    c = K.mul(0.5, K.add(p, q))
                    d = K.norm(K.sub(c, pos[i]))
                    s = sees(pos[i], c, walls)
                    if s is None or abs(d - r) < 1e-9:
                        unsure = True
                    elif s and d < r:
                        if best and abs(best[0] - d) < 1e-9:
                            unsure = True
                        best = min(best or (d, j), (d, j))
                if unsure:
                    t = fol = None
                elif best:
                    t, fol = best[1], False
            want.append((t, fol))
        sim.update()
        arr = sim.agents.array
        K.unchanged(before, arr, 'target', 'is_follower')
        for i, (t, fol) in enumerate(want):
            if fol is None:
                continue
            check(int(arr['target'][i]) == t, 'target of agent %d at %r is '
                  '%d, expected %d', i, pos[i], arr['target'][i], t)
            check(bool(arr['is_follower'][i]) == fol, 'agent %d at %r %s a '
                  'follower', i, pos[i], 'is not' if fol else 'is still')
        return any(fol is False and rows[i]['is_follower'] for i, (t, fol)
                   in enumerate(want)), [node]
    sim.update()
    arr = sim.agents.array
    # the functions these nodes rely on have their own checks (C22)
    b = before.copy()
    w = K.walls(case['walls'])
    from crowddynamics.core.steering import collective_motion as CM
    if node == 'leader':
        d = CM.leader_follower_interaction(b, w, r)
    else:
        d = CM.leader_follower_with_herding_interaction(b, w, r, size)
    K.unchanged(before, arr, 'target', 'index_leader', 'target_direction')
    for i, row in enumerate(rows):
        want = vec(d[i]) if row['is_follower'] else vec(
            before['target_direction'][i])
        require_same(vec(arr['target_direction'][i]), want,
                     'target direction of agent %d' % i, 1e-9, 1e-12)
        for k in ('target', 'index_leader'):
            check(arr[k][i] == b[k][i], '%s of agent %d is %d, expected %d',
                  k, i, arr[k][i], b[k][i])
    return any(r['is_follower'] and np.any(d[i]) for i, r in
               enumerate(rows)), [node]


def saving(case):
    from shapely.geometry import Polygon, LineString
    d = tempfile.mkdtemp()
    try:
        f = Field(domain=Polygon([(0, 0), (5, 0), (5, 5)]),
                  targets=[LineString([(0, 0), (1, 1)])],
                  spawns=[Polygon([(0, 0), (1, 0), (1, 1 + k)])
                          for k in range(case['spawns'])])
        if case['obstacles']:
            f.obstacles = LineString([(0, 0), (1, 0.5), (2, 0)])
        n = case['n']
        a = K.make(case['model'], [{'position': [0.0, 0.0]}] * n)
        sim = simulate(case['model'], a, f)
        mover = Mover(sim)
        mover.moves = case['moves']
        top = L.Reset(sim) << mover
        if case['data']:
            top << L.TargetReached(sim)
            sim.data['note'] = 1.5
        sim.logic = top
        asked = []

        def condition(s):
            check(s is sim, 'the condition is asked about %r', s)
            asked.append(1)
            return TRUTH[case.get('truth')](case['dump'][len(asked) - 1])
        kw = {'save_directory': 'run'} if case['named'] else {}
        if case['named'] and case['there']:
            os.mkdir(os.path.join(d, 'run'))
        node = L.SaveSimulationData(sim, save_condition=condition,
                                    base_directory=d, **kw)
        if case['inject']:
            node.add_to_simulation_logic()
            check(mover.root is node and top.parent is node, 'the node was '
                  'not put before Reset')
        else:
            node << top
            sim.logic = node
        probe = Probe(sim)
        probe.log = []
        probe << node
        sub = os.listdir(d)
        check(len(sub) == 1, 'directories %r', sub)
        if case['named']:
            check(sub == ['run'], 'directory %r', sub)
        else:
            check(sub[0] == sim.name_with_timestamp and
                  sub[0].startswith(sim.name + '_'), 'directory %r', sub)
        path = os.path.join(d, sub[0])
        g = load_geometry_json(os.path.join(path, 'geometry.json'))
        for k in ('domain', 'obstacles', 'targets', 'spawns'):
            check(flat(g[k]) == flat(getattr(f, k)), 'recorded %s %r', k,
                  flat(g[k]))
        with open(os.path.join(path, 'metadata.csv'), newline='') as fp:
            meta = list(csv.reader(fp))
        check(meta == [list(sim.metadata), [str(v) for v in
                                            sim.metadata.values()]],
              'metadata %r', meta)
        chunks, buf, rows, done = [], [], [], 0
        for k in range(len(case['moves'])):
            sim.update()
            arr, data = probe.log[-1]
            buf.append(arr)
            rows.append([str(v) for v in data.values()])
            if case['dump'][k]:
                chunks.append(buf)
                buf = []
                done = len(rows)
        check(len(asked) == len(case['moves']), 'the condition was asked %d '
              'times in %d steps', len(asked), len(case['moves']))
        got = list(load_npy(path, 'agents'))
        check(len(got) == len(chunks), '%d chunks are saved, %d dumps',
              len(got), len(chunks))
        for c, want in zip(got, chunks):
            want = np.vstack(want)
            check(c.dtype == want.dtype and c.shape == want.shape and
                  c.tobytes() == want.tobytes(), 'saved agents differ')
        if chunks:
            every = load_npy_concatenated(path, 'agents')
            check(len(every) == sum(map(len, chunks)), '%d states are saved',
                  len(every))
        p = os.path.join(path, 'data.csv')
        have = []
        if os.path.exists(p):
            with open(p, newline='') as fp:
                have = list(csv.reader(fp))
        want = [list(data)] + rows[:done] if done else []
        check(have == want, 'saved data %r, expected %r', have, want)
        return n > 0 and len(chunks) > 1, ['dumps%d' % min(len(chunks), 4)]
    finally:
        shutil.rmtree(d, ignore_errors=True)
