import math

from hypothesis import strategies as st
from driver import Test
from gens.common import real, vec, angle, pos, seed

PARTS = ['adjust', 'orient', 'agents', 'obstacles', 'exit', 'leader',
         'herding']
turns = st.one_of(st.integers(0, 7), angle)


@st.composite
def person(draw, m, n, nd, box, k):
    side = int(math.ceil(math.sqrt(max(n, 1))))
    cell = 2.0 * box / side
    u, v = draw(pos(0.05, 0.95)), draw(pos(0.05, 0.95))
    a = draw(angle)
    role = draw(st.integers(0, 3))
    d = {'position': [-box + (k % side + u) * cell,
                      -box + (k // side + v) * cell],
         'velocity': draw(st.one_of(
             st.tuples(pos(-2, 2), pos(-2, 2)).map(list),
             st.just([0.0, 0.0]))),
         'target_direction': [math.cos(a), math.sin(a)],
         'radius': draw(pos(0.2, 0.3)), 'mass': draw(pos(40, 100)),
         'target_velocity': draw(pos(0.5, 2)),
         'force_prev': draw(st.sampled_from([[0.0, 0.0], [12.5, -7.0]])),
         'mu': draw(st.sampled_from([1.2e5, 5e4])),
         'kappa': draw(st.sampled_from([4e4, 1e4])),
         'damping': draw(st.sampled_from([500.0, 100.0])),
         'k_soc': draw(pos(0.5, 3)), 'tau_0': draw(pos(0.5, 5)),
         'tau_adj': draw(pos(0.2, 1)),
         'target': draw(st.integers(-1, nd - 1)),
         'familiar_exit': draw(st.integers(-1, nd - 1)),
         'is_leader': role == 1, 'is_follower': role > 1,
         'index_leader': draw(st.integers(-1, n - 1)),
         'active': draw(st.integers(0, 4)) != 4}
    if m == 'three_circle':
        d['orientation'] = draw(angle)
        d['angular_velocity'] = draw(real(-3, 3))
        d['target_orientation'] = draw(angle)
        d['torque_prev'] = draw(st.sampled_from([0.0, -2.0]))
    return d


far = st.tuples(st.sampled_from([-300.0, -120.0, 120.0, 300.0]),
                pos(-100, 100)).map(list)
move = st.one_of(st.tuples(pos(-20, 20), pos(-20, 20)).map(list),
                 st.tuples(real(-1000, 1000), real(-1000, 1000)).map(list),
                 st.just([0.0, 0.0]))


@st.composite
def layouts(draw):
    m = draw(st.sampled_from(['circular', 'three_circle']))
    n = draw(st.integers(1, 7))
    nd = draw(st.integers(0, 3))
    box = draw(st.sampled_from([0.5, 1.0, 2.5, 5.0]))
    dt = draw(pos(0.001, 0.05))
    lo = draw(st.sampled_from([dt, dt * 0.1, dt * 0.5]))
    parts = draw(st.lists(st.sampled_from(PARTS), unique=True, min_size=1,
                          max_size=7))
    if not nd:
        parts = [p for p in parts if p != 'exit']
    if 'leader' in parts and 'herding' in parts:
        parts.remove(draw(st.sampled_from(['leader', 'herding'])))
    if 'leader' in parts or 'herding' in parts:
        # who follows nobody has no direction to turn to
        parts = [p for p in parts if p != 'orient']
    p2 = st.tuples(pos(-3, 3), pos(-3, 3)).map(list)
    walls = draw(st.lists(st.tuples(p2, p2).map(list).filter(
        lambda s: math.hypot(s[0][0] - s[1][0], s[0][1] - s[1][1]) > 1e-3),
        max_size=4))
    lays = [[draw(st.booleans()), draw(turns), draw(move), [0.0, 0.0]]]
    free = not walls and not set(parts) - {'agents'} and draw(st.booleans())
    if free:
        # everybody drifts: only relative motion counts
        lo = dt
        lays[0][3] = [draw(pos(-3, 3)), draw(pos(-3, 3))]
    domain = None
    if not free and draw(st.integers(0, 3)) == 3:
        w, h = draw(pos(0.3, 4)), draw(pos(0.3, 4))
        domain = [[-w, -h], [w, -h], [w + 0.3, h], [-w, h]]
    elif draw(st.integers(0, 2)) == 2:
        # the same scene again, far away
        x, y = draw(far)
        lays.append([draw(st.booleans()), draw(turns),
                     [lays[0][2][0] + x, lays[0][2][1] + y], lays[0][3]])
    areas = []
    for _ in range(0 if free else draw(st.sampled_from([0, 0, 1, 2]))):
        x, y = draw(pos(-2, 2)), draw(pos(-2, 2))
        areas.append([[x, y], [x + draw(pos(0.3, 3)), y],
                      [x, y + draw(pos(0.3, 3))]])
    if 'exit' in parts or 'leader' in parts or 'herding' in parts:
        areas = []          # doors only
    agents = [draw(person(m, n, nd, box, k)) for k in range(n)]
    for a in agents:
        # only leaders are followed
        if not agents[a['index_leader']]['is_leader']:
            a['index_leader'] = -1
    return {'model': m, 'agents': agents,
        'walls': walls, 'areas': areas, 'domain': domain,
        'doors': [[draw(p2), draw(p2)] for _ in range(nd)],
        'parts': parts, 'dt': [lo, dt], 'steps': draw(st.integers(1, 5)),
        'layouts': lays, 'perm': draw(st.one_of(st.none(), seed))}


PROPS = {
    'C32': [
        Test('layout', layouts(), quick=1500, thorough=40000, timeout=120,
             rule='scenes of up to seven agents with walls, doors and areas, '
                  'run for up to five steps as they are and moved, turned, '
                  'mirrored, listed in another order or doubled; non-trivial '
                  'with motion nodes and several moving agents')],
}
