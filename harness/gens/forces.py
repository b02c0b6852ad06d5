import math

from hypothesis import strategies as st
from driver import Test
from gens.common import real, vec, angle, pos, tiling

model = st.sampled_from(['circular', 'three_circle'])


@st.composite
def row(draw, m, box, same=None):
    d = {'position': [draw(real(-box, box)), draw(real(-box, box))],
         'velocity': draw(st.one_of(vec(-3, 3), st.just([0.0, 0.0]),
                                    st.tuples(*[st.sampled_from(
                                        [0.0, 1.0, -1.0])] * 2).map(list),
                                    vec(-1, 1)))}
    if same is None or draw(st.integers(0, 2)) == 2:
        d.update({'radius': draw(pos(0.1, 0.5)), 'mass': draw(pos(1, 120)),
                  'k_soc': draw(pos(0.1, 5)), 'tau_0': draw(pos(0.5, 10)),
                  'mu': draw(pos(1, 2e5)), 'kappa': draw(pos(1, 1e5)),
                  'damping': draw(pos(0, 1000)), 'active': draw(st.booleans())})
    else:
        d.update(same)
    if m == 'three_circle':
        d['orientation'] = draw(angle)
        if 'radius' in d and draw(st.booleans()):
            d['r_t'] = d['radius'] * draw(pos(0.4, 0.7))
            d['r_s'] = d['radius'] * draw(pos(0.25, 0.5))
            d['r_ts'] = d['radius'] - d['r_s']
    d['force'] = draw(st.one_of(st.just([0.0, 0.0]), vec(-50, 50)))
    if m == 'three_circle':
        d['torque'] = draw(st.one_of(st.just(0.0), real(-20, 20)))
    return d


@st.composite
def pair(draw):
    m = draw(model)
    box = draw(st.sampled_from([0.3, 1.0, 3.0, 10.0, 40.0]))
    a, b = draw(row(m, box)), draw(row(m, box))
    slow = draw(st.integers(0, 4)) == 4
    if slow:                          # almost at rest, almost touching
        d = sum(r.get('radius', 0.25) for r in (a, b)) + draw(pos(0, 0.02))
        t = draw(angle)
        b['position'] = [a['position'][0] + d * math.cos(t),
                         a['position'][1] + d * math.sin(t)]
    if slow or draw(st.integers(0, 2)):       # head for each other
        u = [a['position'][k] - b['position'][k] for k in (0, 1)]
        l = math.hypot(*u) or 1.0
        s = draw(pos(0.05, 4))
        if slow:
            s = draw(pos(0.001, 0.05))
        t = draw(pos(-1, 1)) * 0.8 / max(l, 1)
        c, sn = math.cos(t), math.sin(t)
        w = [(c * u[0] - sn * u[1]) / l, (sn * u[0] + c * u[1]) / l]
        a['velocity'] = [b['velocity'][k] - s * w[k] for k in (0, 1)]
    return {'model': m, 'a': a, 'b': b, 'swap': draw(st.booleans()),
            'extra': draw(st.integers(0, 2)), 'move': draw(vec(-50, 50)),
            'equal': draw(st.integers(0, 3)) == 3}


@st.composite
def crowd(draw, most=8, boxes=(0.5, 1.5, 4.0, 9.0)):
    m = draw(model)
    box = draw(st.sampled_from(boxes))
    n = draw(st.integers(0, most))
    same = None
    if draw(st.booleans()):
        same = {'radius': draw(pos(0.15, 0.4)), 'mass': draw(pos(30, 120)),
                'k_soc': draw(pos(0.5, 3)), 'tau_0': draw(pos(1, 5))}
    rows = [draw(row(m, box, same)) for _ in range(n)]
    return m, rows


depth = st.one_of(st.integers(2, 7).map(lambda k: 10.0 ** -k), pos(0, 0.05),
                  st.integers(2, 7).map(lambda k: -10.0 ** -k))
turn = st.one_of(st.integers(-4, 4).map(lambda q: q * math.pi / 4), angle)


@st.composite
def interact(draw):
    m, rows = draw(crowd())
    if draw(st.booleans()):         # some at the end of the sight
        for k in range(1, len(rows)):
            if not draw(st.integers(0, 2)):
                continue
            a, b = rows[draw(st.integers(0, k - 1))], rows[k]
            d = draw(st.one_of(pos(2.3, 2.999), pos(0.5, 3.5))) + sum(
                r.get('radius', 0.25) for r in (a, b))
            t = draw(st.one_of(st.integers(0, 3).map(
                lambda q: q * math.pi / 2), angle))
            u = [math.cos(t), math.sin(t)]
            b['position'] = [a['position'][i] + d * u[i] for i in (0, 1)]
            s = draw(pos(0.3, 4))
            b['velocity'] = [a['velocity'][i] - s * u[i] for i in (0, 1)]
    n = len(rows)
    graze = []
    if n > 1 and not draw(st.integers(0, 2)):
        j = draw(st.integers(1, n - 1))
        graze.append([draw(st.integers(0, j - 1)), j, draw(turn),
                      draw(depth)])
    return {'model': m, 'agents': rows, 'graze': graze,
            'cell': draw(st.one_of(st.just(1.0), pos(1, 4))),
            'cell2': draw(pos(1, 12)),
            'tile': draw(tiling([24, 40, 70], (2.0, 9.0))), 'move': draw(vec(-100, 100)),
            'perm': draw(st.permutations(list(range(len(rows)))))}


@st.composite
def walls(draw):
    m, rows = draw(crowd(5, (0.5, 2.0, 6.0)))
    segs = []
    for _ in range(draw(st.integers(0, 5))):
        if rows and draw(st.integers(0, 3)):
            r = rows[draw(st.integers(0, len(rows) - 1))]
            p = [r['position'][k] + draw(pos(-0.5, 0.5)) for k in (0, 1)]
        else:
            p = draw(vec(-6, 6))
        if segs and draw(st.integers(0, 3)) == 3:
            p = segs[-1][1]
        l, t = draw(pos(0.02, 8)), draw(angle)
        segs.append([p, [p[0] + l * math.cos(t), p[1] + l * math.sin(t)]])
    touch = []
    for w in range(len(segs)):
        if rows and not draw(st.integers(0, 2)):
            touch.append([w, draw(st.integers(0, len(rows) - 1)), draw(turn),
                          draw(depth), draw(pos(0.05, 3)), draw(pos(0.05, 3))])
    return {'model': m, 'agents': rows, 'walls': segs, 'touch': touch,
            'perm': draw(st.permutations(list(range(len(segs))))),
            'perm_of': 'walls', 'tile': draw(tiling([40, 70, 140], walls=3)),
            'flip': draw(st.booleans()), 'move': draw(vec(-30, 30))}


PROPS = {
    'C11': [Test('social_pair', pair(), quick=4000, thorough=120000,
                 rule='two agents, most heading for each other; non-trivial '
                      'when they will collide')],
    'C12': [Test('agents', interact(), quick=1600, thorough=40000,
                 rule='crowds of up to eight, some of up to 70 agents with two '
                      'cell sizes, '
                      'moved and permuted; non-trivial when at least two '
                      'pairs exert a force')],
    'C13': [Test('obstacles', walls(), quick=2400, thorough=60000,
                 rule='crowds (some of up to 140 agents) and walls near them; '
                      'non-trivial when an agent '
                      'touches a wall')],
}
