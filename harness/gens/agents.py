import math

from hypothesis import strategies as st
from driver import Test
from gens.common import real, vec, angle, pos, seed

models = st.sampled_from(['circular', 'three_circle'])
TYPES = ['adult', 'male', 'female', 'child', 'eldery']
unit = st.one_of(st.just([0.0, 0.0]), angle.map(
    lambda a: [math.cos(a), math.sin(a)]), st.sampled_from(
    [[1.0, 0.0], [0.0, -1.0], [-1.0, 0.0]]))

STATE = {'position': vec(-50, 50), 'orientation': angle}
DIRECT = dict(STATE, radius=pos(0.05, 1),
              mass=st.one_of(pos(10, 150), pos(0.01, 10)),
              target_velocity=pos(0.1, 3), inertia_rot=pos(0.5, 20))
CUSTOM = dict(DIRECT, ratio_rt=pos(0.1, 1), ratio_rs=pos(0.1, 1),
              ratio_ts=pos(0.1, 1), radius_mean=pos(0.3, 0.6),
              radius_scale=pos(0.01, 0.2), mass_mean=pos(50, 90),
              mass_scale=pos(1, 20), target_velocity_mean=pos(1, 2),
              target_velocity_scale=pos(0.05, 0.6))
PARTS = dict(DIRECT, r_t=pos(0.05, 0.5), r_s=pos(0.05, 0.4),
             r_ts=pos(0.05, 0.5))


@st.composite
def body(draw):
    model = draw(models)
    style = draw(st.sampled_from(['type', 'custom', 'parts']))
    table = {'type': dict(DIRECT, body_type=st.sampled_from(TYPES)),
             'custom': CUSTOM, 'parts': PARTS}[style]
    names = [n for n in table if model == 'three_circle' or
             n != 'orientation']
    chosen = draw(st.lists(st.sampled_from(names), unique=True, max_size=10))
    if style == 'type' and 'body_type' not in chosen:
        chosen.insert(draw(st.integers(0, len(chosen))), 'body_type')
    # body states may change again and again
    more = draw(st.lists(st.sampled_from(
        ['position', 'orientation', 'radius'] if model == 'three_circle' else
        ['position', 'radius']), max_size=3))
    k = draw(st.integers(0, len(chosen)))
    ops = [[n, draw(table[n])] for n in chosen + more]
    return {'model': model, 'style': style, 'init': dict(ops[:k]),
            'sets': ops[k:], 'seed': draw(seed),
            'again': draw(st.sampled_from(TYPES))}


@st.composite
def full(draw):
    model = draw(models)
    v = {'active': draw(st.booleans()), 'target_reached': draw(st.booleans()),
         'target': draw(st.integers(-1, 9)), 'is_leader': draw(st.booleans()),
         'is_follower': draw(st.booleans()),
         'index_leader': draw(st.integers(-1, 99)),
         'familiar_exit': draw(st.integers(-1, 9)),
         'radius': draw(pos(0, 1)), 'r_t': draw(pos(0, 1)),
         'r_s': draw(pos(0, 1)), 'r_ts': draw(pos(0, 1)),
         'mass': draw(pos(0, 150)), 'inertia_rot': draw(pos(0.01, 20)),
         'target_velocity': draw(pos(0, 3)),
         'target_angular_velocity': draw(pos(0, 20)),
         'target_direction': draw(unit)}
    for n in ('position', 'velocity', 'force', 'force_prev'):
        v[n] = draw(vec(-30, 30))
    for n in ('tau_adj', 'k_soc', 'tau_0', 'mu', 'kappa', 'damping',
              'std_rand_force'):
        v[n] = draw(pos(0, 1000))
    if model == 'three_circle':
        v['orientation'] = draw(angle)
        for n in ('angular_velocity', 'target_orientation', 'torque',
                  'torque_prev'):
            v[n] = draw(real(-9, 9))
        for n in ('tau_rot', 'std_rand_torque'):
            v[n] = draw(pos(0, 9))
    leave = draw(st.lists(st.sampled_from(sorted(v)), max_size=6))
    for n in leave:
        v.pop(n, None)
    return {'model': model, 'values': v,
            'other': draw(st.sampled_from(TYPES + [None])),
            'bad': draw(st.sampled_from([0, 2, 3])), 'seed': draw(seed)}


NEG = ['radius', 'r_t', 'r_s', 'r_ts', 'mass', 'inertia_rot',
       'target_velocity', 'target_angular_velocity', 'tau_adj', 'k_soc',
       'tau_0', 'mu', 'kappa', 'damping', 'std_rand_force', 'ratio_rt',
       'ratio_rs', 'ratio_ts', 'radius_mean', 'radius_scale', 'mass_mean',
       'mass_scale', 'target_velocity_mean', 'target_velocity_scale']
VECS = ['position', 'velocity', 'target_direction', 'force', 'force_prev']
good_num = pos(0.01, 1)
refuse = st.one_of(
    st.tuples(st.sampled_from(NEG), good_num, pos(-100, -1e-6)),
    st.tuples(st.sampled_from(['tau_rot', 'std_rand_torque']), good_num,
              pos(-100, -1e-6)),
    st.tuples(st.sampled_from(['ratio_rt', 'ratio_rs', 'ratio_ts']),
              good_num, pos(1.0001, 50)),
    st.tuples(st.sampled_from(['target', 'familiar_exit']),
              st.integers(-1, 5), st.integers(-100, -2)),
    st.tuples(st.just('orientation'), angle, st.one_of(
        pos(3.1416, 100), pos(-100, -3.1416))),
    st.tuples(st.sampled_from(VECS), st.just([0.0, 1.0]), st.sampled_from(
        [[1.0], [0.0, 1.0, 0.0], [[0.0, 1.0]], 1.0, []])),
    st.tuples(st.just('target_direction'), unit, vec(-3, 3).filter(
        lambda v: math.hypot(*v) > 2e-3 and
        abs(math.hypot(*v) - 1) > 2e-3)),
    # close to a length that is allowed
    st.tuples(st.just('target_direction'), unit, st.tuples(
        angle, st.one_of(pos(1e-3, 1e-2), pos(0.99, 0.999),
                         pos(1.001, 1.01))).map(
        lambda t: [t[1] * math.cos(t[0]), t[1] * math.sin(t[0])]))).map(list)


@st.composite
def agent(draw, box, model):
    r = draw(st.one_of(pos(0.1, 0.4), st.sampled_from([0.25, 0.3])))
    return {'radius': r, 'r_t': 0.6 * r, 'r_s': 0.37 * r, 'r_ts': 0.63 * r,
            'position': draw(vec(-box, box)), 'orientation': draw(angle),
            'mass': draw(pos(40, 100)), 'target': draw(st.integers(-1, 3)),
            'active': draw(st.integers(0, 4)) < 4}


segs = st.lists(st.tuples(vec(-2, 2), vec(-2, 2)).map(list).filter(
    lambda s: s[0] != s[1]), max_size=3)


@st.composite
def many(draw):
    """Walls, at times after a row of posts."""
    walls = draw(segs)
    if draw(st.integers(0, 3)) == 3:
        n, t = draw(st.integers(4, 40)), draw(angle)
        r = draw(pos(0.3, 3))
        walls = [[[r * math.cos(t + k), r * math.sin(t + k)],
                  [(r + 0.1) * math.cos(t + k), (r + 0.1) * math.sin(t + k)]]
                 for k in range(n)] + walls
    return walls


@st.composite
def overlap(draw):
    m = draw(models)
    box = draw(st.sampled_from([0.5, 1.0, 2.0]))
    return {'model': m, 'one': draw(agent(box, m)),
            'others': draw(st.lists(agent(box, m), max_size=5)),
            'walls': draw(many())}


@st.composite
def place(draw):
    m = draw(models)
    box = draw(st.sampled_from([0.6, 1.0, 2.0, 5.0]))
    groups = []
    for _ in range(draw(st.integers(1, 3))):
        n = draw(st.integers(0, 6))
        groups.append({
            # some groups are larger, with equals among the members
            'agents': draw(st.lists(agent(box, m), min_size=n, max_size=n)) *
            draw(st.sampled_from([1, 1, 1, 2, 5])),
            'as': draw(st.sampled_from(['list', 'sized list', 'generator',
                                        'callable'])),
            'pos': draw(st.sampled_from(['callable', 'generator'])),
            'hint': draw(st.lists(vec(-box, box), max_size=6)),
            'walls': draw(st.booleans()),
            'crowd': draw(st.sampled_from([0.05, 0.3, 1.0, 1.0]))})
    return {'model': m, 'groups': groups, 'box': box, 'walls': draw(many()),
            'cell': draw(st.sampled_from([0.4, 0.6, 1.0, 0.45])),
            'grid': draw(st.booleans()), 'seed': draw(seed),
            'foreign': draw(st.booleans()), 'shared': draw(st.booleans())}


PROPS = {
    'C23': [
        Test('body', body(), quick=1200, thorough=30000,
             rule='attributes and body types set together and one by one in '
                  'any order; non-trivial when part radii are derived'),
        Test('row', full(), quick=1200, thorough=30000,
             rule='agents with random attributes; non-trivial with ten or '
                  'more given attributes'),
        Test('refuse', st.fixed_dictionaries({
            'bad': refuse, 'model': models, 'x': vec(-5, 5)}),
            quick=1500, thorough=20000,
            rule='bad attribute values (at creation and later); all '
                 'non-trivial')],
    'C24': [
        Test('overlap', overlap(), quick=2000, thorough=50000,
             rule='an agent among others and walls; non-trivial with both'),
        Test('place', place(), quick=1500, thorough=30000,
             rule='groups placed one after another; non-trivial when some '
                  'position collided and two or more agents were placed')],
}
