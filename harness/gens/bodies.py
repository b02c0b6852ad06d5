import math

from hypothesis import strategies as st
from driver import Test
from gens.common import real, vec, angle, pos, tiling

pt = vec(-20, 20)
radius = st.one_of(pos(0.01, 1.5), st.sampled_from([0.0, 0.25, 0.5, 1.0]))


@st.composite
def body(draw, near=None):
    """Three circles: an anatomical body or any three circles."""
    c = draw(pt)
    if near is not None and draw(st.integers(0, 2)):
        c = [near[0] + draw(real(-2, 2)), near[1] + draw(real(-2, 2))]
    if draw(st.integers(0, 3)):
        r = draw(pos(0.1, 0.6))
        phi = draw(angle)
        rts = 0.63 * r
        dx, dy = rts * math.sin(phi), -rts * math.cos(phi)
        return {'x': [c, [c[0] - dx, c[1] - dy], [c[0] + dx, c[1] + dy]],
                'r': [0.59 * r, 0.37 * r, 0.37 * r]}
    return {'x': [c] + [[c[0] + draw(real(-2, 2)), c[1] + draw(real(-2, 2))]
                        for _ in range(2)],
            'r': [draw(radius) for _ in range(3)]}


@st.composite
def pair(draw):
    a = draw(body())
    b = draw(body(near=a['x'][0]))
    if draw(st.integers(0, 4)) == 4:
        # a circle of one almost on top of a circle of the other
        i, j = draw(st.integers(0, 2)), draw(st.integers(0, 2))
        t, e = draw(angle), 10.0 ** -draw(st.integers(3, 9))
        d = [a['x'][i][0] + e * math.cos(t) - b['x'][j][0],
             a['x'][i][1] + e * math.sin(t) - b['x'][j][1]]
        b['x'] = [[p[0] + d[0], p[1] + d[1]] for p in b['x']]
    p0 = draw(st.one_of(pt, vec(-2, 2).map(
        lambda v: [a['x'][0][0] + v[0], a['x'][0][1] + v[1]])))
    l = draw(st.one_of(pos(0.01, 20), st.sampled_from([1.0, 2.0])))
    t = draw(angle)
    return {'a': a, 'b': b,
            'seg': [p0, [p0[0] + l * math.cos(t), p0[1] + l * math.sin(t)]],
            'move': draw(vec(-50, 50)), 'turn': draw(angle)}


coeff = st.one_of(pos(0.1, 100), st.sampled_from([0.0, 1.0, 1.2e5, 4e4, 500]))
unit = angle.map(lambda t: [math.cos(t), math.sin(t)])
contact = st.fixed_dictionaries({
    'h': st.one_of(pos(-0.6, 0), real(-1, 1)), 'n': unit, 'v': vec(-5, 5),
    'mu': coeff, 'kappa': coeff, 'damping': coeff})


def agent(model):
    d = {'position': vec(-20, 20), 'velocity': vec(-3, 3),
         'target_direction': st.one_of(unit, st.just([0.0, 0.0])),
         'force': vec(-100, 100), 'mass': pos(1, 120),
         'tau_adj': pos(0.05, 5), 'target_velocity': pos(0, 4),
         'radius': pos(0.1, 0.5), 'std_rand_force': pos(0.001, 2)}
    if model == 'three_circle':
        d.update({'orientation': angle, 'angular_velocity': real(-5, 5),
                  'target_orientation': angle, 'torque': real(-50, 50),
                  'inertia_rot': pos(0.1, 10), 'tau_rot': pos(0.05, 2),
                  'target_angular_velocity': pos(0, 15),
                  'r_ts': pos(0.05, 0.3), 'std_rand_torque': pos(0.001, 2)})
    return st.fixed_dictionaries(d)


crowd = st.sampled_from(['circular', 'three_circle']).flatmap(
    lambda m: st.fixed_dictionaries({
        'model': st.just(m),
        'agents': st.lists(agent(m), max_size=5),
        'tile': tiling([33, 70, 140, 300])}))
fluct = st.fixed_dictionaries({
    'mass': st.lists(st.tuples(pos(0.5, 100), pos(0.001, 3)).map(list),
                     max_size=8),
    'seed': st.integers(0, 2 ** 31 - 1), 'many': st.booleans()})

PROPS = {
    'C09': [Test('clearance', pair(), quick=3000, thorough=80000,
                 rule='two three-circle bodies and a wall, moved and turned; '
                      'non-trivial when some parts overlap or the bodies are '
                      'within reach')],
    'C10': [
        Test('contact', contact, quick=2000, thorough=40000,
             rule='overlap, normal, velocity and coefficients; non-trivial '
                  'when h and the velocity are not zero'),
        Test('adjust', crowd, quick=1500, thorough=40000,
             rule='crowds with random states; non-trivial when not empty'),
        Test('fluctuation', fluct, quick=400, thorough=6000,
             rule='masses and scales; non-trivial with two or more agents')],
}
