from hypothesis import strategies as st
from driver import Test
from gens.common import pos, seed, angle

side = st.one_of(st.integers(4, 30).map(float), pos(3, 30))
ratio = pos(0.05, 0.95)
half = pos(0.05, 0.5)


@st.composite
def fields(draw):
    """Parameters of a shipped field and later changes of them."""
    kind = draw(st.sampled_from([
        'OutdoorField', 'HallwayField', 'HallwayField', 'Rounding',
        'AvoidObstacle', 'ClosedRoom', 'RoomWithOneExit', 'FourExitsField',
        'PillarInTheMiddle']))
    own = {'HallwayField': ['ratio'], 'Rounding': ['ratio'],
           'AvoidObstacle': ['exit_width', 'ratio_obs'],
           'RoomWithOneExit': ['exit_width', 'exit_hall_width'],
           'FourExitsField': ['exit_width'],
           'PillarInTheMiddle': ['radius_pillar']}.get(kind, [])
    names = own + ([] if kind == 'FourExitsField' else ['width', 'height'])

    def value(n, room):
        if n in ('width', 'height'):
            return draw(side)
        if n == 'ratio':
            return draw(half if kind == 'HallwayField' else ratio)
        if n == 'ratio_obs':
            return draw(ratio)
        if n == 'exit_hall_width':
            return draw(pos(0.2, 5))
        if n == 'radius_pillar':
            return draw(pos(0.05, 0.45)) * min(room)
        lo, hi = (1.0, 99.0) if kind == 'AvoidObstacle' else (0.2, 9.9)
        top = 9.9 if kind == 'FourExitsField' else 0.9 * room[1]
        return draw(pos(lo, min(hi, top)))
    given = {n: value(n, None) for n in names if n in ('width', 'height')
             and draw(st.integers(0, 4))}
    room = [given.get('width', {'PillarInTheMiddle': 20.0}.get(kind, 10.0)),
            given.get('height', {'PillarInTheMiddle': 20.0}.get(kind, 10.0))]
    for n in own:
        must = n == 'radius_pillar' or n == 'exit_width' and \
            kind != 'FourExitsField'
        if must or draw(st.integers(0, 4)):
            given[n] = value(n, room)
    order = draw(st.permutations(sorted(given)))
    edits = []
    if kind in ('OutdoorField', 'HallwayField'):
        edits = [[n, value(n, room)] for n in draw(st.lists(
            st.sampled_from(names), max_size=5))]
    return {'kind': kind, 'given': [[n, given[n]] for n in order],
            'look': draw(st.booleans()), 'edits': edits,
            'seed': draw(seed)}


SIMS = [('simulations', 'Outdoor'), ('simulations', 'Hallway'),
        ('simulations', 'RoomWithOneExit'),
        ('simulations', 'FourExitsRandomPlacing'),
        ('collective_motion', 'Outdoor'), ('collective_motion', 'Rounding'),
        ('collective_motion', 'AvoidObstacle'),
        ('collective_motion', 'ClosedRoom'),
        ('collective_motion', 'FourExitsRandomPlacing'),
        ('collective_motion', 'FourExitsFixedPlacing')]


@st.composite
def crowds(draw):
    mod, name = draw(st.sampled_from(SIMS))
    four = name.startswith('Four')
    kw = {}
    # None is the default step of 0.1; the gap of an exit is 1 m less than its
    # width and has to span three steps
    step = draw(st.one_of(st.none(), pos(0.2, 0.3), pos(0.2, 0.3)))
    if four:
        kw['exit_width'] = draw(pos(0.5, 9))
    else:
        kw['width'], kw['height'] = draw(pos(8, 16)), draw(pos(8, 16))
        if name in ('RoomWithOneExit', 'AvoidObstacle'):
            kw['exit_width'] = draw(pos(2.0 if step else 1.3, 5))
        if name == 'RoomWithOneExit':
            kw['exit_hall_width'] = draw(pos(0.5, 3))
        if name == 'AvoidObstacle':
            kw['ratio_obs'] = draw(pos(0.35, 0.75))
        if name == 'Hallway':
            kw['ratio'] = draw(pos(0.25, 0.5))
    if mod == 'simulations':
        kw['size'] = draw(st.integers(2 if name == 'Hallway' else 1, 10))
    else:
        kw['size_herding'] = draw(st.integers(0, 8))
        one = name == 'Outdoor'
        kw['size_leaders'] = 4 if name == 'FourExitsFixedPlacing' else draw(
            st.integers(0, 1 if one else 3))
        if one:
            kw['vertical_ratio'] = draw(pos(0.1, 0.9))
            kw['horizontal_ratio'] = draw(pos(0.1, 0.9))
    return {'module': mod, 'name': name, 'kw': kw,
            'model': draw(st.sampled_from(['circular', 'three_circle'])),
            'steps': 0 if four else draw(st.sampled_from([0, 5, 40, 120])),
            'step': step, 'seed': draw(seed)}


@st.composite
def placed(draw):
    """Larger crowds in rooms that have space for them, not stepped."""
    mod, name = draw(st.sampled_from(SIMS))
    kw = {}
    if name.startswith('Four'):
        kw['exit_width'] = draw(pos(0.5, 9))
    else:
        kw['width'], kw['height'] = draw(pos(18, 25)), draw(pos(18, 25))
        if name in ('RoomWithOneExit', 'AvoidObstacle'):
            kw['exit_width'] = draw(pos(2.0, 5))
        if name == 'RoomWithOneExit':
            kw['exit_hall_width'] = draw(pos(0.5, 3))
        if name == 'AvoidObstacle':
            kw['ratio_obs'] = draw(pos(0.35, 0.75))
        if name == 'Hallway':
            kw['ratio'] = draw(pos(0.25, 0.5))
    if mod == 'simulations':
        kw['size'] = draw(st.integers(10, 60))
    else:
        kw['size_herding'] = draw(st.integers(5, 40))
        one = name == 'Outdoor'
        kw['size_leaders'] = 4 if name == 'FourExitsFixedPlacing' else draw(
            st.integers(0, 1 if one else 12))
        if one:
            kw['vertical_ratio'] = draw(pos(0.3, 0.7))
            kw['horizontal_ratio'] = draw(pos(0.3, 0.7))
    return {'module': mod, 'name': name, 'kw': kw,
            'model': draw(st.sampled_from(['circular', 'three_circle'])),
            'steps': 0, 'step': draw(pos(0.2, 0.3)), 'seed': draw(seed)}


@st.composite
def walkout(draw):
    name = draw(st.sampled_from(['Hallway', 'RoomWithOneExit', 'Rounding',
                                 'AvoidObstacle']))
    kw = {'width': draw(pos(6, 12)), 'height': draw(pos(6, 12))}
    if name in ('RoomWithOneExit', 'AvoidObstacle'):
        kw['exit_width'] = draw(pos(1.6, 4))
    if name == 'RoomWithOneExit':
        kw['exit_hall_width'] = draw(pos(0.5, 3))
    if name == 'AvoidObstacle':
        kw['ratio_obs'] = draw(pos(0.35, 0.7))
    if name == 'Hallway':
        kw['ratio'] = draw(pos(0.25, 0.5))
        kw['size'] = 2
    elif name == 'RoomWithOneExit':
        kw['size'] = draw(st.integers(1, 2))
    else:
        kw['size_leaders'] = draw(st.integers(1, 2))
        kw['size_herding'] = 0
    return {'module': 'collective_motion' if 'size_leaders' in kw else
            'simulations', 'name': name, 'kw': kw,
            'model': draw(st.sampled_from(['circular', 'three_circle'])),
            'step': draw(pos(0.1, 0.2)), 'seed': draw(seed)}


free = st.fixed_dictionaries({
    'model': st.sampled_from(['circular', 'three_circle']),
    'direction': angle, 'target_velocity': pos(0.1, 3),
    'start': st.tuples(angle, pos(0, 4)).map(list), 'tau': pos(0.1, 2),
    'orientation': angle, 'mass': pos(20, 150), 'nested': st.booleans(),
    'steps': st.integers(1, 400)})

PROPS = {
    'C29': [
        Test('fields', fields(), quick=900, thorough=20000,
             rule='parameters of a shipped field and later changes; '
                  'non-trivial with obstacles and a parameter given'),
        Test('crowds', crowds(), quick=60, thorough=1500, timeout=150,
             rule='shipped simulations run for some steps; non-trivial with '
                  'several agents'),
        Test('placed', placed(), quick=150, thorough=3000, timeout=150,
             rule='shipped simulations with up to sixty agents placed, not '
                  'run; non-trivial with two agents'),
        Test('walkout', walkout(), quick=16, thorough=600, timeout=150,
             rule='one or two people with a target in a shipped simulation '
                  'until they left; non-trivial always'),
        Test('free', free, quick=120, thorough=4000,
             rule='a lone person of the validation simulation; non-trivial '
                  'with a start velocity unlike the target velocity')],
}
