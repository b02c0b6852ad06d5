from hypothesis import strategies as st
from driver import Test


@st.composite
def cases(draw):
    dim = draw(st.integers(1, 3))
    size = draw(st.sampled_from([0.5, 0.6, 1.0, 3.6, 0.1, 7, 0.25]) |
                st.floats(0.01, 50))
    # coordinates cluster around a few cells so that blocks are shared
    mult = st.integers(-4, 4).map(lambda k: k * size)
    coord = st.one_of(
        st.floats(-3 * size, 3 * size),
        mult,
        mult.map(lambda v: v + size / 2),
        st.integers(-5, 5),
        st.floats(-1e6 * size, 1e6 * size))
    key = st.lists(coord, min_size=dim, max_size=dim)
    if draw(st.booleans()):
        # histories that come back to the same few places
        key = st.sampled_from(draw(st.lists(key, min_size=1, max_size=3)))
    val = st.integers(-1000, 1000)
    op = st.one_of(
        st.tuples(st.just('set'), key, val),
        st.tuples(st.just('set'), key, val),
        st.tuples(st.just('get'), key),
        st.tuples(st.just('near'), key,
                  st.sampled_from({1: [None, 0, 1, 2, 3, 5, 12],
                                   2: [None, 0, 1, 2, 3, 5],
                                   3: [None, 0, 1, 2]}[dim])))
    if draw(st.booleans()):
        op = op | st.tuples(
            st.just('bad'),
            st.sampled_from([None, 5, 'ab', ['a', 'b', 'c']]), st.just(1))
    ops = draw(st.lists(op, min_size=1, max_size=40))
    keys = [o[1] for o in ops if o[0] == 'set']
    if keys:
        # revisit stored keys and their surroundings
        near = st.tuples(st.sampled_from(keys), st.lists(
            st.sampled_from([0.0, size / 2, -size, size, -0.999 * size]),
            min_size=dim, max_size=dim)).map(
                lambda t: [a + b for a, b in zip(*t)])
        ops += draw(st.lists(
            st.one_of(st.tuples(st.just('get'), st.sampled_from(keys)),
                      st.tuples(st.just('near'), near,
                                st.sampled_from([None, 1, 2]))),
            min_size=1, max_size=12))
    kind = draw(st.sampled_from(['list', 'list', 'sorted', 'array']))
    if kind == 'sorted':
        # SortedList.append only accepts values in order
        vals = iter(sorted(o[2] for o in ops if o[0] == 'set'))
        ops = [('set', o[1], next(vals)) if o[0] == 'set' else o
               for o in ops]
    return {'cell': size, 'kind': kind,
        'form': draw(st.sampled_from(['tuple', 'np', 'list'])),
        'ops': [list(o) for o in ops]}


PROPS = {'C01': [Test(
    'history', cases(), quick=6000, thorough=150000,
    rule='a history of insertions, block reads and neighbourhood queries; '
         'non-trivial when a query returns some but not all stored items (or '
         'a block read returns items)')]}
