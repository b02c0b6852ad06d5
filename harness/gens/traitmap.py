import keyword
import string

from hypothesis import strategies as st
from driver import Test

ident = st.one_of(
    st.sampled_from(['size', 'exitWidth', 'exit_width', 'N', 'a_b', 'dt']),
    st.builds(lambda a, b: a + b, st.sampled_from('abcXYZ'),
              st.text(string.ascii_letters + string.digits + '_',
                      max_size=6))).filter(
                          lambda s: s.lower() not in ('help', 'name') and
                          not keyword.iskeyword(s))
ints = st.integers(-10 ** 6, 10 ** 6)
floats = st.one_of(st.floats(-1e6, 1e6, allow_subnormal=False),
                   st.integers(-20, 20).map(lambda k: k / 4))
texts = st.text(string.ascii_letters + string.digits + ' _.', min_size=1,
                max_size=8)


@st.composite
def int_spec(draw):
    lo = draw(st.one_of(st.none(), st.integers(-50, 50)))
    hi = draw(st.one_of(st.none(), st.integers(-50, 50)))
    if lo is not None and hi is not None and lo > hi:
        lo, hi = hi, lo
    d = draw(st.integers(-60, 60))
    if lo is not None:
        d = max(d, lo)
    if hi is not None:
        d = min(d, hi)
    v = draw(st.one_of([st.integers(-60, 60)] + [
        st.sampled_from([b - 1, b, b + 1]) for b in (lo, hi)
        if b is not None]))
    return {'kind': 'int', 'min': lo, 'max': hi, 'default': d, 'value': v}


@st.composite
def float_spec(draw):
    d = draw(floats)
    return {'kind': 'float', 'default': d, 'value': draw(floats),
            'min': draw(st.sampled_from([None, min(d, 0.0)])),
            'max': draw(st.sampled_from([None, max(d, 100.0)]))}


simple = st.one_of(
    int_spec(), float_spec(),
    st.builds(lambda d, v: {'kind': 'complex', 'default': d, 'value': v},
              st.tuples(floats, floats).map(list),
              st.tuples(floats, floats).map(list)),
    st.builds(lambda d, v: {'kind': 'bool', 'default': d, 'value': v},
              st.booleans(), st.booleans()),
    st.builds(lambda d, v: {'kind': 'unicode', 'default': d, 'value': v},
              texts, texts))


@st.composite
def enum_spec(draw):
    kind = draw(st.sampled_from(['str', 'int', 'float', 'class']))
    if kind == 'str':
        vals = draw(st.lists(texts, min_size=1, max_size=4, unique=True))
    elif kind == 'int':
        vals = draw(st.lists(st.integers(-5, 20), min_size=1, max_size=4,
                             unique=True))
    elif kind == 'float':
        vals = draw(st.lists(st.integers(-9, 9).map(lambda k: k / 4),
                             min_size=1, max_size=4, unique=True))
    else:
        vals = draw(st.lists(st.sampled_from(['A', 'B', 'C']), min_size=1,
                             max_size=3, unique=True))
    return {'kind': 'enum', 'values': vals, 'of': kind,
            'default': draw(st.one_of(st.none(), st.integers(
                0, len(vals) - 1))),
            'value': draw(st.integers(0, len(vals) - 1)),
            'bad': draw(st.booleans())}


@st.composite
def tuple_spec(draw):
    items = draw(st.lists(st.one_of(
        st.builds(lambda d, v: {'kind': 'int', 'default': d, 'value': v,
                                'min': None, 'max': None}, ints, ints),
        st.builds(lambda d, v: {'kind': 'float', 'default': d, 'value': v,
                                'min': None, 'max': None}, floats, floats),
        st.builds(lambda d, v: {'kind': 'unicode', 'default': d, 'value': v},
                  texts, texts)), min_size=2, max_size=4))
    return {'kind': 'tuple', 'items': items}


array_spec = st.builds(
    lambda shape, dt: {'kind': 'array', 'shape': shape, 'dtype': dt},
    st.lists(st.integers(1, 4), min_size=0, max_size=2),
    st.sampled_from(['f8', 'i8', 'f4', 'b1']))
other = st.builds(lambda k: {'kind': 'other', 'which': k},
                  st.sampled_from(['dict', 'list', 'instance', 'set', 'any']))
notrait = st.builds(lambda k: {'kind': 'notrait', 'which': k},
                    st.sampled_from(['none', 'number', 'class', 'string']))

convert = st.fixed_dictionaries({
    'name': ident,
    'trait': st.one_of(simple, enum_spec(), tuple_spec(), array_spec, other,
                       notrait),
    'eq': st.booleans()})


@st.composite
def hierarchy(draw):
    # names of a small pool, so that overriding happens
    pool = draw(st.lists(ident, min_size=2, max_size=6,
                         unique_by=lambda s: s.lower()))
    classes = []
    for k in range(draw(st.integers(1, 5))):
        plain = k > 0 and draw(st.integers(0, 4)) == 4
        names = draw(st.lists(st.sampled_from(pool), unique=True, max_size=4))
        body = []
        if not plain:
            for nm in names:
                body.append([nm, draw(st.one_of(simple, array_spec))])
        for nm in draw(st.lists(st.sampled_from(['_p1', '_q2', 'zz_3']),
                                unique=True, max_size=2)):
            body.insert(draw(st.integers(0, len(body))), [nm, None])
        bases = draw(st.lists(st.integers(0, k - 1), unique=True,
                              max_size=3)) if k else []
        classes.append({'plain': plain, 'body': body,
                        'bases': sorted(bases, reverse=True)})
    return {'classes': classes,
            'out_names': draw(st.one_of(st.none(), st.lists(
                st.sampled_from(pool), max_size=3, unique=True))),
            'out_classes': draw(st.one_of(st.none(), st.lists(
                st.integers(0, len(classes) - 1), max_size=3, unique=True)))}


dims = st.lists(st.integers(0, 4), max_size=3)
lengths = st.one_of(st.integers(0, 20).map(lambda k: k / 4),
                    st.floats(0, 1e3, allow_subnormal=False))


@st.composite
def validators(draw):
    ls = draw(st.lists(lengths, min_size=1, max_size=3))
    on = draw(st.sampled_from(ls))
    return {'allowed': draw(dims), 'shape': draw(dims),
            'same': draw(st.booleans()), 'lengths': ls,
            'length': draw(st.one_of(
                st.just(on), lengths,
                st.sampled_from([on + 0.01, max(on - 0.01, 0.0), on * 1.01]))),
            'angle': draw(st.floats(-3.2, 3.2)), 'start': draw(st.sampled_from(
                ls))}


@st.composite
def table(draw):
    names = draw(st.lists(ident, max_size=5, unique_by=lambda s: s.lower()))
    words = st.text(string.ascii_letters + ' ,"\\_', max_size=12).map(
        lambda s: s.strip())
    return {'rows': [{'name': n, 'trait': draw(simple),
                      'help': draw(st.one_of(st.none(), words)),
                      'symbol': draw(st.one_of(st.none(), words))}
                     for n in names]}


PROPS = {
    'C27': [
        Test('convert', convert, quick=2500, thorough=80000,
             rule='one trait of every kind, names in any case, defaults, '
                  'bounds and given values; non-trivial when an option '
                  'delivers or refuses a value different from its default'),
        Test('hierarchy', hierarchy(), quick=1500, thorough=40000,
             rule='class hierarchies of up to five classes with overridden '
                  'traits, mixins and exclusions; non-trivial when traits '
                  'of two classes remain'),
        Test('validators', validators(), quick=1200, thorough=40000,
             rule='array shapes and vector lengths around the allowed ones; '
                  'non-trivial when one validator accepts and one refuses'),
        Test('table', table(), quick=600, thorough=10000,
             rule='documented traits; non-trivial with two rows, help and '
                  'symbol')],
}
