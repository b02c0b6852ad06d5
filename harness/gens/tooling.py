import string

from hypothesis import strategies as st
from driver import Test
from gens.traitmap import int_spec, ident

word = st.text(string.ascii_letters + string.digits + '_', min_size=1,
               max_size=6)
keyname = st.builds(lambda a, b: a + b, st.sampled_from('abcxyz'),
                    st.text('abcd_1', max_size=4))
quarter = st.integers(-40, 40).map(lambda k: k / 4)


# Configuration

@st.composite
def entry(draw):
    kind = draw(st.sampled_from(['float', 'integer', 'boolean', 'string',
                                 'option', 'list']))
    e = {'kind': kind, 'min': None, 'max': None, 'options': None,
         'default': draw(st.booleans())}
    num = quarter if kind == 'float' else st.integers(-10, 10)
    if kind in ('float', 'integer'):
        lo, hi = sorted([draw(num), draw(num)])
        e['min'] = draw(st.sampled_from([None, lo]))
        e['max'] = draw(st.sampled_from([None, hi]))
        e['dvalue'] = lo
        edge = [v for v in (e['min'], e['max']) if v is not None]
        step = 0.25 if kind == 'float' else 1
        e['value'] = draw(st.one_of(
            [num] + [st.sampled_from([v, v - step, v + step])
                     for v in edge]))
    elif kind == 'boolean':
        e['dvalue'] = draw(st.booleans())
        e['value'] = draw(st.booleans())
    elif kind == 'string':
        e['dvalue'], e['value'] = draw(word), draw(word)
    elif kind == 'list':
        e['dvalue'] = []
        e['value'] = draw(st.lists(word, min_size=2, max_size=3))
    else:
        e['options'] = draw(st.lists(word, min_size=1, max_size=3,
                                     unique=True))
        e['dvalue'] = draw(st.sampled_from(e['options']))
        e['value'] = draw(st.one_of(word, st.sampled_from(e['options'])))
    e['given'] = draw(st.sampled_from(['value', 'value', 'value', 'value',
                                       'value', 'missing', 'text']))
    return e


@st.composite
def config(draw):
    secs = []
    names = draw(st.lists(keyname, unique=True, max_size=3))
    for n in names:
        keys = draw(st.lists(keyname, unique=True, max_size=3))
        secs.append([n, [[k, draw(entry())] for k in keys]])
    many = draw(st.booleans())
    sub = []
    if many:
        keys = draw(st.lists(keyname, unique=True, min_size=1, max_size=2))
        spec = [draw(entry()) for _ in keys]
        for n in draw(st.lists(keyname, unique=True, max_size=3)):
            rows = []
            for k, s in zip(keys, spec):
                e = draw(entry().filter(lambda x: True))
                e2 = dict(s, given=e['given'])
                if e['kind'] == s['kind'] and s['kind'] in (
                        'float', 'integer', 'boolean', 'string'):
                    e2['value'] = e['value']
                rows.append([k, e2])
            sub.append([n, rows])
        manyspec = [[k, s] for k, s in zip(keys, spec)]
    else:
        manyspec = []
    return {'sections': secs, 'many': manyspec, 'sub': sub,
            'extra': draw(st.booleans()), 'nospec': draw(
                st.integers(0, 9)) == 9}


FIELDS = ['ratio_rt', 'ratio_rs', 'ratio_ts', 'radius_mean', 'radius_scale',
          'target_velocity_mean', 'target_velocity_scale', 'mass_mean',
          'mass_scale']
shipped = st.fixed_dictionaries({
    'body': st.sampled_from(['adult', 'male', 'female', 'child', 'eldery',
                             'new']),
    'changes': st.lists(st.tuples(
        st.sampled_from(FIELDS),
        st.one_of(st.floats(-1, 3, allow_subnormal=False).map(
            lambda x: round(x, 3)),
            st.sampled_from([0.0, 1.0, -0.01, 1.01, 'drop', 'text']))).map(
                list), max_size=3)})


# Signatures

@st.composite
def signature(draw):
    names = draw(st.lists(st.one_of(keyname, keyname, st.sampled_from(
        ['selfish', 'self_', 'itself', '_x', 'cls', 'name'])),
        unique=True, max_size=5))
    params = []
    value = st.sampled_from(['3', '-1', '2.5', "'txt'", 'None', 'True', '()',
                             '{}', 'int', "''", '0', 'False', '[]', '0.0'])
    note = st.sampled_from([None, None, 'int', 'float', 'str', '"text"'])
    for n in names:
        params.append({'name': n, 'default': draw(st.one_of(
            value, value, value, st.none())), 'note': draw(note)})
    star = draw(st.sampled_from([None, None, None, 'kwonly', 'args']))
    cut = draw(st.integers(0, len(params)))
    # positional parameters without default come first
    head = sorted(params[:cut] if star else params,
                  key=lambda p: p['default'] is not None)
    tail = params[cut:] if star else []
    return {'head': head, 'tail': tail, 'star': star,
            'kwargs': draw(st.integers(0, 5)) == 5,
            'kind': draw(st.sampled_from(['function', 'method', 'bound',
                                          'lambda'])),
            'only_defaults': draw(st.booleans())}


# Working directory

def cwd_tree(depth):
    inner = st.just([]) if depth == 0 else st.lists(
        cwd_tree(depth - 1), max_size=2)
    return st.fixed_dictionaries({
        'dir': st.sampled_from(['a', 'b', 'a/c', '.', '..', 'missing',
                                'file']),
        'relative': st.booleans(), 'raise': st.sampled_from(
            [False, False, False, True]),
        'stray': st.sampled_from([False, False, True]),
        'generator': st.sampled_from([None, None, 'exhaust', 'close',
                                      'throw']),
        'inner': inner})


# Modules

classname = st.builds(lambda a, b: a + b, st.sampled_from(
    ['A', 'B', 'C', 'D', 'E', '_A', '__B']), st.text('xyz1', max_size=2))


@st.composite
def module(draw):
    ents = []
    known = []
    for n in draw(st.lists(classname, unique=True, max_size=6)):
        kind = draw(st.sampled_from(['sub', 'sub', 'subsub', 'plain', 'value',
                                     'alias', 'instance', 'hook']))
        ref = draw(st.sampled_from(known)) if known else None
        if kind in ('subsub', 'alias', 'instance') and ref is None:
            kind = 'sub'
        if kind in ('sub', 'subsub'):
            known.append(n)
        ents.append([n, kind, ref])
    return {'file': draw(st.sampled_from(['mod', 'sims', 'my_mod', 'mod.v2',
                                          'json', 'random'])),
            'entries': ents, 'base': draw(st.sampled_from(
                ['as', 'from', 'rename'])),
            'target': draw(st.sampled_from(['base', 'int', 'mid']))}


@st.composite
def callables(draw):
    mods = draw(st.lists(keyname, unique=True, max_size=3))
    out = []
    for m in mods:
        funcs = draw(st.lists(classname, unique=True, max_size=3))
        asked = draw(st.lists(st.sampled_from(funcs + ['missing_f']),
                              unique=True, max_size=4))
        out.append({'name': m, 'funcs': funcs, 'asked': asked,
                    'listed': draw(st.booleans()),
                    'where': draw(st.sampled_from(['.', 'sub']))})
    return {'mods': out, 'how': draw(st.sampled_from(
        ['absolute', 'relative', 'bare'])),
        'stop': draw(st.sampled_from([None, None, 1]))}


# Command line

@st.composite
def option(draw):
    kind = draw(st.sampled_from(['int', 'float', 'bool', 'str', 'enum']))
    if kind == 'int':
        s = draw(int_spec())
        return dict(s, kind='int')
    if kind == 'float':
        return {'kind': kind, 'default': draw(quarter),
                'value': draw(quarter)}
    if kind == 'bool':
        return {'kind': kind, 'default': draw(st.booleans()), 'value': None}
    if kind == 'str':
        return {'kind': kind, 'default': draw(word), 'value': draw(word)}
    vals = draw(st.lists(word, unique=True, min_size=1, max_size=3))
    return {'kind': kind, 'values': vals, 'default': draw(
        st.sampled_from(vals)), 'value': draw(st.sampled_from(vals))}


BAD = ('field agents logic data metadata timestamp name exit_condition run '
       'update traits obj cls self num loglevel').split()


@st.composite
def commands(draw):
    some = ['Outdoor', 'Hall', 'hall', 'Room2', 'My_Sim', 'Exit', 'Walk']
    names = draw(st.lists(st.sampled_from(some), unique=True, min_size=1,
                          max_size=5))
    if draw(st.integers(0, 9)) == 9:
        names = draw(st.permutations(some + ['S%d' % k for k in range(
            draw(st.integers(2, 14)))]))
    files, sims = [], []
    for k, n in enumerate(names):
        f = draw(st.sampled_from(['one', 'two', 'three', '_own', '__x', 'test'])) + '.py'
        same = [s['name'] for s in sims if s['file'] == f]
        opts = draw(st.lists(ident.filter(lambda s: s.lower() not in BAD),
                             unique_by=lambda s: s.lower(), max_size=3))
        sims.append({'name': n, 'file': f, 'options': [
            [o, draw(option())] for o in opts],
            'base': draw(st.sampled_from(same)) if same and draw(
                st.integers(0, 3)) == 3 else None,
            'steps': draw(st.integers(0, 3))})
    calls = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.integers(0, len(sims) - 1))
        given = draw(st.lists(st.booleans(), min_size=3, max_size=3))
        calls.append([k, given])
    return {'sims': sims, 'calls': calls,
            'num': draw(st.one_of(st.none(), st.integers(0, 3))),
            'loglevel': draw(st.sampled_from([None, None, 'DEBUG', '20'])),
            'eq': draw(st.booleans()),
            'noise': draw(st.lists(st.sampled_from(
                ['notes.txt', 'empty.py', 'plain.py', 'data.npy']),
                unique=True)),
            'again': draw(st.integers(0, 3)) == 3}


recordings = st.fixed_dictionaries({
    'chunks': st.lists(st.lists(st.lists(quarter, min_size=2, max_size=2),
                                min_size=1, max_size=3), min_size=1,
                       max_size=12),
    'base': st.sampled_from(['agents', 'data', 'a_1', 'x-2']),
    'other': st.booleans(), 'where': st.sampled_from([None, 'sub', 'abs']),
    'short': st.booleans(), 'twice': st.booleans()})

wrapped = st.fixed_dictionaries({
    'args': st.lists(st.integers(-5, 5), max_size=3),
    'kwargs': st.dictionaries(keyname, st.integers(-5, 5), max_size=2),
    'raises': st.sampled_from([None, None, 'ValueError', 'KeyError']),
    'name': keyname, 'calls': st.integers(1, 3),
    'parts': st.lists(st.one_of(
        st.text('ab \n', max_size=4).map(lambda s: ['text', s]),
        st.sampled_from([['sub', 'x'], ['sub', 'y'], ['sub', 'z'],
                         ['percent', '']])), max_size=6),
    'subs': st.dictionaries(st.sampled_from(['x', 'y', 'z']), st.tuples(
        st.sampled_from(['str', 'callable', 'name']), word).map(list),
        min_size=3, max_size=3)})

PROPS = {
    'C28': [
        Test('config', config(), quick=1200, thorough=30000,
             rule='specifications with bounds, defaults, options and '
                  'repeated sections and values on and around the bounds; '
                  'non-trivial with three checked values'),
        Test('shipped', shipped, quick=500, thorough=8000,
             rule='the shipped body types with changed values; non-trivial '
                  'when a change is on either side of a bound'),
        Test('signature', signature(), quick=800, thorough=20000,
             rule='functions, methods and lambdas with any parameters; '
                  'non-trivial with two parameters'),
        Test('cwd', cwd_tree(3).map(
            lambda t: dict(t, dir='a', inner=t['inner'] or [
                dict(t, inner=[])])), quick=800, thorough=20000,
             rule='nested directory changes left by exceptions, stray '
                  'chdir and abandoned generators; non-trivial when nested'),
        Test('modules', module(), quick=500, thorough=8000,
             rule='modules with subclasses, aliases, values and plain '
                  'classes; non-trivial when some but not all names count'),
        Test('callables', callables(), quick=400, thorough=6000,
             rule='configurations naming functions of several modules; '
                  'non-trivial with two functions found'),
        Test('commands', commands(), quick=500, thorough=8000,
             rule='directories of generated simulations and chained '
                  'commands; non-trivial when two different simulations run'),
        Test('concat', recordings, quick=250, thorough=4000,
             rule='recordings concatenated from the command line; '
                  'non-trivial with two chunks'),
        Test('wrappers', wrapped, quick=500, thorough=8000,
             rule='deprecated functions and interpolated docstrings; '
                  'non-trivial with arguments and substitutions')],
}
