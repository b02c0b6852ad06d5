import csv
import io
import math

import click
import numpy as np
from traitlets import Any, Bool, Complex, Dict, Enum, Float, HasTraits, \
    Instance, Int, List, Set, TraitError, Tuple, Unicode
from traittypes import Array

from crowddynamics.exceptions import InvalidType, InvalidValue
from crowddynamics.traits import class_own_traits, class_to_struct_dtype, \
    class_traits, length_validator, shape_validator, table_of_traits, \
    trait_to_dtype, trait_to_option, trait_to_type
from vlib import check, raises


class A(object):
    pass


class B(object):
    pass


class C(object):
    pass


CLS = {'A': A, 'B': B, 'C': C}
SCALARS = {'int': (int, np.int64), 'float': (float, np.float64),
           'complex': (complex, np.complex128), 'bool': (bool, np.bool_)}


def value_of(spec, key):
    v = spec[key]
    if spec['kind'] == 'complex':
        return complex(*v)
    if spec['kind'] == 'enum':
        return None if v is None else members(spec)[v]
    return v


def members(spec):
    if spec['of'] == 'class':
        return [CLS[v] for v in spec['values']]
    return list(spec['values'])


def build(spec, **meta):
    k = spec['kind']
    if k == 'int':
        return Int(default_value=spec['default'], min=spec['min'],
                   max=spec['max'], **meta)
    if k == 'float':
        kw = dict(meta)
        for b in ('min', 'max'):
            if spec[b] is not None:
                kw[b] = spec[b]
        return Float(default_value=spec['default'], **kw)
    if k == 'complex':
        return Complex(default_value=value_of(spec, 'default'), **meta)
    if k == 'bool':
        return Bool(default_value=spec['default'], **meta)
    if k == 'unicode':
        return Unicode(default_value=spec['default'], **meta)
    if k == 'enum':
        d = value_of(spec, 'default')
        return Enum(values=tuple(members(spec)), default_value=d,
                    allow_none=d is None, **meta)
    if k == 'tuple':
        return Tuple(*[build(i) for i in spec['items']],
                     default_value=tuple(value_of(i, 'default')
                                         for i in spec['items']))
    if k == 'array':
        return Array(default_value=np.zeros(tuple(spec['shape']),
                                            dtype=spec['dtype']),
                     dtype=np.dtype(spec['dtype']).type, **meta)
    if k == 'other':
        return {'dict': Dict, 'list': List, 'set': Set, 'any': Any,
                'instance': lambda: Instance(A, args=())}[spec['which']]()
    if k == 'notrait':
        return {'none': None, 'number': 3, 'class': Int,
                'string': 'Int'}[spec['which']]


def text(v):
    if isinstance(v, complex):
        im = repr(v.imag)
        return repr(v.real) + (im if im[0] == '-' else '+' + im) + 'j'
    return repr(v) if isinstance(v, float) else str(v)


def parsed(option, args):
    """What the command gets; None if the option refuses the arguments."""
    got = []
    cmd = click.Command('x', params=[option],
                        callback=lambda **kw: got.append(kw))
    try:
        cmd.main(list(args), standalone_mode=False)
    except click.UsageError:
        return None
    check(len(got) == 1, 'command ran %d times', len(got))
    return got[0]


def same_value(a, b):
    if isinstance(b, tuple):
        return isinstance(a, tuple) and len(a) == len(b) and all(
            same_value(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def expect(option, args, name, want):
    got = parsed(option, args)
    check(got is not None, 'option %s refused %r', name, args)
    check(list(got) == [name], 'option %s delivered as %r', name, list(got))
    check(same_value(got[name], want), 'option %s with %r gives %r, not %r',
          name, args, got[name], want)


def convert(case):
    spec, name = case['trait'], case['name']
    trait, k = build(spec), spec['kind']
    labels = [k]
    # type and array field
    if k == 'notrait':
        # traitlets takes a trait class for a trait; either error will do
        ex = (InvalidType, InvalidValue) if spec['which'] == 'class' \
            else InvalidType
        for what, e in (('type', raises(ex, trait_to_type, trait)),
                        ('dtype', raises(ex, trait_to_dtype, name, trait)),
                        ('option', raises(ex, trait_to_option, name, trait))):
            check(e is not None, '%s of %r accepted', what, trait)
        return False, labels
    if k in SCALARS or k == 'unicode':
        want = SCALARS[k][0] if k in SCALARS else str
        check(trait_to_type(trait) is want, 'type of %s is %r', k,
              trait_to_type(trait))
    else:
        check(raises(InvalidValue, trait_to_type, trait), 'type of %s', k)
    if k in SCALARS or k == 'array':
        dt = np.dtype([trait_to_dtype(name, trait)])
        check(dt.names == (name,), 'field of %s named %r', name, dt.names)
        base, shape = (dt[name].subdtype or (dt[name], ()))
        want = np.dtype(SCALARS[k][1] if k in SCALARS else spec['dtype'])
        check(base == want, 'field of %s is %r, not %r', k, base, want)
        check(tuple(shape) == tuple(spec.get('shape', ())),
              'field of %s has shape %r', k, shape)
    else:
        check(raises((InvalidValue, NotImplementedError), trait_to_dtype,
                     name, trait), 'array field of %s', k)
    # option
    if k in ('array', 'other'):
        check(raises(InvalidValue, trait_to_option, name, trait),
              'option of %s', k)
        return False, labels
    opt = trait_to_option(name, trait)
    flag = '--' + name
    if k == 'tuple':
        items = spec['items']
        expect(opt, [], name, tuple(i['default'] for i in items))
        want = tuple(i['value'] for i in items)
        expect(opt, [flag] + [text(v) for v in want], name, want)
        return True, labels
    default = value_of(spec, 'default')
    expect(opt, [], name, default)
    if k == 'bool':
        expect(opt, [flag], name, not default)
        return True, labels
    v = value_of(spec, 'value')

    def give(s):
        return ['%s=%s' % (flag, s)] if case['eq'] else [flag, s]
    if k == 'enum':
        expect(opt, give(str(v)), name, v)
        bad = str(v) + '!'
        check(parsed(opt, give(bad)) is None, 'option took %r, not among %r',
              bad, spec['values'])
        return v != default, labels + [spec['of']]
    if k == 'int':
        ok = (spec['min'] is None or v >= spec['min']) and \
            (spec['max'] is None or v <= spec['max'])
        if not ok:
            check(parsed(opt, give(text(v))) is None,
                  'option took %d outside [%s, %s]', v, spec['min'],
                  spec['max'])
            return True, labels + ['refused']
        check(parsed(opt, give('1.5')) is None, 'int option took 1.5')
    if k in ('float', 'complex'):
        check(parsed(opt, give('abc')) is None, '%s option took text', k)
    expect(opt, give(text(v)), name, v)
    return v != default, labels


def hierarchy(case):
    built, specs = [], {}
    for k, c in enumerate(case['classes']):
        ns, own = {}, []
        for nm, spec in c['body']:
            if spec is None:
                ns[nm] = 5
            else:
                ns[nm] = build(spec)
                own.append((nm, spec))
        bases = tuple(built[b] for b in c['bases'])
        if not c['plain'] and not any(issubclass(b, HasTraits)
                                      for b in bases):
            bases = bases + (HasTraits,)
        if c['plain']:
            bases = tuple(b for b in bases if not issubclass(b, HasTraits))
        try:
            cls = type(HasTraits if not c['plain'] else object)(
                'K%d' % k, bases, ns)
        except TypeError:       # no consistent order of these bases
            cls = type(HasTraits)('K%d' % k, (HasTraits,), ns)
        built.append(cls)
        specs[cls] = own
    outn = case['out_names']
    outc = case['out_classes']
    exn = None if outn is None else (lambda n: n in outn)
    exc = None if outc is None else (
        lambda c: c in [built[k] for k in outc])
    traits = 0
    multi = False
    for cls in built:
        want, seen, owners = [], set(), set()
        for c in cls.__mro__:
            if exc and exc(c):
                continue
            if c not in specs or not issubclass(c, HasTraits):
                continue
            for nm, spec in specs[c]:
                if nm in seen or (outn is not None and nm in outn):
                    continue
                seen.add(nm)
                want.append((nm, c, spec))
                owners.add(c)
        got = list(class_traits(cls, exclude_attrs=exn, exclude_cls=exc))
        check([n for n, _ in got] == [n for n, _, _ in want],
              'traits %r of %s, expected %r', [n for n, _ in got],
              cls.__mro__, [n for n, _, _ in want])
        for (n, t), (_, c, _) in zip(got, want):
            check(t is vars(c)[n], 'trait %s is not the one of %s', n, c)
        own = [(n, t) for n, t in class_own_traits(cls, exn)]
        wown = [n for n, _ in specs[cls] if not (outn and n in outn)] \
            if issubclass(cls, HasTraits) else []
        check([n for n, _ in own] == wown, 'own traits %r, expected %r',
              [n for n, _ in own], wown)
        for n, t in own:
            check(t is vars(cls)[n], 'own trait %s', n)
        if want and all(s['kind'] != 'unicode' for _, _, s in want):
            dt = class_to_struct_dtype(cls, exn, exc)
            check(list(dt.names) == [n for n, _, _ in want],
                  'fields %r, expected %r', dt.names, want)
            for n, _, s in want:
                b, sh = dt[n].subdtype or (dt[n], ())
                check(b == np.dtype(SCALARS[s['kind']][1]
                                    if s['kind'] in SCALARS
                                    else s['dtype']) and
                      tuple(sh) == tuple(s.get('shape', ())),
                      'field %s is %r', n, dt[n])
        traits += len(want)
        multi = multi or len(owners) > 1
    return multi, ['excluded'] if outn or outc else []


def validators(case):
    allowed = tuple(case['allowed'])
    shape = allowed if case['same'] else tuple(case['shape'])
    arr = np.zeros(shape)

    class S(HasTraits):
        a = Array(default_value=np.zeros(allowed)).valid(
            shape_validator(*allowed))

    s = S()
    err = raises(TraitError, setattr, s, 'a', arr)
    check((err is None) == (shape == allowed),
          'shape %r %s where %r is allowed', shape,
          'accepted' if err is None else 'refused', allowed)
    check(s.a.shape == allowed, 'array of shape %r stored', s.a.shape)
    # lengths
    ls, l = case['lengths'], case['length']
    v = np.array([l * math.cos(case['angle']), l * math.sin(case['angle'])])
    tol = [abs(l - x) / (1e-8 + 1e-5 * abs(x)) for x in ls]
    ok = None
    if min(tol) < 0.5:
        ok = True
    elif min(tol) > 2.0:
        ok = False
    if ok is not None:
        class L(HasTraits):
            v = Array(default_value=np.array([case['start'], 0.0])).valid(
                length_validator(*ls))
        o = L()
        err2 = raises(TraitError, setattr, o, 'v', v)
        check((err2 is None) == ok, 'length %r %s where %r are allowed', l,
              'accepted' if err2 is None else 'refused', ls)
        if ok:
            check(np.array_equal(o.v, v), 'value changed to %r', o.v)
    return ok is not None and ok != (shape == allowed), [
        'shape ok' if shape == allowed else 'shape bad',
        'length ' + str(ok)]


def table(case):
    ns, want = {}, []
    for r in case['rows']:
        meta = {k: r[k] for k in ('help', 'symbol') if r[k] is not None}
        ns[r['name']] = build(r['trait'], **meta)
        d = str(value_of(r['trait'], 'default'))
        want.append(['``%s``' % r['name'],
                     ':math:`%s`' % r['symbol'] if r['symbol'] else '',
                     '``%s``' % d if d else '', r['help'] or ''])
    cls = type(HasTraits)('T', (HasTraits,), ns)
    s = table_of_traits(cls)
    lines = s.split('\n')
    at = next(k for k, l in enumerate(lines) if 'csv-table::' in l)
    check(lines[at].startswith('.. csv-table::'), 'directive %r', lines[at])
    opt = [l for l in lines[at + 1:] if l.strip().startswith(':header-rows:')]
    check(opt == ['   :header-rows: 1'], 'options %r', opt)
    body = [l.rstrip('\r') for l in lines[lines.index(opt[0]) + 1:]
            if l.strip()]
    check(all(l.startswith('   ') for l in body), 'body %r', body)
    rows = list(csv.reader(io.StringIO('\n'.join(l[3:] for l in body))))
    check(rows[:1] == [['name', 'symbol', 'default value', 'help']],
          'header %r', rows[:1])
    check(rows[1:] == want, 'rows %r, expected %r', rows[1:], want)
    return len(want) > 1 and any(r['help'] for r in case['rows']) and any(
        r['symbol'] for r in case['rows']), []
