import os
import re
import shutil
import sys
import tempfile
import types
import warnings

import loggingtools
import numpy as np

# loggingtools cannot read its YAML with the installed ruamel.yaml: stand-in.
loggingtools.setup_logging = lambda *a, **k: None

from click.testing import CliRunner  # noqa

from crowddynamics import cli  # noqa
from crowddynamics.config import BODY_TYPES_CFG, BODY_TYPES_CFG_SPEC, \
    import_simulation_callables, load_config  # noqa
from crowddynamics.exceptions import InvalidType, ValidationError, \
    deprecated  # noqa
from crowddynamics.io import load_npy_concatenated, save_npy  # noqa
from crowddynamics.utils import import_subclasses, interpolate_docstring, \
    parse_signature, remember_cwd  # noqa
from vlib import check, raises  # noqa


class Scratch(object):
    def __enter__(self):
        self.home = os.getcwd()
        self.d = os.path.realpath(tempfile.mkdtemp(prefix='tool'))
        return self.d

    def __exit__(self, *a):
        os.chdir(self.home)
        shutil.rmtree(self.d, ignore_errors=True)


def write(path, text):
    if not os.path.isdir(os.path.dirname(path)):
        os.makedirs(os.path.dirname(path))
    with open(path, 'w') as f:
        f.write(text)


# Configuration

def spec_line(key, e):
    args = []
    if e['options']:
        args += ['"%s"' % o for o in e['options']]
    for b in ('min', 'max'):
        if e[b] is not None:
            args.append('%s=%r' % (b, e[b]))
    if e['default']:
        args.append('default=' + (
            'list()' if e['kind'] == 'list' else '"%s"' % (e['dvalue'],)))
    name = 'string_list' if e['kind'] == 'list' else e['kind']
    return '%s = %s(%s)' % (key, name, ', '.join(args))


def value_line(key, e):
    if e['given'] == 'missing':
        return None
    if e['given'] == 'text':
        return '%s = ~text' % key
    v = e['value']
    return '%s = %s' % (key, ', '.join(v) if isinstance(v, list) else v)


INVALID = object()


def expected(e):
    if e['given'] == 'missing':
        return e['dvalue'] if e['default'] else INVALID
    if e['given'] == 'text':
        return '~text' if e['kind'] == 'string' else INVALID
    v = e['value']
    if e['kind'] == 'option':
        return v if v in e['options'] else INVALID
    if (e['min'] is not None and v < e['min']) or \
            (e['max'] is not None and v > e['max']):
        return INVALID
    return v


def same_value(a, b):
    return type(a) is type(b) and a == b


def config(case):
    spec, conf, want = [], [], []
    for n, rows in case['sections']:
        spec += ['[%s]' % n] + [spec_line(k, e) for k, e in rows]
        lines = [x for x in (value_line(k, e) for k, e in rows) if x]
        if lines or not rows:
            conf += ['[%s]' % n] + lines
            if case['extra']:
                conf.append('unspecified = 1')
        want += [((n, k), expected(e), e) for k, e in rows]
    if case['many']:
        spec += ['[group]', '[[__many__]]'] + [
            spec_line(k, e) for k, e in case['many']]
        conf += ['[group]']
        for n, rows in case['sub']:
            conf += ['[[%s]]' % n] + [
                x for x in (value_line(k, e) for k, e in rows) if x]
            want += [(('group', n, k), expected(e), e) for k, e in rows]
    with Scratch() as d:
        cp, sp = os.path.join(d, 'x.cfg'), os.path.join(d, 'spec.cfg')
        write(cp, '\n'.join(conf) + '\n')
        write(sp, '\n'.join(spec) + '\n')
        valid = all(v is not INVALID for _, v, _ in want)
        if case['nospec']:
            c = load_config(cp)
            for path, _, e in want:
                if e['given'] == 'value' and e['kind'] != 'list':
                    x = c
                    for p in path:
                        x = x[p]
                    check(x == str(e['value']), 'text of %r is %r', path, x)
            return False, ['nospec']
        err = None
        try:
            c = load_config(cp, configspec=sp)
        except ValidationError as ex:
            err = ex
        check((err is None) == valid, '%s configuration %s\n%s\nspec\n%s',
              'valid' if valid else 'invalid',
              'accepted' if err is None else 'refused',
              '\n'.join(conf), '\n'.join(spec))
        if valid:
            for path, v, e in want:
                x = c
                for p in path:
                    x = x[p]
                check(same_value(x, float(v) if e['kind'] == 'float' else v),
                      'value of %r is %r, not %r', path, x, v)
    return len(want) > 2, ['valid' if valid else 'invalid']


def shipped(case):
    base = load_config(BODY_TYPES_CFG, BODY_TYPES_CFG_SPEC)
    rows = {n: dict(s) for n, s in base.items()}
    for name, s in rows.items():
        check(all(isinstance(v, float) for v in s.values()),
              'body type %s: %r', name, s)
    if case['body'] == 'new':
        rows['new'] = dict(rows['adult'])
    cur = rows[case['body']]
    for f, v in case['changes']:
        cur[f] = v
    valid = True
    for f, v in cur.items():
        if not isinstance(v, float) or v < 0 or (
                f.startswith('ratio') and v > 1):
            valid = False
    lines = []
    for name, s in rows.items():
        lines.append('[%s]' % name)
        lines += ['%s = %s' % (f, v) for f, v in s.items() if v != 'drop']
    with Scratch() as d:
        p = os.path.join(d, 'body.cfg')
        write(p, '\n'.join(lines))
        err = None
        try:
            got = load_config(p, configspec=BODY_TYPES_CFG_SPEC)
        except ValidationError as e:
            err = e
        check((err is None) == valid, 'body type with %r %s', cur,
              'accepted' if err is None else 'refused')
        if valid:
            check({n: dict(s) for n, s in got.items()} == rows,
                  'read %r', got)
    return bool(case['changes']), ['valid' if valid else 'invalid']


# Signatures

def signature(case):
    def text(p, notes):
        s = p['name']
        if notes and p['note']:
            s += ': ' + p['note']
        d = p['default']
        if d is None and case['only_defaults']:
            d = '3'
        return (s if d is None else s + '=' + d), d

    kind = case['kind']
    notes = kind != 'lambda'
    head = [text(p, notes) for p in case['head']]
    tail = [text(p, notes) for p in case['tail']]
    parts = [s for s, _ in head]
    order = list(zip(case['head'], [d for _, d in head]))
    if case['star'] == 'kwonly' and tail:
        parts.append('*')
    elif case['star'] == 'args':
        parts.append('*args')
        order.append(({'name': 'args', 'note': None}, None))
    parts += [s for s, _ in tail]
    order += list(zip(case['tail'], [d for _, d in tail]))
    if case['kwargs']:
        parts.append('**kwargs')
        order.append(({'name': 'kwargs', 'note': None}, None))
    ns = {}
    if kind == 'lambda':
        exec('f = lambda %s: None' % ', '.join(parts), ns)
        f = ns['f']
    elif kind == 'function':
        exec('def f(%s): pass' % ', '.join(parts), ns)
        f = ns['f']
    else:
        exec('class K(object):\n    def f(%s): pass' % ', '.join(
            ['self'] + parts), ns)
        f = ns['K'].f if kind == 'method' else ns['K']().f
    g = parse_signature(f)
    for p, d in order:
        if d is None:
            check(raises(InvalidType, next, g), 'parameter %s of %r has no '
                  'default and was accepted', p['name'], parts)
            return len(order) > 1, [kind, 'refused']
        try:
            s = next(g)
        except StopIteration:
            check(False, 'parameter %s of %r is missing', p['name'], parts)
        check(s.name == p['name'], 'parameter %r reported as %r', p['name'],
              s.name)
        v = eval(d)
        check(same_value(s.default, v), 'default of %r is %r', parts, s)
        a = eval(p['note']) if notes and p['note'] else None
        check(s.annotation == a, 'annotation of %r is %r', parts, s)
    check(next(g, None) is None, 'more parameters than in %r', parts)
    return len(order) > 1, [kind]


# Working directory

class Leave(Exception):
    pass


def cwd(case):
    with Scratch() as d:
        root = os.path.join(d, 'r')
        for sub in ('a/c', 'b'):
            os.makedirs(os.path.join(root, sub))
        write(os.path.join(root, 'file'), '')
        os.chdir(root)
        depth = [0]

        def node(n, level):
            before = os.getcwd()
            target = n['dir'] if n['relative'] else os.path.join(
                root, n['dir'])
            ok = os.path.isdir(target)
            real = os.path.realpath(target)
            depth[0] = max(depth[0], level if ok else 0)

            def body():
                check(os.getcwd() == real, 'inside %r we are in %r', real,
                      os.getcwd())
                for m in n['inner']:
                    node(m, level + 1)
                    check(os.getcwd() == real, 'back from %r in %r',
                          m['dir'], os.getcwd())
                if n['stray']:
                    os.chdir(os.path.join(root, 'b'))
                if n['raise']:
                    raise Leave()

            def visits():
                with remember_cwd(target):
                    yield 1
                    body()

            err = None
            try:
                if n['generator'] and ok:
                    g = visits()
                    next(g)
                    if n['generator'] == 'exhaust':
                        for _ in g:
                            pass
                    elif n['generator'] == 'close':
                        g.close()
                    else:
                        g.throw(Leave())
                else:
                    with remember_cwd(target):
                        check(ok, 'entered %r', target)
                        body()
            except (Leave, OSError) as e:
                err = e
            check(os.getcwd() == before, 'left %r: in %r instead of %r',
                  target, os.getcwd(), before)
            if not ok:
                check(isinstance(err, OSError), 'missing directory: %r', err)
            elif n['generator'] == 'throw' or (
                    n['raise'] and n['generator'] != 'close'):
                check(isinstance(err, Leave), 'exception lost: %r', err)
            else:
                check(err is None, 'unexpected %r', err)

        node(case, 0)
        return depth[0] > 0, ['depth %d' % depth[0]]


# Modules

class Base(object):
    pass


class Mid(Base):
    pass


TOOL = types.ModuleType('tool_base')
TOOL.Base, TOOL.Mid, TOOL.LOG = Base, Mid, []
sys.modules['tool_base'] = TOOL


def module(case):
    names = {}      # bound name -> ancestors (None: not a class)
    order = []
    how = case['base']
    if how == 'as':
        src = ['import tool_base as tb']
        base, mid = 'tb.Base', 'tb.Mid'
    elif how == 'from':
        src = ['from tool_base import Base, Mid']
        base, mid = 'Base', 'Mid'
        names.update(Base=('Base',), Mid=('Mid', 'Base'))
        order += ['Base', 'Mid']
    else:
        src = ['from tool_base import Base as Root, Mid']
        base, mid = 'Root', 'Mid'
        names.update(Root=('Base',), Mid=('Mid', 'Base'))
        order += ['Root', 'Mid']
    anc = {'Base': ('Base',), 'Mid': ('Mid', 'Base')}
    for k, (n, kind, ref) in enumerate(case['entries']):
        order.append(n)
        if kind == 'sub':
            src.append('class %s(%s): pass' % (n, mid if k % 2 else base))
            names[n] = (n,) + anc['Mid' if k % 2 else 'Base']
        elif kind == 'subsub':
            src.append('class %s(%s): pass' % (n, ref))
            names[n] = (n,) + names[ref]
        elif kind == 'plain':
            src.append('class %s(object): pass' % n)
            names[n] = (n,)
        elif kind == 'value':
            src.append('%s = %d' % (n, k))
            names[n] = None
        elif kind == 'alias':
            src.append('%s = %s' % (n, ref))
            names[n] = names[ref]
        elif kind == 'instance':
            src.append('%s = %s()' % (n, ref))
            names[n] = None
        else:
            src.append('def %s(): return 1' % n)
            names[n] = None
    cls, label = {'base': (Base, 'Base'), 'int': (int, 'int'),
                  'mid': (Mid, 'Mid')}[case['target']]
    want = [n for n in order if names[n] is not None and
            label in names[n][1:]]
    with Scratch() as d:
        path = os.path.join(d, case['file'] + '.py')
        write(path, '\n'.join(src) + '\n')
        for _ in range(2):
            got = import_subclasses(path, cls)
            check(list(got) == want, 'subclasses of %s are %r, not %r in\n%s',
                  label, list(got), want, '\n'.join(src))
            for n, c in got.items():
                check(isinstance(c, type) and issubclass(c, cls) and
                      c.__name__ == names[n][0], '%s is %r', n, c)
    return 0 < len(want) < len(order), [case['file'], case['target']]


def callables(case):
    with Scratch() as d:
        conf = os.path.join(d, 'conf')
        lines = ['[simulations]']
        want = []
        for m in case['mods']:
            rel = os.path.join(m['where'], m['name'] + '.py')
            src = ['import os', 'HERE = os.getcwd()']
            for f in m['funcs']:
                src.append('def %s(): return "%s.%s", HERE' % (
                    f, m['name'], f))
            write(os.path.join(conf, rel), '\n'.join(src) + '\n')
            lines += ['[[%s]]' % m['name'], 'path = ' + rel]
            if m['asked']:
                lines.append('functions = ' + ', '.join(m['asked']) + ','
                             * (m['listed'] or len(m['asked']) == 1))
            want += [(f, m['name'] + '.' + f) for f in m['asked']
                     if f in m['funcs']]
        write(os.path.join(conf, 'crowd.cfg'), '\n'.join(lines) + '\n')
        where = {'absolute': d, 'relative': d, 'bare': conf}[case['how']]
        path = {'absolute': os.path.join(conf, 'crowd.cfg'),
                'relative': os.path.join('conf', 'crowd.cfg'),
                'bare': 'crowd.cfg'}[case['how']]
        os.chdir(where)
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter('always')
            g = import_simulation_callables(path)
            check(any(issubclass(w.category, DeprecationWarning)
                      for w in log), 'no deprecation warning')
            got = []
            for name, fn in g:
                got.append((name, fn))
                if case['stop'] and len(got) >= case['stop']:
                    break
            g.close()
        check(os.getcwd() == where, 'left in %r instead of %r', os.getcwd(),
              where)
        if case['stop']:
            want = want[:case['stop']]
        check([n for n, _ in got] == [n for n, _ in want],
              'functions %r, expected %r', [n for n, _ in got], want)
        for (n, fn), (_, mark) in zip(got, want):
            r, here = fn()
            check(r == mark, '%s is %s, expected %s', n, r, mark)
            check(os.path.realpath(here) == conf, 'module ran in %r', here)
    return len(want) > 1, [case['how']]


# Command line

def sim_source(s):
    out = ['class %s(%s):' % (s['name'],
                              s['base'] or 'MultiAgentSimulation')]
    for n, o in s['options']:
        kw = 'default_value=%r' % o['default']
        if o['kind'] == 'int':
            for b in ('min', 'max'):
                if o[b] is not None:
                    kw += ', %s=%r' % (b, o[b])
        if o['kind'] == 'enum':
            kw += ', values=%r' % (tuple(o['values']),)
        t = {'int': 'Int', 'float': 'Float', 'bool': 'Bool',
             'str': 'Unicode', 'enum': 'Enum'}[o['kind']]
        out.append('    %s = %s(%s)' % (n, t, kw))
    names = tuple(n for n, _ in s['options'])
    out += ['    def __init__(self, **kw):',
            '        super(%s, self).__init__(**kw)' % s['name'],
            '        if type(self).__name__ == %r:' % s['name'],
            '            LOG.append([%r, {n: getattr(self, n) for n in %r}, '
            '0])' % (s['name'], names),
            '        self.exit_condition = lambda simu: LOG[-1][2] >= %d'
            % s['steps'],
            '    def update(self):',
            '        LOG[-1][2] += 1']
    return '\n'.join(out) + '\n'


HEAD = ('from traitlets import Int, Float, Bool, Unicode, Enum\n'
        'from crowddynamics.simulation.multiagent import '
        'MultiAgentSimulation\nfrom tool_base import LOG\n')
POOL = ['Outdoor', 'Hall', 'hall', 'Room2', 'My_Sim', 'Exit', 'Walk']


def commands(case):
    sims = case['sims']
    files = {}
    for s in sims:
        files.setdefault(s['file'], []).append(sim_source(s))
    args = ['run']
    num = 1
    if case['num'] is not None:
        num = case['num']
        args += ['--num', str(num)]
    if case['loglevel']:
        args += ['--loglevel', case['loglevel']]
    want, valid, ran = [], True, set()
    for k, given in case['calls']:
        s = sims[k]
        args.append(s['name'])
        vals = {}
        for (n, o), g in zip(s['options'], given):
            v = o['default']
            if g:
                if o['kind'] == 'bool':
                    v = not v
                    args.append('--' + n)
                else:
                    v = o['value']
                    args += ['--%s=%s' % (n, v)] if case['eq'] else [
                        '--' + n, str(v)]
                if o['kind'] == 'int' and (
                        (o['min'] is not None and v < o['min']) or
                        (o['max'] is not None and v > o['max'])):
                    valid = False
            vals[n] = v
        ran.add(s['name'])
        want += [[s['name'], vals, s['steps']]] * num
    with Scratch() as d:
        os.chdir(d)
        for f, srcs in files.items():
            write(os.path.join(d, f), HEAD + '\n'.join(srcs))
        for n in case['noise']:
            write(os.path.join(d, n), {
                'notes.txt': 'class Walk(MultiAgentSimulation)',
                'empty.py': '', 'data.npy': 'noise',
                'plain.py': 'class Plain(object): pass\nn = 3\n'}[n])
        runner = CliRunner()
        r = runner.invoke(cli.main, ['list'])
        check(r.exit_code == 0, 'list failed: %r', r.exception)
        listed = [n for n in POOL + ['S%d' % k for k in range(20)]
                  if re.search(r"\b%s\b" % n, r.output)]
        check(sorted(listed) == sorted(s['name'] for s in sims),
              'list shows %r, there are %r', r.output,
              [s['name'] for s in sims])
        for _ in range(2 if case['again'] else 1):
            del TOOL.LOG[:]
            r = runner.invoke(cli.main, args)
            log = [list(x) for x in TOOL.LOG]
            check((r.exit_code == 0) == valid, '%r: exit code %r, %s %r',
                  args, r.exit_code, r.output, r.exception)
            if not valid:
                continue
            check(len(log) == len(want) and all(
                a[0] == b[0] and a[2] == b[2] and a[1].keys() == b[1].keys()
                and all(same_value(a[1][n], b[1][n]) for n in b[1])
                for a, b in zip(log, want)),
                '%r ran %r, expected %r', args, log, want)
        del TOOL.LOG[:]
        r = runner.invoke(cli.main, ['run', 'Nowhere'])
        check(r.exit_code != 0 and not TOOL.LOG, 'unknown simulation ran')
        r = runner.invoke(cli.main, ['run', '--help'])
        check(r.exit_code == 0 and all(re.search(
            r"(?m)^ +%s\b" % s['name'], r.output) for s in sims),
            'run --help: %r %r', r.output, r.exception)
        check(os.getcwd() == d, 'left in %r', os.getcwd())
    return valid and num > 0 and len(ran) > 1, [
        'valid' if valid else 'refused', '%d calls' % len(case['calls'])]


def concat(case):
    with Scratch() as d:
        where = os.path.join(d, 'sub') if case['where'] else d
        if where != d:
            os.makedirs(where)
        rows = []

        def record(name, chunks):
            g = save_npy(where, name)
            g.send(None)
            for c in chunks:
                for k, row in enumerate(c):
                    g.send(np.array([row]))
                    g.send(k == len(c) - 1)
            g.close()

        record(case['base'], case['chunks'])
        if case['other']:
            record(case['base'] + '_other', [[[9.0, 9.0]]])
        want = np.array([row for c in case['chunks'] for row in c])
        os.chdir(d)
        args = ['concat_npy'] if 'concat_npy' in cli.main.commands else [
            'concat-npy']
        if case['where']:
            args += ['-d' if case['short'] else '--directory',
                     'sub' if case['where'] == 'sub' else where]
        args += ['-n' if case['short'] else '--basename', case['base']]
        before = sorted(os.listdir(where))
        for _ in range(2 if case['twice'] else 1):
            r = CliRunner().invoke(cli.main, args)
            check(r.exit_code == 0, '%r failed: %s %r', args, r.output,
                  r.exception)
            out = np.load(os.path.join(where, case['base'] + '.npy'))
            check(out.shape == want.shape and np.array_equal(out, want),
                  '%r wrote %r, recorded %r', args, out.tolist(),
                  want.tolist())
        new = sorted(set(os.listdir(where)) - set(before))
        check(new == [case['base'] + '.npy'] and
              not set(before) - set(os.listdir(where)),
              'files changed: %r', new)
        check(np.array_equal(load_npy_concatenated(where, case['base']),
                             want), 'recording changed')
    return len(case['chunks']) > 1, ['%d chunks' % len(case['chunks'])]


def wrapped(case):
    exc = {'ValueError': ValueError, 'KeyError': KeyError, None: None}[
        case['raises']]
    calls = []

    def func(*args, **kwargs):
        """Original text"""
        calls.append((args, kwargs))
        if exc:
            raise exc('x')
        return len(calls), args
    func.__name__ = str(case['name'])
    f = deprecated(func)
    check(f.__name__ == case['name'] and f.__doc__ == 'Original text',
          'wrapper is %r %r', f.__name__, f.__doc__)
    for k in range(case['calls']):
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter('always')
            try:
                r = f(*case['args'], **case['kwargs'])
            except (ValueError, KeyError) as e:
                check(type(e) is exc, 'raised %r', e)
            else:
                check(exc is None, 'exception lost')
                check(r == (k + 1, tuple(case['args'])), 'returned %r', r)
        warned = [w for w in log if issubclass(w.category,
                                               DeprecationWarning)]
        check(len(warned) == 1 and case['name'] in str(warned[0].message),
              'warnings %r', [str(w.message) for w in log])
    check(calls == [(tuple(case['args']), case['kwargs'])] * case['calls'],
          'calls %r', calls)
    # docstring
    subs, value = {}, {}
    for n, (kind, w) in case['subs'].items():
        subs[n] = {'str': w, 'callable': lambda c, w=w: w + c.__name__,
                   'name': lambda c: c.__name__}[kind]
        value[n] = {'str': w, 'callable': w + 'Doc', 'name': 'Doc'}[kind]
    doc, want = '', ''
    for kind, v in case['parts']:
        doc += {'text': v, 'sub': '%%(%s)s' % v, 'percent': '%%'}[kind]
        want += {'text': v, 'sub': value.get(v), 'percent': '%'}[kind]
    cls = type('Doc', (object,), {'__doc__': doc})
    got = interpolate_docstring(**subs)(cls)
    check(got is cls, 'decorated class is %r', got)
    check(got.__doc__ == want, 'docstring %r, expected %r', got.__doc__, want)
    return bool(case['args'] or case['kwargs']) and bool(case['parts']), []


modules, wrappers = module, wrapped
