"""Runs single cases against the code in /repo. One JSON request per line on
stdin, one JSON answer per line on the original stdout."""
import importlib
import json
import os
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')


def setup():
    paths = [HERE, os.path.join(HERE, 'stubs')]
    if '__pypy__' in sys.builtin_module_names:
        paths.insert(0, os.path.join(HERE, 'stubs_pypy'))
    sys.path[:] = paths + [REPO] + [
        p for p in sys.path if p not in ('', HERE, REPO)]
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    import collections
    import collections.abc
    for n in ('Callable Iterable MutableSequence Mapping Collection '
              'Generator').split():
        if not hasattr(collections, n):
            setattr(collections, n, getattr(collections.abc, n))
    import logging
    logging.disable(logging.CRITICAL)
    import numpy as np
    np.seterr(all='ignore')


def main():
    out = os.fdopen(os.dup(1), 'w', encoding='utf-8')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = open(os.devnull, 'w')
    setup()
    import vlib
    import numpy as np
    from _stubmissing import StubMissing
    mods = {}
    home = os.getcwd()
    for line in sys.stdin:
        req = json.loads(line)
        res = {'ok': True, 'nontrivial': False, 'labels': []}
        try:
            if os.getcwd() != home:
                os.chdir(home)
        except OSError:
            os.chdir(home)
        np.random.seed(12345)
        try:
            name = req['module']
            if name not in mods:
                mods[name] = importlib.import_module('execs.' + name)
            fn = getattr(mods[name], req['test'])
            r = fn(req['case'])
            if r is not None:
                res['nontrivial'] = bool(r[0])
                res['labels'] = [str(x) for x in r[1]]
        except vlib.Violation as e:
            res.update(ok=False, kind='violation', msg=str(e)[:2000],
                       tag=e.tag)
        except vlib.HarnessError as e:
            res.update(ok=False, kind='harness', msg=traceback.format_exc())
        except StubMissing as e:
            res.update(ok=False, kind='harness', msg=traceback.format_exc())
        except KeyboardInterrupt:
            raise
        except BaseException as e:
            # A valid input must not make the code (or the reading of its
            # answer) blow up.
            tb = traceback.format_exc()
            res.update(ok=False, kind='violation', tag=None,
                       msg='%s: %s\n%s' % (type(e).__name__, e, tb[-1800:]))
        out.write(json.dumps(res) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
