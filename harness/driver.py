"""Property driver: Hypothesis generates cases as plain data, a worker
interpreter executes them against /repo, failures are shrunk and saved.

    python3-vt harness/driver.py C01            # VERIF_TIER, VERIF_SEED
    python3-vt harness/driver.py --replay FILE
"""
import argparse
import ctypes
import hashlib
import importlib
import json
import os
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
PYPY = '/opt/venv/bin/python'
CPY = sys.executable


LIBC = ctypes.CDLL(None)


def ends_with_parent():
    LIBC.prctl(1, signal.SIGKILL)        # PR_SET_PDEATHSIG


def confined():
    ends_with_parent()
    resource.setrlimit(resource.RLIMIT_AS, (7 << 29, 7 << 29))


class HarnessFault(Exception):
    pass


class Worker(object):
    def __init__(self, interp, scratch):
        self.interp, self.scratch = interp, scratch
        self.proc = None
        self.buf = b''

    def start(self):
        self.stop()
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                   VERIF_REPO=REPO, VERIF_PY=CPY, OMP_NUM_THREADS='1',
                   OPENBLAS_NUM_THREADS='1', TMPDIR=self.scratch,
                   HOME=self.scratch)
        env.pop('PYTHONPATH', None)
        self.dir = tempfile.mkdtemp(prefix='w', dir=self.scratch)
        self.err = open(os.path.join(self.scratch, 'stderr.log'), 'ab')
        self.proc = subprocess.Popen(
            [PYPY if self.interp == 'pypy' else CPY,
             os.path.join(HERE, 'worker.py')],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
            cwd=self.dir, env=env, start_new_session=True,
            preexec_fn=confined)
        self.buf = b''

    def stop(self):
        if self.proc is not None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                pass
            for f in (self.proc.stdin, self.proc.stdout):
                try:
                    f.close()
                except OSError:
                    pass
            self.proc.wait()
            self.err.close()
            shutil.rmtree(self.dir, ignore_errors=True)
            self.proc = None

    def _ask(self, req, timeout):
        if self.proc is None or self.proc.poll() is not None:
            self.start()
            timeout += 60
        try:
            self.proc.stdin.write((json.dumps(req) + '\n').encode())
            self.proc.stdin.flush()
        except OSError:
            return 'died'
        end = time.monotonic() + timeout
        fd = self.proc.stdout.fileno()
        while b'\n' not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                return 'timeout'
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                return 'timeout'
            chunk = os.read(fd, 1 << 16)
            if not chunk:
                return 'died'
            self.buf += chunk
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line.decode())

    def run(self, module, test, case, timeout):
        req = {'module': module, 'test': test, 'case': case}
        res = self._ask(req, timeout)
        if isinstance(res, dict):
            return res
        self.stop()
        again = self._ask(req, min(3 * timeout, 240))
        if isinstance(again, dict):
            return again
        self.stop()
        what = {'timeout': 'no answer within %d s, twice (cases of this kind '
                           'take milliseconds)' % timeout,
                'died': 'the interpreter died, twice'}[again]
        return {'ok': False, 'kind': 'violation', 'tag': again, 'msg': what}


class Test(object):
    """name: function in execs/<module>.py; strategy: plain-data cases."""
    def __init__(self, name, strategy, quick=400, thorough=None, interp='pypy',
                 rule='', examples=(), timeout=60):
        self.name, self.strategy = name, strategy
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25
        self.interp, self.rule, self.timeout = interp, rule, timeout
        self.examples = list(examples)


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    with open(p) as f:
        return json.load(f)['findings']


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def run_shard(prop, tier, seed, shard, of, budget, outfile):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    import registry
    tests = registry.PROPS[prop]
    known = [k for k in load_known()
             if k['property'] == prop and k['status'] == 'known']
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    out = {'evaluations': 0, 'nontrivial': [], 'labels': {}, 'samples': [],
           'per_test': {}, 'failures': [], 'known_hits': {}, 'error': None,
           'skipped': 0}
    workers = {}
    t0 = time.monotonic()
    nontrivial = set()
    try:
        for ti, (module, test) in enumerate(tests):
            w = workers.setdefault(test.interp, Worker(test.interp, scratch))
            n = test.quick if tier == 'quick' else test.thorough
            n = max(1, (n + of - 1) // of)
            stat = out['per_test'].setdefault(
                test.name, {'evaluations': 0, 'nontrivial': 0})
            # each test gets an equal part of the time that is left
            left = max(1.0, budget - (time.monotonic() - t0))
            deadline = time.monotonic() + left / (len(tests) - ti)
            state = {'fail': None, 'failtime': None, 'cache': {}}

            def judge(case, final=False):
                key = digest(case)
                if key in state['cache']:
                    return state['cache'][key]
                now = time.monotonic()
                if state['fail'] is None and now > deadline:
                    out['skipped'] += 1
                    return None
                if state['fail'] is not None and now > state['failtime'] + (
                        45 if tier == 'quick' else 120):
                    return None      # shrinking budget used up
                res = w.run(module, test.name, case, test.timeout)
                out['evaluations'] += 1
                stat['evaluations'] += 1
                if res['ok']:
                    for l in res['labels']:
                        k = test.name + ':' + l
                        out['labels'][k] = out['labels'].get(k, 0) + 1
                    if res['nontrivial'] and key not in nontrivial:
                        nontrivial.add(key)
                        stat['nontrivial'] += 1
                        if stat['nontrivial'] in (1, 12):
                            out['samples'].append(
                                {'test': test.name, 'case': case,
                                 'labels': res['labels']})
                    return None
                if res['kind'] == 'harness':
                    raise HarnessFault('%s: %s\ncase: %s' % (
                        test.name, res['msg'], json.dumps(case)[:3000]))
                for k in known:
                    if k['test'] == test.name and res.get('tag') and \
                            k['tag'] == res['tag']:
                        out['known_hits'][k['id']] = \
                            out['known_hits'].get(k['id'], 0) + 1
                        return None
                if state['failtime'] is None:
                    state['failtime'] = time.monotonic()
                    if res.get('tag') == 'timeout':
                        # every smaller hang would cost as much again
                        state['failtime'] = -1e9
                state['cache'][key] = res
                size = len(json.dumps(case))
                if state['fail'] is None or size <= state['fail'][0]:
                    state['fail'] = (size, case, res)
                return res

            class Failed(Exception):
                pass

            if shard == 0:
                for case in test.examples:
                    judge(case)
                    if state['fail']:
                        break
            if state['fail'] is None:
                def body(case):
                    res = judge(case)
                    if res is not None:
                        raise Failed(res['msg'])
                fn = given(test.strategy)(body)
                fn = settings(
                    max_examples=n, database=None, deadline=None,
                    derandomize=False, print_blob=False,
                    report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck),
                    phases=(Phase.generate, Phase.shrink))(fn)
                sd = int(hashlib.sha1(('%d/%s/%s/%d' % (
                    seed, prop, test.name, shard)).encode()).hexdigest()[:12],
                    16)
                fn = hypothesis.seed(sd)(fn)
                try:
                    fn()
                except Failed:
                    pass
                except hypothesis.errors.Flaky:
                    if state['fail'] is None:
                        raise
            if state['fail'] is not None:
                _, case, res = state['fail']
                out['failures'].append({
                    'property': prop, 'module': module, 'test': test.name,
                    'interp': test.interp, 'case': case, 'msg': res['msg'],
                    'timeout': test.timeout})
                break
    except HarnessFault as e:
        out['error'] = str(e)
    except BaseException:
        out['error'] = traceback.format_exc()
    finally:
        for w in workers.values():
            w.stop()
        shutil.rmtree(scratch, ignore_errors=True)
    out['nontrivial'] = len(nontrivial)
    out['nontrivial_keys'] = sorted(k[:16] for k in nontrivial)
    with open(outfile, 'w') as f:
        json.dump(out, f)


def run_property(prop, tier, seed):
    import registry
    tests = registry.PROPS[prop]
    t0 = time.monotonic()
    of = int(os.environ.get('VERIF_SHARDS', '8'))
    budget = float(os.environ.get(
        'VERIF_BUDGET', '240' if tier == 'quick' else '3000'))
    tmp = tempfile.mkdtemp(prefix='verif-run-')
    procs = []
    try:
        for s in range(of):
            o = os.path.join(tmp, '%d.json' % s)
            procs.append((o, subprocess.Popen(
                [sys.executable, os.path.abspath(__file__), prop, '--shard',
                 str(s), '--of', str(of), '--tier', tier, '--seed', str(seed),
                 '--budget', str(budget), '--out', o],
                preexec_fn=ends_with_parent,
                env=dict(os.environ, PYTHONHASHSEED='0',
                         PYTHONDONTWRITEBYTECODE='1'))))
        outs = []
        for o, p in procs:
            p.wait()
            if os.path.exists(o):
                with open(o) as f:
                    outs.append(json.load(f))
            else:
                outs.append({'error': 'shard died (rc %s)' % p.returncode})
    finally:
        for o, p in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(tmp, ignore_errors=True)
    good = [o for o in outs if 'evaluations' in o]
    keys = set()
    labels, per, known_hits, samples, failures = {}, {}, {}, [], []
    for o in good:
        keys.update(o['nontrivial_keys'])
        for src, dst in ((o['labels'], labels), (o['known_hits'], known_hits)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        for k, v in o['per_test'].items():
            d = per.setdefault(k, {'evaluations': 0, 'nontrivial': 0})
            for a in d:
                d[a] += v[a]
        failures += o['failures']
    seen = {}
    for o in good:
        for s in o['samples']:
            if seen.get(s['test'], 0) < 2 and len(json.dumps(s)) < 6000:
                seen[s['test']] = seen.get(s['test'], 0) + 1
                samples.append(s)
    evid = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(o['evaluations'] for o in good),
            'distinct_nontrivial': len(keys),
            'rule': ' | '.join('%s: %s' % (t.name, t.rule) for _, t in tests),
            'samples': samples,
            'per_test': per,
            'labels': dict(sorted(labels.items())),
            'skipped_over_time_budget': sum(o['skipped'] for o in good),
            'known_finding_cases': known_hits,
        },
        'assumptions': registry.ASSUMPTIONS,
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': len(failures),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evid, f, indent=1)
    for k in load_known():
        if k['property'] == prop and k['status'] == 'known':
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    errors = [o['error'] for o in outs if o.get('error')]
    best = {}
    for f in failures:
        cur = best.get(f['test'])
        if cur is None or len(json.dumps(f['case'])) < \
                len(json.dumps(cur['case'])):
            best[f['test']] = f
    for f in best.values():
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s-%s.json' % (
            prop, f['test'], digest(f['case'])[:10]))
        with open(path, 'w') as h:
            json.dump(f, h, indent=1)
        print('%s %s: %s' % (prop, f['test'], f['msg']))
        print('  case: %s' % json.dumps(f['case'])[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if best:
        return 1
    if errors:
        sys.stderr.write('HARNESS ERROR (no verdict)\n' + errors[0] + '\n')
        return 2
    print('%s held: %d cases, %d distinct non-trivial, %.1f s' % (
        prop, evid['coverage']['evaluations'],
        evid['coverage']['distinct_nontrivial'], evid['wall_s']))
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    scratch = tempfile.mkdtemp(prefix='verif-replay-')
    w = Worker(r['interp'], scratch)
    try:
        res = w.run(r['module'], r['test'], r['case'], r.get('timeout', 60))
    finally:
        w.stop()
        shutil.rmtree(scratch, ignore_errors=True)
    print(json.dumps(res, indent=1))
    if res['ok']:
        return 0
    if res['kind'] == 'harness':
        return 2
    print('VIOLATION property=%s replay=%s' % (r['property'], path))
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    ap.add_argument('--shard', type=int)
    ap.add_argument('--of', type=int)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--out')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    if a.shard is not None:
        run_shard(a.prop, a.tier, a.seed, a.shard, a.of, a.budget, a.out)
        return 0
    return run_property(a.prop, a.tier, a.seed)


if __name__ == '__main__':
    sys.exit(main())
