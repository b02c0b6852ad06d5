import functools
import multiprocessing
import queue as queue_module
import signal

import crowddynamics.exceptions as E
from crowddynamics.simulation.base import SimulationBase
from crowddynamics.simulation.logic import LogicNode
from crowddynamics.simulation.multiagent import MultiAgentSimulation, \
    MultiAgentProcess
from vlib import check, raises


class Node(LogicNode):
    log = None

    def update(self):
        self.log.append(self)


class Model(object):
    """Parent and ordered children of every node; order of the children of a
    parent is only known while nothing was injected there."""
    def __init__(self):
        self.nodes, self.parent, self.children, self.free = [], {}, {}, set()

    def new(self, n):
        self.nodes.append(n)
        self.parent[n] = None
        self.children[n] = []

    def set(self, n, p):
        old = self.parent[n]
        if old is p:
            if p is not None:
                self.free.add(p)
            return
        if old is not None:
            self.children[old].remove(n)
        self.parent[n] = p
        if p is not None:
            self.children[p].append(n)

    def above(self, n):
        out = []
        while n is not None:
            out.append(n)
            n = self.parent[n]
        return out

    def below(self, n):
        out = [n]
        for c in self.children[n]:
            out += self.below(c)
        return out


def compare(m):
    for n in m.nodes:
        check(n.parent is m.parent[n], 'the parent of %r is %r, expected %r',
              n, n.parent, m.parent[n])
        got, want = list(n.children), m.children[n]
        check(len(got) == len(want) and all(any(g is w for w in want)
                                            for g in got),
              'the children of %r are %r, expected %r', n, got, want)
        if n not in m.free:
            check(all(g is w for g, w in zip(got, want)),
                  'the children of %r are ordered %r, expected %r', n, got,
                  want)


def post(n):
    out = []
    for c in n.children:
        out += post(c)
    return out + [n]


def tree_edits(case):
    simu = MultiAgentSimulation()
    m, log, labels = Model(), [], set()
    hard = False
    count = [0]

    def make(name):
        count[0] += 1
        if case['unique'] and name:
            name += str(count[0])
        n = Node(simu, name=name) if name else Node(simu)
        check(n.name == (name or 'Node'), 'the node is named %r, expected %r',
              n.name, name or 'Node')
        n.log = log
        m.new(n)
        return n

    for name in case['names']:
        make(name)

    def node(i):
        return m.nodes[i % len(m.nodes)]

    def other(a, what):
        """The node to inject at a: a new one, or one from elsewhere."""
        if isinstance(what, str):
            return make(what)
        n = node(what)
        if n in m.above(a) or a in m.above(n):
            return None
        labels.add('moved')
        return n

    for op in case['ops']:
        k = op[0]
        if k == 'new':
            make(op[1])
        elif k in ('add', 'shift'):
            p, c = node(op[1]), node(op[2])
            if c in m.above(p):
                continue
            r = p.add_children(c) if k == 'add' else p << c
            check(r is p, '%s did not return the node it was called on', k)
            m.set(c, p)
        elif k == 'shiftn':
            p = node(op[1])
            cs = []
            for i in op[2]:
                c = node(i)
                if c not in m.above(p) and c not in cs:
                    cs.append(c)
            r = p << (tuple(cs) if op[3] == 'tuple' else cs)
            check(r is p, '<< did not return the node it was called on')
            for c in cs:
                m.set(c, p)
        elif k == 'before':
            a = node(op[1])
            n = other(a, op[2])
            if n is None:
                continue
            p = m.parent[a]
            hard = hard or (p is not None and m.children[a])
            a.inject_before(n)
            if p is not None:
                m.free.add(p)
            m.set(a, n)
            m.set(n, p)
        elif k == 'after':
            a = node(op[1])
            n = other(a, op[2])
            if n is None:
                continue
            hard = hard or (m.parent[a] is not None and m.children[a])
            if len(m.children[a]) > 1 or m.children[n]:
                m.free.add(n)
            a.inject_after(n)
            for c in list(m.children[a]):
                m.set(c, n)
            m.set(n, a)
        elif k == 'get':
            a, name = node(op[1]), op[2]
            tree = m.below(m.above(a)[-1])
            if case['unique'] and op[1] % 2:
                name = node(op[1] // 2).name
            hits = [n for n in tree if n.name == name]
            if hits:
                got = a[name]
                check(any(got is h for h in hits),
                      'looking up %r from %r gave %r', name, a, got)
                labels.add('found')
            else:
                check(raises(KeyError, lambda: a[name]) is not None,
                      'looking up the missing %r raised no KeyError', name)
                labels.add('missing')
        elif k == 'run':
            a = node(op[1])
            del log[:]
            simu.logic = a
            n0 = simu.data['iterations']
            simu.update()
            check(simu.data['iterations'] == n0 + 1,
                  'iterations went from %r to %r', n0,
                  simu.data['iterations'])
            root = m.above(a)[-1]
            want = post(root)
            check(len(log) == len(want) and
                  all(x is y for x, y in zip(log, want)),
                  'update evaluated %r, expected %r', log, want)
            labels.add('run')
        labels.add(k)
        compare(m)
    depth = max(len(m.above(n)) for n in m.nodes)
    hard = bool(hard) or depth > 2
    return hard, sorted(labels) + ['depth%d' % min(depth, 5)]


class Count(LogicNode):
    hook = None
    n = 0

    def update(self):
        if self.hook is not None:
            self.hook(self)
        self.n += 1


def build(nodes, at=0):
    simu = MultiAgentSimulation()
    ns = [Count(simu, name='n%d' % k) for k in range(nodes)]
    for k in range(1, nodes):
        ns[(k - 1) // 2] << ns[k]
    # any node of the tree may be kept as the logic
    simu.logic = ns[at % nodes]
    # evaluation order
    return simu, post(ns[0])


class At(object):
    def __init__(self, k):
        self.k = k

    def __call__(self, simulation):
        return simulation.data['iterations'] >= self.k


class Bail(Exception):
    pass


def run_loop(case):
    k = case['k']
    kind = case['kind']
    if kind == 'base':
        class Plain(SimulationBase):
            n = 0

            def update(self):
                self.n += 1
        s = Plain(exit_condition=lambda s: s.n >= k)
        s.run()
        check(s.n == k, '%d updates, expected %d', s.n, k)
        s.run()
        check(s.n == k, 'a run that is over made updates')
        return k > 0, [kind]
    simu, ns = build(case['nodes'], case['at'])
    check(simu.data['iterations'] == 0, 'iterations do not start at zero')
    if kind == 'none':
        def hook(node):
            if node.n == k:
                raise Bail
        ns[0].hook = hook
        check(raises(Bail, simu.run) is not None, 'the run ended on its own')
    else:
        calls = []
        if kind == 'iterations':
            cond = lambda s: s.data['iterations'] >= k
        elif kind == 'schedule':
            def cond(s):
                calls.append(s)
                return len(calls) > k
        elif kind == 'object':
            cond = At(k)
        elif kind == 'partial':
            cond = functools.partial(
                lambda s, limit: s.data['iterations'] >= limit, limit=k)
        elif kind == 'switch':
            # somebody changes their mind during the run
            first = At(k + 5 if case['again'] % 2 else min(k, 1))

            def change(node):
                if node.n == min(case['at'] if case['again'] % 2 else 0,
                                 k - 1):
                    simu.exit_condition = At(k)
            ns[0].hook = change
            cond = first if k else At(0)
        else:
            def tick(node):
                simu.data['time_tot'] += 0.5
            ns[0].hook = tick
            cond = lambda s: s.data['time_tot'] >= 0.5 * k
        simu.exit_condition = cond
        simu.run()
        check(all(c is simu for c in calls),
              'the exit condition was asked about something else')
    for n in ns:
        check(n.n == k, 'node %r was updated %d times, expected %d', n, n.n,
              k)
    check(simu.data['iterations'] == k, 'iterations is %r, expected %d',
          simu.data['iterations'], k)
    if kind in ('iterations', 'object', 'time'):
        simu.run()
        check(simu.data['iterations'] == k, 'a run that is over made updates')
        if case['again']:
            ns[0].hook = None
            simu.exit_condition = lambda s: \
                s.data['iterations'] >= k + case['again']
            simu.run()
            check(simu.data['iterations'] == k + case['again'],
                  'a second run stopped at %r, expected %d',
                  simu.data['iterations'], k + case['again'])
    return k > 0, [kind]


class Queue(object):
    def __init__(self):
        self.items = []

    def put(self, item, *args, **kwargs):
        self.items.append(item)

    put_nowait = put


def error(name):
    cls = getattr(E, name, None)
    if not (isinstance(cls, type) and
            issubclass(cls, E.CrowdDynamicsException)):
        cls = E.CrowdDynamicsException
    return cls


def process_run(case):
    simu, ns = build(case['nodes'], case['at'])
    if case['own_exit']:
        simu.exit_condition = lambda s: True
    q = Queue()
    p = MultiAgentProcess(simu, q)
    k, end = case['k'], case['end']
    w = case['where'] % len(ns)
    cls = error(case['error'])

    def hook(node):
        if node.n == k - 1 and end in ('stop', 'both'):
            for _ in range(case['stops']):
                p.stop()
        if node.n == k - 1 and end in ('error', 'both'):
            raise cls('broken')
    ns[w].hook = hook
    if k == 0:
        p.stop()
    p.run()
    done = k if end == 'stop' or k == 0 else k - 1
    check(simu.data['iterations'] == done, '%r iterations, expected %d',
          simu.data['iterations'], done)
    for i, n in enumerate(ns):
        want = done + (1 if done < k and i < w else 0)
        check(n.n == want, 'node %r was updated %d times, expected %d', n,
              n.n, want)
    check(len(q.items) == 1 and q.items[0] is MultiAgentProcess.EndProcess,
          'the queue holds %r, expected one end marker', q.items)
    return k > 0 and w > 0, [end if k else 'before', 'k%d' % min(k, 3)]


def process_forked(case):
    q = multiprocessing.Queue()
    simu, ns = build(case['nodes'])
    p = MultiAgentProcess(simu, q)
    k = case['k']
    by_parent = case['parent'] and case['end'] == 'stop'

    def hook(node):
        q.put(node.n)
        if by_parent:
            return
        if node.n == k:
            if case['end'] == 'error':
                raise E.CrowdDynamicsException('broken')
            p.stop()
    ns[-1].hook = hook
    got = []
    p.daemon = True
    p.start()
    try:
        ended = 0
        while True:
            item = q.get(timeout=20)
            if item is MultiAgentProcess.EndProcess:
                ended += 1
                break
            got.append(item)
            if by_parent and item == k:
                p.stop()
        p.join(20)
        check(not p.is_alive(), 'the process did not end')
        try:
            extra = q.get(timeout=0.02)
            check(False, 'after the end marker came %r', extra)
        except queue_module.Empty:
            pass
    except queue_module.Empty:
        check(False, 'no end marker came after %r', got)
    finally:
        if p.is_alive():
            p.terminate()
            p.join()
        q.close()
    check(got == list(range(len(got))), 'updates came as %r', got)
    if by_parent:
        check(len(got) > k, '%d updates, expected more than %d', len(got), k)
    else:
        check(len(got) == k + 1, '%d updates, expected %d', len(got), k + 1)
    return True, [case['end'], 'parent' if by_parent else 'child']
