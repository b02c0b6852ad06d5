from array import array
from fractions import Fraction
import math

import numpy as np
from sortedcontainers import SortedList

from crowddynamics.core.block_list import MutableBlockList
from vlib import check, raises

KINDS = {'list': list, 'sorted': SortedList, 'array': lambda: array('l')}


def cell(key, size):
    return tuple(math.floor(Fraction(k) / Fraction(size)) for k in key)


def as_key(key, form):
    if form == 'np':
        return np.array(key, dtype=np.float64)
    return list(key) if form == 'list' else tuple(key)


def history(case):
    """Any history of insertions and queries against a dictionary model."""
    size, kind, form = case['cell'], case['kind'], case['form']
    bl = MutableBlockList(size, KINDS[kind])
    model = []
    labels = set([kind, form])
    hits = 0
    for op in case['ops']:
        name, key = op[0], op[1]
        if name == 'set':
            bl[as_key(key, form)] = op[2]
            model.append((cell(key, size), op[2]))
        elif name == 'get':
            c = cell(key, size)
            want = [v for k, v in model if k == c]
            got = list(bl[as_key(key, form)])
            if kind == 'sorted':
                check(got == sorted(want), 'block of %r holds %r, expected %r',
                      key, got, sorted(want))
            else:
                check(got == want, 'block of %r holds %r, expected %r',
                      key, got, want)
            hits += bool(want)
        elif name == 'near':
            r = op[2]
            c = cell(key, size)
            rr = 1 if r is None else r
            want = sorted(v for k, v in model if all(
                abs(a - b) <= rr for a, b in zip(k, c)))
            k = as_key(key, form)
            res = bl.nearest(k) if r is None else bl.nearest(k, radius=r)
            got = sorted(res)
            check(got == want, 'nearest(%r, radius=%r) = %r, expected %r',
                  key, rr, got, want)
            if want and len(want) < len(model):
                hits += 1
            labels.add('radius%s' % rr)
        elif name == 'bad':
            e = raises(KeyError, lambda: bl[key])
            check(e is not None, 'key %r accepted', key)
            if len(op) > 2:
                def put():
                    bl[key] = 1
                check(raises(KeyError, put) is not None,
                      'key %r accepted on insertion', key)
            labels.add('bad')
    if any(k[0] < 0 for k, _ in model):
        labels.add('negative')
    return hits > 0, labels
