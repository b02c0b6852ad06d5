import csv
import json
import os
import shutil
import tempfile

import numpy as np

from crowddynamics.io import save_npy, load_npy, load_npy_concatenated, \
    save_csv, save_geometry_json, load_geometry_json, find_npy_files
from vlib import check, TRUTH

STRUCT = np.dtype([('position', np.float64, 2), ('mass', np.float64),
                   ('active', np.bool_), ('target', np.int64)])


class Scratch(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='io')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def build(kind, rows):
    if kind == 'struct':
        a = np.zeros(len(rows), dtype=STRUCT)
        for k, r in enumerate(rows):
            a[k] = ((r[0], r[1]), r[2], bool(r[3]), int(r[3]))
        return a
    dt = {'f8': np.float64, 'i8': np.int64, 'b1': np.bool_,
          'f4': np.float32}[kind]
    if kind in ('i8', 'b1'):
        rows = [[int(v) for v in r] for r in rows]
    return np.array(rows, dtype=dt)


def same_array(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.dtype == b.dtype and a.shape == b.shape and \
        a.tobytes() == b.tobytes()


def npy_history(case):
    """Interleaved recorders, each against the list of chunks it dumped."""
    with Scratch() as d:
        dirs = [d, os.path.join(d, 'other')]
        os.makedirs(dirs[1])
        # two directories side by side, neither inside the other
        os.makedirs(os.path.join(d, 'x'))
        dirs = [os.path.join(d, 'x'), os.path.join(d, 'other')]
        recs = []
        for name, dd, kind in case['savers']:
            g = save_npy(dirs[dd], name)
            g.send(None)
            recs.append({'gen': g, 'name': name, 'dir': dirs[dd],
                         'kind': kind, 'chunks': [], 'buf': [], 'live': None})
        dumps = multi = 0
        for who, rows, dump, mode in case['ops']:
            r = recs[who % len(recs)]
            data = build(r['kind'], rows)
            if mode == 'live' and r['live'] is not None and \
                    r['live'].shape == data.shape:
                # the caller keeps one array and updates it in place
                r['live'][...] = data
                data = r['live']
            else:
                r['live'] = data
            snapshot = data.copy()
            r['gen'].send(data)
            if r['buf'] and r['buf'][-1].shape != snapshot.shape:
                pass
            r['buf'].append(snapshot)
            r['gen'].send(TRUTH[case.get('truth')](dump))
            if dump:
                dumps += 1
                multi += len(r['buf']) > 1
                r['chunks'].append(np.vstack(r['buf']))
                r['buf'] = []
        for name in case['noise']:
            for dd in dirs:
                with open(os.path.join(dd, name), 'wb') as f:
                    f.write(b'noise')
        for r in recs:
            got = list(load_npy(r['dir'], r['name']))
            check(len(got) == len(r['chunks']),
                  '%d chunks were dumped as %r, %d are loaded',
                  len(r['chunks']), r['name'], len(got))
            for k, (a, b) in enumerate(zip(got, r['chunks'])):
                check(same_array(a, b), 'chunk %d of %r reads back as %r, '
                      'recorded %r', k, r['name'], a.tolist(), b.tolist())
            idx = sorted(i for i, _ in find_npy_files(r['dir'], r['name']))
            check(idx == list(range(len(r['chunks']))),
                  'chunk numbers of %r are %r', r['name'], idx)
            if r['chunks']:
                allof = load_npy_concatenated(r['dir'], r['name'])
                check(same_array(allof, np.vstack(r['chunks'])),
                      'concatenation of %r differs', r['name'])
        for r in recs:
            r['gen'].close()
        labels = [r['kind'] for r in recs]
        if max(len(r['chunks']) for r in recs) > 10:
            labels.append('over10chunks')
        if len(recs) > 1:
            labels.append('interleaved')
        return dumps > 1 or multi > 0, labels


def npy_long(case):
    """A long recording: chunks in order, each with all that was sent since
    the dump before."""
    with Scratch() as d:
        g = save_npy(d, case['name'])
        g.send(None)
        live = np.zeros((case['rows'], 2))
        k, chunks = 0, []
        for sent, times in case['runs']:
            for _ in range(times):
                first = k
                for i in range(sent):
                    if not case['live']:
                        live = live.copy()
                    live[...] = k
                    k += 1
                    g.send(live)
                    g.send(i == sent - 1)
                chunks.append([first, k])
        g.close()
        got = list(load_npy(d, case['name']))
        check(len(got) == len(chunks), '%d chunks were dumped, %d are loaded',
              len(chunks), len(got))
        for c, (a, b) in zip(got, chunks):
            want = np.repeat(np.arange(a, b), case['rows'])
            check(c.shape == (len(want), 2) and np.all(c[:, 0] == want) and
                  np.all(c[:, 1] == want), 'a chunk holds %r, recorded were '
                  '%d to %d', c[:, 0].tolist()[:400], a, b - 1)
        allof = load_npy_concatenated(d, case['name'])
        want = np.repeat(np.arange(k), case['rows'])
        check(np.all(allof[:, 0] == want), 'concatenation differs')
        longest = max(n for n, _ in case['runs'])
        return len(chunks) > 40 or longest > 40, [
            'chunks%d' % (len(chunks) // 100), 'long%d' % (longest // 100)]


def csv_history(case):
    """Rows on disk are exactly the rows recorded up to the last dump."""
    with Scratch() as d:
        g = save_csv(d, case['name'])
        g.send(None)
        path = os.path.join(d, case['name'] + '.csv')
        keys = case['keys']
        data = {}
        rows, written = [], 0
        for k, (values, dump) in enumerate(case['rows']):
            if case['live']:
                for kk, v in zip(keys, values):
                    data[kk] = v
            else:
                data = dict(zip(keys, values))
            rows.append(['' if v is None else
                         (v if isinstance(v, str) else repr(v))
                         for v in values])
            g.send(data)
            g.send(TRUTH[case.get('truth')](dump))
            if dump:
                written = k + 1
                check_csv(path, keys, rows[:written])
            elif written:
                check_csv(path, keys, rows[:written])
            else:
                check(not os.path.exists(path) or
                      os.path.getsize(path) == 0,
                      'rows on disk before any dump was asked for')
        g.close()
        check_csv(path, keys, rows[:written])
        n = sum(1 for _, dump in case['rows'] if dump)
        return n > 1 or written > 1, ['dumps%d' % min(n, 5)] + (
            ['live'] if case['live'] else [])


def check_csv(path, keys, rows):
    if not rows:
        check(not os.path.exists(path) or os.path.getsize(path) == 0,
              'rows on disk that were never dumped')
        return
    check(os.path.exists(path), 'no file after a dump')
    with open(path, newline='') as f:
        got = list(csv.reader(f))
    check(got[:1] == [list(keys)], 'header %r, expected %r', got[:1], keys)
    check(got[1:] == rows, 'rows on disk %r, recorded %r', got[1:], rows)


def geom(spec):
    from shapely import geometry as G
    t, c = spec
    if t == 'none':
        return None
    if t == 'list':
        return [geom(s) for s in c]
    if t == 'dict':
        return dict((k, geom(s)) for k, s in c)
    if t == 'Polygon':
        return G.Polygon(c[0], c[1:])
    if t == 'MultiPolygon':
        return G.MultiPolygon([G.Polygon(p[0], p[1:]) for p in c])
    if t == 'GeometryCollection':
        return G.GeometryCollection([geom(s) for s in c])
    return getattr(G, t)(c)


def flat(g):
    """Type and coordinates; a multi-part geometry may come back as the list
    of its parts."""
    from shapely.geometry import mapping
    from shapely.geometry.base import BaseMultipartGeometry
    if g is None:
        return None
    if isinstance(g, dict):
        return {k: flat(v) for k, v in g.items()}
    if isinstance(g, (list, tuple, BaseMultipartGeometry)):
        return [flat(x) for x in g]
    return json.loads(json.dumps(mapping(g)))


def geometry_roundtrip(case):
    from shapely.geometry.base import BaseGeometry
    with Scratch() as d:
        path = os.path.join(d, 'geometry.json')
        last = None
        for fields in case['saves']:
            last = dict((name, geom(s)) for name, s in fields)
            save_geometry_json(path, last)
        got = load_geometry_json(path)
        check(sorted(got) == sorted(last), 'names %r, saved %r',
              sorted(got), sorted(last))
        for k in last:
            check(flat(got[k]) == flat(last[k]), '%s loads as %r, saved %r',
                  k, flat(got[k]), flat(last[k]))
            if isinstance(last[k], BaseGeometry):
                v = got[k]
                check(isinstance(v, (BaseGeometry, list)) and
                      all(isinstance(p, BaseGeometry) for p in
                          (v if isinstance(v, list) else [v])),
                      '%s does not load as geometry: %r', k, v)
        with open(path) as f:
            json.load(f)
    kinds = set(s[0] for fs in case['saves'] for _, s in fs)
    return bool(kinds - {'none'}), kinds
