"""Stand-in for the cell_lists package (cell-linked lists).

Contract of the package: points are binned into square cells of the given
size; iter_nearest_neighbors yields every unordered pair of distinct points
that lie in the same or in adjacent cells exactly once.
"""
import numpy as np
from _stubmissing import module_getattr as _mg

__getattr__ = _mg('cell_lists')


def add_to_cells(points, cell_size):
    pts = np.asarray(points, dtype=np.float64)
    if len(pts) == 0:
        return (np.zeros(0, np.int64), np.zeros(1, np.int64),
                np.zeros(2, np.int64), np.ones(2, np.int64))
    idx = np.floor(pts / cell_size).astype(np.int64)
    lo = idx.min(axis=0)
    idx = idx - lo
    shape = idx.max(axis=0) + 1
    flat = idx[:, 0] * shape[1] + idx[:, 1]
    n = int(shape[0] * shape[1])
    if n > 4000000:
        raise MemoryError('cell grid too large: %d cells' % n)
    counts = np.bincount(flat, minlength=n).astype(np.int64)
    offset = np.zeros(n + 1, np.int64)
    offset[1:] = np.cumsum(counts)
    order = np.argsort(flat, kind='mergesort').astype(np.int64)
    return order, counts, offset, shape.astype(np.int64)


_HALF = ((0, 1), (1, -1), (1, 0), (1, 1))


class _Grid(object):
    def __init__(self, shape):
        self.shape = (int(shape[0]), int(shape[1]))


def neighboring_cells(grid_shape, *args):
    return _Grid(grid_shape)


def iter_nearest_neighbors(cell_indices, neigh_cells, points_indices,
                           cells_count, cells_offset):
    n0, n1 = neigh_cells.shape
    order = [int(i) for i in points_indices]
    counts = [int(c) for c in cells_count]
    offs = [int(o) for o in cells_offset]
    for cell in cell_indices:
        cell = int(cell)
        if not counts[cell]:
            continue
        here = order[offs[cell]:offs[cell] + counts[cell]]
        for a in range(len(here)):
            for b in range(a + 1, len(here)):
                yield here[a], here[b]
        i, j = divmod(cell, n1)
        for di, dj in _HALF:
            ii, jj = i + di, j + dj
            if 0 <= ii < n0 and 0 <= jj < n1:
                k = ii * n1 + jj
                if counts[k]:
                    for p in here:
                        for q in order[offs[k]:offs[k] + counts[k]]:
                            yield p, q


def iter_nearest_neighbors_multithreaded(*args):
    raise NotImplementedError
