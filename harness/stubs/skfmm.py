"""Stand-in for scikit-fmm: signed distance by the fast marching method
(first order upwind), sub-cell start from the zero contour."""
import heapq
import math

import numpy as np
from _stubmissing import module_getattr as _mg
__getattr__ = _mg('skfmm')


def distance(phi, dx=1.0, self_test=False, order=2, narrow=0.0, periodic=False):
    dx = float(dx)
    mask = np.ma.getmaskarray(phi)
    data = np.asarray(np.ma.getdata(phi), dtype=np.float64)
    n, m = data.shape
    P = data.tolist()
    M = mask.tolist()
    INF = float('inf')
    D = [[INF] * m for _ in range(n)]
    done = [[False] * m for _ in range(n)]
    front = []
    for i in range(n):
        for j in range(m):
            if M[i][j]:
                continue
            if P[i][j] == 0:
                D[i][j] = 0.0
                done[i][j] = True
                front.append((i, j))
                continue
            inv = 0.0
            hit = False
            for ax in ((1, 0), (0, 1)):
                best = INF
                for s in (1, -1):
                    a, b = i + s * ax[0], j + s * ax[1]
                    if 0 <= a < n and 0 <= b < m and not M[a][b] and \
                            P[a][b] * P[i][j] < 0:
                        best = min(best, dx * P[i][j] / (P[i][j] - P[a][b]))
                if best < INF:
                    hit = True
                    inv += 1.0 / best ** 2
            if hit:
                D[i][j] = 1.0 / math.sqrt(inv)
                done[i][j] = True
                front.append((i, j))
    if not front:
        raise ValueError('the array phi contains no zero contour '
                         '(no zero level set)')
    heap = []

    def solve(i, j):
        vals = []
        for ax in ((1, 0), (0, 1)):
            best = INF
            for s in (1, -1):
                a, b = i + s * ax[0], j + s * ax[1]
                if 0 <= a < n and 0 <= b < m and done[a][b]:
                    best = min(best, D[a][b])
            if best < INF:
                vals.append(best)
        if len(vals) == 1 or abs(vals[0] - vals[1]) >= dx:
            return min(vals) + dx
        s = vals[0] + vals[1]
        q = 2 * dx * dx - (vals[0] - vals[1]) ** 2
        return (s + math.sqrt(q)) / 2

    def touch(i, j):
        for a, b in ((i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1)):
            if 0 <= a < n and 0 <= b < m and not M[a][b] and not done[a][b]:
                d = solve(a, b)
                if d < D[a][b]:
                    D[a][b] = d
                    heapq.heappush(heap, (d, a, b))
    for i, j in front:
        touch(i, j)
    while heap:
        d, i, j = heapq.heappop(heap)
        if done[i][j] or d > D[i][j]:
            continue
        done[i][j] = True
        touch(i, j)
    out = np.array(D)
    bad = ~np.isfinite(out)
    out[bad] = 0.0
    out = np.where(data < 0, -out, out)
    if bad.any():
        return np.ma.MaskedArray(out, bad)
    return out
