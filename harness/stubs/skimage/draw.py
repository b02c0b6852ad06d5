"""Stand-in for skimage.draw: Bresenham lines, even-odd polygon fill."""
import numpy as np
from _stubmissing import module_getattr as _mg
__getattr__ = _mg('skimage.draw')


def line(r0, c0, r1, c1):
    r0, c0, r1, c1 = int(r0), int(c0), int(r1), int(c1)
    steep = 0
    r, c = r0, c0
    dr, dc = abs(r1 - r0), abs(c1 - c0)
    sc = 1 if (c1 - c) > 0 else -1
    sr = 1 if (r1 - r) > 0 else -1
    if dr > dc:
        steep = 1
        c, r = r, c
        dc, dr = dr, dc
        sc, sr = sr, sc
    d = (2 * dr) - dc
    rr, cc = np.zeros(dc + 1, dtype=np.intp), np.zeros(dc + 1, dtype=np.intp)
    for i in range(dc):
        if steep:
            rr[i], cc[i] = c, r
        else:
            rr[i], cc[i] = r, c
        while d >= 0:
            r = r + sr
            d = d - (2 * dc)
        c = c + sc
        d = d + (2 * dr)
    rr[dc], cc[dc] = r1, c1
    return rr, cc


def polygon(r, c, shape=None):
    r = [float(v) for v in np.atleast_1d(r)]
    c = [float(v) for v in np.atleast_1d(c)]
    import math
    n = len(r)
    minr, maxr = int(max(0, min(r))), int(math.ceil(max(r)))
    minc, maxc = int(max(0, min(c))), int(math.ceil(max(c)))
    if shape is not None:
        maxr, maxc = min(shape[0] - 1, maxr), min(shape[1] - 1, maxc)
    rr, cc = [], []
    for i in range(minr, maxr + 1):
        for j in range(minc, maxc + 1):
            inside = False
            on = False
            k = n - 1
            for q in range(n):
                r0, c0, r1, c1 = r[k], c[k], r[q], c[q]
                o = (r1 - r0) * (j - c0) - (c1 - c0) * (i - r0)
                if o == 0 and min(r0, r1) <= i <= max(r0, r1) and \
                        min(c0, c1) <= j <= max(c0, c1):
                    on = True
                    break
                if (r1 > i) != (r0 > i) and \
                        j < (c0 - c1) * (i - r1) / (r0 - r1) + c1:
                    inside = not inside
                k = q
            if inside or on:
                rr.append(i)
                cc.append(j)
    return np.array(rr, dtype=np.intp), np.array(cc, dtype=np.intp)


def polygon_perimeter(r, c, shape=None, clip=False):
    r = [int(round(float(v))) for v in np.atleast_1d(r)]
    c = [int(round(float(v))) for v in np.atleast_1d(c)]
    if r[0] != r[-1] or c[0] != c[-1]:
        r.append(r[0])
        c.append(c[0])
    rr, cc = [], []
    for i in range(len(r) - 1):
        a, b = line(r[i], c[i], r[i + 1], c[i + 1])
        rr.extend(a)
        cc.extend(b)
    rr, cc = np.array(rr, dtype=np.intp), np.array(cc, dtype=np.intp)
    if shape is not None:
        k = (rr >= 0) & (rr < shape[0]) & (cc >= 0) & (cc < shape[1])
        rr, cc = rr[k], cc[k]
    return rr, cc
