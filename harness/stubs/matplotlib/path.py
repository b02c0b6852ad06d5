import numpy as np
from _stubmissing import module_getattr as _mg
__getattr__ = _mg('matplotlib.path')


class Path(object):
    """Closed polygon path; even-odd point containment."""
    def __init__(self, vertices, codes=None, *args, **kwargs):
        v = np.asarray(vertices, dtype=np.float64)
        if v.ndim != 2 or v.shape[1] != 2:
            raise ValueError("'vertices' must be a 2D list or array with "
                             "shape Nx2")
        self.vertices = v
        self.codes = codes

    def contains_points(self, points, transform=None, radius=0.0):
        # a structured array cannot be converted to floats here either
        pts = np.asarray(points, dtype=np.float64)
        if pts.ndim != 2 or pts.shape[1] != 2:
            raise ValueError('Expected 2-dimensional array (N x 2), got %r'
                             % (pts.shape,))
        ring = [tuple(p) for p in self.vertices.tolist()]
        n = len(ring)
        out = np.zeros(len(pts), dtype=bool)
        for k, (px, py) in enumerate(pts.tolist()):
            inside = False
            for i in range(n):
                (x0, y0), (x1, y1) = ring[i - 1], ring[i]
                if (y1 > py) != (y0 > py) and \
                        px < (x0 - x1) * (py - y1) / (y0 - y1) + x1:
                    inside = not inside
            out[k] = inside
        return out

    def contains_point(self, point, transform=None, radius=0.0):
        return bool(self.contains_points(np.asarray([point]))[0])
