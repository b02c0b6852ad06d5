import numpy as np
from scipy import _rpc
from _stubmissing import module_getattr as _mg
__getattr__ = _mg('scipy.spatial.qhull')


class QhullError(RuntimeError):
    pass


def _call(name, points):
    pts = np.ascontiguousarray(points, dtype=np.float64)
    res = _rpc.call(name, points=pts.tolist())
    if 'error' in res:
        raise QhullError(res['error'])
    return pts, res


class Voronoi(object):
    def __init__(self, points, **kw):
        self.points, r = _call('voronoi', points)
        self.vertices = np.array(r['vertices'], dtype=float).reshape(-1, 2)
        self.ridge_points = np.array(r['ridge_points'], dtype=np.int32)
        self.ridge_vertices = r['ridge_vertices']
        self.regions = r['regions']
        self.point_region = np.array(r['point_region'], dtype=np.int64)
        self.npoints, self.ndim = self.points.shape


class Delaunay(object):
    def __init__(self, points, **kw):
        self.points, r = _call('delaunay', points)
        self.simplices = np.array(r['simplices'], dtype=np.int32)
        self.vertices = self.simplices


class ConvexHull(object):
    def __init__(self, points, **kw):
        self.points, r = _call('convexhull', points)
        self.vertices = np.array(r['vertices'], dtype=np.int32)
        self.simplices = np.array(r['simplices'], dtype=np.int32)
        self.area, self.volume = r['area'], r['volume']
