from _stubmissing import module_getattr as _mg
__getattr__ = _mg('scipy.spatial')
from scipy.spatial import qhull  # noqa: E402,F401
from scipy.spatial.qhull import Voronoi, Delaunay, ConvexHull, QhullError  # noqa: E402,F401
