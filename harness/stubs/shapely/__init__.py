"""Stand-in for the part of shapely (1.x API) the code under test uses.

Planar geometry with float coordinates. Lines and points are collected by
union without noding; polygon/polygon set operations are computed exactly
(up to rounding) by a trapezoidal sweep, so areas, bounds, hulls, coverage
are those of the true result, though its pieces are not merged."""
from _stubmissing import module_getattr as _mg
__getattr__ = _mg('shapely')
__version__ = '1.6.0'
from shapely import geometry  # noqa: E402,F401
from shapely import speedups  # noqa: E402,F401
