from _stubmissing import module_getattr as _mg
__getattr__ = _mg('shapely.geometry')
from shapely.geometry.base import (  # noqa: E402,F401
    BaseGeometry, BaseMultipartGeometry, Point, LineString, LinearRing,
    Polygon, MultiPoint, MultiLineString, MultiPolygon, GeometryCollection,
    mapping, shape, box)
