from shapely.geometry.base import Polygon,LinearRing  # noqa: F401
