from shapely.geometry.base import MultiPolygon  # noqa: F401
