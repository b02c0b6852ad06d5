from shapely.geometry.base import MultiLineString  # noqa: F401
