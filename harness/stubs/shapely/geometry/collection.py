from shapely.geometry.base import GeometryCollection  # noqa: F401
