from shapely.geometry.base import LineString  # noqa: F401
