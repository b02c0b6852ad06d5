from shapely.geometry.base import MultiPoint  # noqa: F401
