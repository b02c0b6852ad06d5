from shapely.geometry.base import Point  # noqa: F401
