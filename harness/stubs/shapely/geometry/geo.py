from shapely.geometry.base import mapping, shape, box  # noqa: F401
