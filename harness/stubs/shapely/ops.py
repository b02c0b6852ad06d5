from functools import reduce
from shapely.geometry.base import BaseGeometry


def unary_union(geoms):
    return reduce(lambda a, b: a | b, geoms, BaseGeometry())


cascaded_union = unary_union
