import json
import sys

import numpy as np
from scipy.spatial import Voronoi, Delaunay, ConvexHull, QhullError
from scipy.stats import truncnorm


def handle(name, kw):
    if name == 'truncnorm_ppf':
        return truncnorm.ppf(np.array(kw['u']), kw['a'], kw['b']).tolist()
    pts = np.array(kw['points'], dtype=float)
    try:
        if name == 'voronoi':
            v = Voronoi(pts)
            return {'vertices': v.vertices.tolist(),
                    'ridge_points': v.ridge_points.tolist(),
                    'ridge_vertices': [[int(a) for a in r]
                                       for r in v.ridge_vertices],
                    'regions': [[int(a) for a in r] for r in v.regions],
                    'point_region': v.point_region.tolist()}
        if name == 'delaunay':
            return {'simplices': Delaunay(pts).simplices.tolist()}
        if name == 'convexhull':
            h = ConvexHull(pts)
            return {'vertices': h.vertices.tolist(),
                    'simplices': h.simplices.tolist(),
                    'area': h.area, 'volume': h.volume}
    except (QhullError, ValueError) as e:
        return {'error': str(e)[:200]}
    raise KeyError(name)


for line in sys.stdin:
    n, k = json.loads(line)
    sys.stdout.write(json.dumps(handle(n, k)) + '\n')
    sys.stdout.flush()
