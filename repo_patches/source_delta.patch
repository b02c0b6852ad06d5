From 7126da61407fb7b5d5a89dfa0e7e492ed87ba5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 01/47] fix: parse the chunk number of npy files by the exact
 basename

str.lstrip/rstrip strip character sets, and startswith matches other
recordings: basenames with digits, names that prefix each other, and files
such as basename.npy were misread or raised ValueError.
---
 crowddynamics/io.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index 986124b..71b8927 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -10,6 +10,7 @@ from collections import Iterable, Mapping
 from io import StringIO
 import csv
 import json
+import re
 
 import numpy as np
 
@@ -55,11 +56,12 @@ def find_npy_files(directory, basename):
     Yields:
         (int, numpy.ndarray): Tuple containing (index, data)
     """
+    pattern = re.compile(re.escape(basename) + r'_([0-9]+)\.npy\Z')
     for root, dirs, files in os.walk(directory):
         for file in files:
-            if file.startswith(basename) and file.endswith('.npy'):
-                index = int(file.lstrip(basename + '_').rstrip('.npy'))
-                yield index, os.path.join(root, file)
+            match = pattern.match(file)
+            if match:
+                yield int(match.group(1)), os.path.join(root, file)
 
 
 def load_npy(directory, basename):
-- 
2.43.0


From 9277cbd8652c71c7fa31d2a0a58f76dddabc3128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 02/47] fix: buffer a copy of the recorded array in save_npy

The simulation passes its live agent array; buffering a reference made every
buffered state of a chunk equal to the last one.
---
 crowddynamics/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index 71b8927..504a4f3 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -37,7 +37,8 @@ def save_npy(directory, basename):
     index = 0
     while True:
         data = yield  # numpy.ndarray
-        buffer.append(data)
+        # The caller may update its array in place before the next dump
+        buffer.append(np.copy(data))
 
         dump = yield  # bool
         if dump:
-- 
2.43.0


From a8fe14a5498a648f403725e2e698c06b06790eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 03/47] fix: geometries saved as json load again

A mapping is also iterable, so a saved geometry was loaded by iterating over
its keys, and dictionaries of geometries failed to save. Saving twice to the
same file appended a second document, which no longer parses.
---
 crowddynamics/io.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index 504a4f3..6ec6553 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -149,24 +149,29 @@ def save_csv(directory, basename):
 
 def geometry_mapping(geom):
     from shapely.geometry import mapping
+    from shapely.geometry.base import BaseGeometry
 
-    if isinstance(geom, Iterable):
-        return [mapping(geo) for geo in geom]
+    if isinstance(geom, BaseGeometry):
+        return mapping(geom)
     elif isinstance(geom, Mapping):
-        return {name: mapping(geo) for name, geo in geom.items()}
+        return {name: geometry_mapping(geo) for name, geo in geom.items()}
+    elif isinstance(geom, Iterable):
+        return [geometry_mapping(geo) for geo in geom]
     else:
-        return mapping(geom) if geom else geom
+        return geom
 
 
 def geometry_shape(geom):
     from shapely.geometry import shape
 
-    if isinstance(geom, Iterable):
-        return [shape(geo) for geo in geom]
-    elif isinstance(geom, Mapping):
-        return {name: shape(geo) for name, geo in geom.items()}
+    if isinstance(geom, Mapping):
+        if isinstance(geom.get('type'), str):
+            return shape(geom)
+        return {name: geometry_shape(geo) for name, geo in geom.items()}
+    elif isinstance(geom, Iterable):
+        return [geometry_shape(geo) for geo in geom]
     else:
-        return shape(geom) if geom else geom
+        return geom
 
 
 def save_geometry_json(filename, geometries):
@@ -177,7 +182,7 @@ def save_geometry_json(filename, geometries):
         geometries (dict):
 
     """
-    with open(filename, 'a') as fp:
+    with open(filename, 'w') as fp:
         obj = {name: geometry_mapping(geom) for name, geom in
                geometries.items()}
         json.dump(obj, fp, indent=2, separators=(', ', ': '))
-- 
2.43.0


From 079359ae566e5b739f02dd0f3a64e928ffc23847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 04/47] fix: deprecated functions can be called

Function attributes are named __code__ since Python 3; the wrapper raised
AttributeError instead of warning.
---
 crowddynamics/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/exceptions.py b/crowddynamics/exceptions.py
index 3f25134..98f3f06 100644
--- a/crowddynamics/exceptions.py
+++ b/crowddynamics/exceptions.py
@@ -59,8 +59,8 @@ def deprecated(func):
         warnings.warn_explicit(
             "Call to deprecated function {}.".format(func.__name__),
             category=DeprecationWarning,
-            filename=func.func_code.co_filename,
-            lineno=func.func_code.co_firstlineno + 1
+            filename=func.__code__.co_filename,
+            lineno=func.__code__.co_firstlineno + 1
         )
         return func(*args, **kwargs)
     return new_func
-- 
2.43.0


From d00887d421d345b39cab99577c4bf3f454823299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 05/47] fix: load_config rejects values that violate the
 configspec

ConfigObj.validate returns a (truthy) dictionary of results when some of the
values fail, so only a configuration where everything failed was rejected.
---
 crowddynamics/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/config.py b/crowddynamics/config.py
index 2cbdfe6..c9cea89 100644
--- a/crowddynamics/config.py
+++ b/crowddynamics/config.py
@@ -23,7 +23,7 @@ BODY_TYPES_CFG_SPEC = os.path.join(CONFIG_ROOT, 'body_types_spec.cfg')
 def load_config(infile, configspec=None):
     """Load configuration from INI file."""
     config = ConfigObj(infile=infile, configspec=configspec)
-    if configspec and not config.validate(Validator()):
+    if configspec and config.validate(Validator()) is not True:
         raise ValidationError
     return config
 
-- 
2.43.0


From 2329c13e56be964715ccdbc24dce42afdbc6588b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 06/47] fix: use ndarray.item instead of the removed
 numpy.asscalar

Creating an agent with a body type raised AttributeError.
---
 crowddynamics/simulation/agents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index 8ca55b7..fd8ad1e 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -131,7 +131,7 @@ class BodyType(Body):
     @staticmethod
     def _truncnorm(mean, abs_scale):
         """Individual value from truncnorm"""
-        return np.asscalar(truncnorm(-3.0, 3.0, loc=mean, abs_scale=abs_scale))
+        return truncnorm(-3.0, 3.0, loc=mean, abs_scale=abs_scale).item()
 
     @default('body_types')
     def _default_body_types(self):
-- 
2.43.0


From beafb041cbd8d1c0d63d3c41700fb9453babf316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 07/47] fix: euler_integrator rotates every three-circle agent
 array

The dtype was compared by identity, so arrays with an equal dtype (loaded from
disk, copied) were moved without rotating and without updating shoulders.
---
 crowddynamics/core/integrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/core/integrator.py b/crowddynamics/core/integrator.py
index efec3f1..bbf1664 100644
--- a/crowddynamics/core/integrator.py
+++ b/crowddynamics/core/integrator.py
@@ -155,7 +155,7 @@ def euler_integrator(agents, dt_min, dt_max):
     """
     dt = adaptive_timestep(agents, dt_min, dt_max)
     translational_euler(agents, dt)
-    if agents.dtype is agent_type_three_circle:
+    if is_model(agents, 'three_circle'):
         rotational_euler(agents, dt)
         shoulders(agents)
     return dt
-- 
2.43.0


From 6486508240c48b3b097d1d61b79fb24248cd4938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 08/47] fix: first contact of three-circle agents is the
 smallest positive tau

A negative time-to-collision of the first pair of parts was never replaced,
which dropped the force depending on the order of the parts.
---
 crowddynamics/core/motion/power_law.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/core/motion/power_law.py b/crowddynamics/core/motion/power_law.py
index a189068..c5072fd 100644
--- a/crowddynamics/core/motion/power_law.py
+++ b/crowddynamics/core/motion/power_law.py
@@ -321,7 +321,7 @@ def force_social_three_circle(agent, i, j):
                 continue
 
             tau_new = (b - d) / a
-            if np.isnan(tau) or 0 < tau_new < tau:
+            if 0 < tau_new and (np.isnan(tau) or tau_new < tau):
                 contact_i, contact_j = part_i, part_j
                 tau = tau_new
                 b_min = b
-- 
2.43.0


From f5417fcf512ec4b8fb646942283bcd46e9cd06fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 09/47] fix: gradient of time-to-collision for shoulders

Parts are at position + offset, left shoulder at -r_ts * (sin, -cos) as set by
shoulders(); the signs were swapped and the offset was counted twice, so the
force was not the gradient of the interaction energy.
---
 crowddynamics/core/motion/power_law.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crowddynamics/core/motion/power_law.py b/crowddynamics/core/motion/power_law.py
index c5072fd..4e3ccfd 100644
--- a/crowddynamics/core/motion/power_law.py
+++ b/crowddynamics/core/motion/power_law.py
@@ -146,7 +146,7 @@ def gradient_three_circle(x_rel, v_rel, r_off, a, b, d):
         numpy.ndarray:
 
     """
-    return (v_rel - (a * (x_rel + 2 * r_off) + b * v_rel) / d) / a
+    return (v_rel - (a * (x_rel + r_off) + b * v_rel) / d) / a
 
 
 @numba.jit(Tuple((f8, f8[:]))(f8[:], f8[:], f8),
@@ -334,20 +334,19 @@ def force_social_three_circle(agent, i, j):
     r_off_i = np.zeros(2)
     r_off_j = np.zeros(2)
 
-    # TODO: Fix signs
     if contact_i == 1:
         phi = agent[i]['orientation']
-        r_off_i += agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
+        r_off_i -= agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
     elif contact_i == 2:
         phi = agent[i]['orientation']
-        r_off_i -= agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
+        r_off_i += agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
 
     if contact_j == 1:
         phi = agent[j]['orientation']
-        r_off_j += agent[j]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
+        r_off_j -= agent[j]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
     elif contact_j == 2:
         phi = agent[j]['orientation']
-        r_off_j -= agent[j]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
+        r_off_j += agent[j]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
 
     x_rel = agent[i]['position'] - agent[j]['position']
     r_off = r_off_i - r_off_j
-- 
2.43.0


From 0bdf438c7c9e7a23b2c7d02c0c226ce208a01b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 10/47] fix: rotational moment of the second three-circle agent

It was computed from the part of the first agent.
---
 crowddynamics/core/distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/core/distance.py b/crowddynamics/core/distance.py
index 681e120..1b6c634 100644
--- a/crowddynamics/core/distance.py
+++ b/crowddynamics/core/distance.py
@@ -100,7 +100,7 @@ def distance_three_circles(x0, r0, x1, r1):
                 j_min = j
 
     r_moment0 = x0[i_min] + r0[i_min] * normal - x0[0]
-    r_moment1 = x0[j_min] - r1[j_min] * normal - x1[0]
+    r_moment1 = x1[j_min] - r1[j_min] * normal - x1[0]
 
     return h_min, normal, r_moment0, r_moment1
 
-- 
2.43.0


From 75f9cd7951911526ca74fd80544203a08cd731ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 11/47] fix: linestring_length_cumsum accumulates the lengths

linestring_sample searches the result as a cumulative distribution: points
were not uniform along the line and some drew an index out of bounds.
---
 crowddynamics/core/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/core/sampling.py b/crowddynamics/core/sampling.py
index 83a47a9..e8233c8 100644
--- a/crowddynamics/core/sampling.py
+++ b/crowddynamics/core/sampling.py
@@ -14,7 +14,7 @@ def linestring_length_cumsum(vertices):
     for i in range(n):
         diff = vertices[i] - vertices[i + 1]
         cumsum[i] = np.hypot(diff[0], diff[1])
-    return cumsum
+    return np.cumsum(cumsum)
 
 
 @numba.jit(f8[:](f8[:], f8[:]), nopython=True, nogil=True, cache=True)
-- 
2.43.0


From fd026b1b8e603d3020fb49dfe2198be581efebb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 12/47] fix: density_classical returns a grid of counts

Indices and shape were floats (TypeError) and the grid lacked the last row and
column.
---
 crowddynamics/core/quantities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/core/quantities.py b/crowddynamics/core/quantities.py
index d86bfe9..99c5e0c 100644
--- a/crowddynamics/core/quantities.py
+++ b/crowddynamics/core/quantities.py
@@ -24,10 +24,10 @@ def density_classical(points, cell_size):
     density of fluids which have :math:`> 10^{18}` particles per
     :math:`\mathrm{mm}^3`.
     """
-    indices = np.floor(points / cell_size)
+    indices = np.floor(points / cell_size).astype(np.int64)
     x, y = indices[:, 0], indices[:, 1]
     x_min, y_min = x.min(), y.min()
-    shape = x.max() - x_min, y.max() - y_min
+    shape = x.max() - x_min + 1, y.max() - y_min + 1
     count = np.zeros(shape, dtype=np.int64)
     for i, j in zip(x, y):
         count[i - x_min, j - y_min] += 1
-- 
2.43.0


From 1e0355a8c9a2cc97fc978d468dbe7a2d5181fc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 13/47] fix: bounding_box covers every dimension of the points

ndim of an array of points is always two.
---
 crowddynamics/core/quantities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/core/quantities.py b/crowddynamics/core/quantities.py
index 99c5e0c..f684e0d 100644
--- a/crowddynamics/core/quantities.py
+++ b/crowddynamics/core/quantities.py
@@ -45,8 +45,8 @@ def bounding_box(points):
         numpy.ndarray: Array of [[min, max], [min, max], ...] along the
             dimensions of points.
     """
-    out = np.empty((points.ndim, 2))
-    for i in range(points.ndim):
+    out = np.empty((points.shape[1], 2))
+    for i in range(points.shape[1]):
         x = points[:, i]
         out[i, 0] = x.min()
         out[i, 1] = x.max()
-- 
2.43.0


From b81ec2c929d267c9e777fc47bb572fe0127f71dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 14/47] fix: density_voronoi_1 indexes its grid within bounds

The second dimension was sized from imin, and truncation towards zero merged
the cells on both sides of an axis.
---
 crowddynamics/core/quantities.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crowddynamics/core/quantities.py b/crowddynamics/core/quantities.py
index f684e0d..87d77e3 100644
--- a/crowddynamics/core/quantities.py
+++ b/crowddynamics/core/quantities.py
@@ -210,8 +210,8 @@ def density_voronoi_1(points, cell_size):
     new_regions, new_vertices = voronoi_finite_polygons_2d(vor)
 
     # Density matrix
-    (imin, imax), (jmin, jmax) = np.int64(bbox_points / cell_size)
-    density = np.zeros(shape=(imax - imin + 1, jmax - imin + 1))
+    (imin, imax), (jmin, jmax) = np.int64(np.floor(bbox_points / cell_size))
+    density = np.zeros(shape=(imax - imin + 1, jmax - jmin + 1))
 
     # Loop over Voronoi regions
     for region in new_regions:
@@ -220,9 +220,11 @@ def density_voronoi_1(points, cell_size):
         minx, miny, maxx, maxy = voronoi_cell.bounds
 
         # Loop over the cells contained by the bounding box of the Voronoi cell
-        # FIXME: index out of bounds
-        for i in range(int(minx / cell_size), int(maxx / cell_size) + 1):
-            for j in range(int(miny / cell_size), int(maxy / cell_size) + 1):
+        # clipped to the density matrix against rounding errors
+        i0, i1, j0, j1 = np.int64(np.floor(
+            np.array((minx, maxx, miny, maxy)) / cell_size))
+        for i in range(max(i0, imin), min(i1, imax) + 1):
+            for j in range(max(j0, jmin), min(j1, jmax) + 1):
                 cell = rectangle(i * cell_size, (i + 1) * cell_size,
                                  j * cell_size, (j + 1) * cell_size)
                 intersection = voronoi_cell & cell
-- 
2.43.0


From f30eab0e333ce8cd5a22fd04965ec8fd61f3c7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 15/47] fix: density_voronoi_2 uses the area of each point's
 own cell

The areas are ordered by point already; indexing them by point_region picked
the cell of another point or was out of bounds.
---
 crowddynamics/core/quantities.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/core/quantities.py b/crowddynamics/core/quantities.py
index 87d77e3..139961c 100644
--- a/crowddynamics/core/quantities.py
+++ b/crowddynamics/core/quantities.py
@@ -282,8 +282,7 @@ def _core_2(points, cell_size, area, point_region):
     Returns:
 
     """
-    # FIXME
-    indices = (points / cell_size).astype(np.int64)
+    indices = np.floor(points / cell_size).astype(np.int64)
     x, y = indices[:, 0], indices[:, 1]
     x_min, y_min = x.min(), y.min()
     shape = x.max() - x_min + 1, y.max() - y_min + 1
@@ -293,7 +292,7 @@ def _core_2(points, cell_size, area, point_region):
     for k, (i, j) in enumerate(zip(x, y)):
         index = i - x_min, j - y_min
         density[index] += 1
-        area_sum[index] += area[point_region[k]]
+        area_sum[index] += area[k]
 
     n, m = density.shape
     for i in range(n):
-- 
2.43.0


From ce72d10bfbac1520ce46155bdc6e9c7a4b3cd2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 16/47] fix: geom_to_array of multipart geometries

The generator returned instead of yielding, so the result was empty.
---
 crowddynamics/core/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/core/geometry.py b/crowddynamics/core/geometry.py
index b254067..f610ae2 100644
--- a/crowddynamics/core/geometry.py
+++ b/crowddynamics/core/geometry.py
@@ -42,7 +42,8 @@ def _geom_to_array(geom: BaseGeometry):
         yield np.array([(np.nan, GeomTypes.POLYGON_SHELL)])
         yield np.asarray(geom.exterior)
     elif isinstance(geom, BaseMultipartGeometry):
-        return chain.from_iterable(map(geom_to_array, geom))
+        for geo in geom:
+            yield from _geom_to_array(geo)
     else:
         raise TypeError
 
-- 
2.43.0


From de3f13491dfcafe5fe764026ec9c8251a23a27f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 17/47] fix: obstacle_handling_continuous uses both target
 direction components

The x-component was taken from y, and the distance map was indexed before the
bounds of the index were tested.
---
 crowddynamics/core/steering/obstacle_handling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/core/steering/obstacle_handling.py b/crowddynamics/core/steering/obstacle_handling.py
index 8d462ff..b4e721f 100644
--- a/crowddynamics/core/steering/obstacle_handling.py
+++ b/crowddynamics/core/steering/obstacle_handling.py
@@ -85,12 +85,12 @@ def obstacle_handling_continuous(dmap_obs, dir_map_obs, direction_target,
 
     for k in range(len(indices)):
         i, j = indices[k, 0], indices[k, 1]
-        u2, v2 = direction_target[k, 1], direction_target[k, 1]
-        x = -dmap_obs[i, j]
+        u2, v2 = direction_target[k, 0], direction_target[k, 1]
 
         if not (0 <= i < n and 0 <= j < m):
             continue
 
+        x = -dmap_obs[i, j]
         if 0 < x < radius:
             # Decreasing function
             p = strength ** (x / radius)
-- 
2.43.0


From 9857c4bf3e8d77c4ba0102e8093a19c2f01b6a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 18/47] fix: navigation without obstacles

Obstacles are optional in a field, but shortest path and obstacle handling
raised AttributeError for None.
---
 crowddynamics/core/steering/navigation.py    | 3 +++
 crowddynamics/core/steering/quickest_path.py | 4 ++++
 crowddynamics/simulation/field.py            | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/crowddynamics/core/steering/navigation.py b/crowddynamics/core/steering/navigation.py
index 7d81d77..e1ff2b2 100644
--- a/crowddynamics/core/steering/navigation.py
+++ b/crowddynamics/core/steering/navigation.py
@@ -47,6 +47,9 @@ def static_potential(domain, targets, obstacles,
 
     dir_map_targets, dmap_targets = shortest_path(mgrid, domain, targets,
                                                   obstacles, radius)
+    if obstacles is None:
+        return mgrid, dmap_targets, dir_map_targets
+
     dir_map_obs, dmap_obs = direction_map_obstacles(mgrid, obstacles)
 
     # Combines two direction maps in a way that agents do not run into a wall
diff --git a/crowddynamics/core/steering/quickest_path.py b/crowddynamics/core/steering/quickest_path.py
index 2895773..5b67245 100644
--- a/crowddynamics/core/steering/quickest_path.py
+++ b/crowddynamics/core/steering/quickest_path.py
@@ -183,6 +183,10 @@ def fill_missing(mask, x, y, u, v):
 
 def shortest_path(mgrid, domain, targets, obstacles, buffer_radius):
     """Vector field guiding towards targets."""
+    if obstacles is None:
+        dmap_targets = distance_map(mgrid, targets, None)
+        return direction_map(dmap_targets), dmap_targets
+
     obstacles_buffered = obstacles.buffer(buffer_radius).intersection(domain)
 
     dmap_targets = distance_map(mgrid, targets, obstacles_buffered)
diff --git a/crowddynamics/simulation/field.py b/crowddynamics/simulation/field.py
index 3671ab1..35837c4 100644
--- a/crowddynamics/simulation/field.py
+++ b/crowddynamics/simulation/field.py
@@ -158,6 +158,9 @@ class Field(FieldBase):
             raise CrowdDynamicsException('No targets are set.')
 
         dir_map_targets, dmap_targets = self.shortest_path_target(step, index, radius)
+        if self.obstacles is None:
+            return self.meshgrid(step), dmap_targets, dir_map_targets
+
         dir_map_obs, dmap_obs = self.direction_map_obstacles(step)
         dir_map = obstacle_handling(dmap_obs, dir_map_obs, dir_map_targets,
                                     radius, strength)
-- 
2.43.0


From a6a602d6504521dcef2e38320b90c3c2306defee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 19/47] fix: TargetReached counts agents inside polygon targets

The name was formatted without its index (KeyError) and the structured agent
array was passed as points.
---
 crowddynamics/simulation/logic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/simulation/logic.py b/crowddynamics/simulation/logic.py
index f6dba2b..4075be4 100644
--- a/crowddynamics/simulation/logic.py
+++ b/crowddynamics/simulation/logic.py
@@ -374,7 +374,7 @@ class TargetReached(LogicNode):
         # We can only measure polygon targets atm
         for i, target in enumerate(self.simulation.field.targets):
             if isinstance(target, Polygon):
-                name = self.prefix.format(i)
+                name = self.prefix.format(index=i)
                 self.names.append(name)
                 self.paths.append(Path(np.asarray(target.exterior)))
                 self.reached_by.append(np.zeros(size, dtype=np.bool_))
@@ -383,5 +383,6 @@ class TargetReached(LogicNode):
     def update(self):
         # TODO: update target reached
         for name, path, reached_by in zip(self.names, self.paths, self.reached_by):
-            reached_by |= path.contains_points(self.simulation.agents.array)
+            reached_by |= path.contains_points(
+                self.simulation.agents.array['position'])
             self.simulation.data[name] = np.sum(reached_by)
-- 
2.43.0


From ee84a1c1f276d736e861eff84862395f57a41f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 20/47] fix: trait_to_type of Unicode returns str

It raised TypeError (exceptions must derive from BaseException).
---
 crowddynamics/traits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/traits.py b/crowddynamics/traits.py
index e7f84d0..c45f917 100644
--- a/crowddynamics/traits.py
+++ b/crowddynamics/traits.py
@@ -68,7 +68,7 @@ def trait_to_type(trait):
         elif isinstance(trait, Bool):
             return bool
         elif isinstance(trait, Unicode):
-            raise str
+            return str
         else:
             raise InvalidValue('Trait conversion is not supported for: '
                                '{}'.format(trait))
-- 
2.43.0


From 8a1efb947e1a0db7c297de546d397b20721de572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 21/47] fix: parse_signature rejects parameters without default

isinstance(default, Parameter.empty) is never true: the marker is the class.
---
 crowddynamics/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/utils.py b/crowddynamics/utils.py
index aaa6174..b5aa55d 100644
--- a/crowddynamics/utils.py
+++ b/crowddynamics/utils.py
@@ -63,7 +63,7 @@ def empty_to_none(value):
 
 
 def mkspec(parameter):
-    if isinstance(parameter.default, inspect.Parameter.empty):
+    if parameter.default is inspect.Parameter.empty:
         raise InvalidType('Default argument should not be empty.')
     return ArgSpec(name=parameter.name,
                    default=empty_to_none(parameter.default),
-- 
2.43.0


From 4053b298c56c87129e5a6be5b1266214760a16e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 22/47] fix: every simulation command runs its own simulation
 with its options

The callbacks shared the loop variable, so all of them ran the last
simulation, and did not accept the options declared for the command.
---
 crowddynamics/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/cli.py b/crowddynamics/cli.py
index ecc7745..0d3d8ee 100644
--- a/crowddynamics/cli.py
+++ b/crowddynamics/cli.py
@@ -77,7 +77,8 @@ def simulation_commands():
     for simulation_name, simulation_cls in simulations.items():
         # New command
         command = click.Command(
-            simulation_name, callback=lambda: simulation_cls().run())
+            simulation_name,
+            callback=lambda cls=simulation_cls, **kwargs: cls(**kwargs).run())
 
         # Add the command into run group
         run.add_command(command)
-- 
2.43.0


From e1c341bd20d33859bcd051fce1e5d4cea6a0605e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 23/47] fix: import simulations from the given directory

os.listdir gives names relative to the listed directory.
---
 crowddynamics/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/cli.py b/crowddynamics/cli.py
index 0d3d8ee..5bc5fd4 100644
--- a/crowddynamics/cli.py
+++ b/crowddynamics/cli.py
@@ -27,7 +27,8 @@ def import_simulations(dir_path='.'):
     for path in os.listdir(dir_path):
         base, ext = os.path.splitext(path)
         if ext == '.py':
-            d.update(import_subclasses(path, MultiAgentSimulation))
+            d.update(import_subclasses(os.path.join(dir_path, path),
+                                       MultiAgentSimulation))
     return d
 
 
-- 
2.43.0


From a67a0ee060d71cf600a14908588d0670ea0920d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 24/47] fix: agents that could not be placed leave no empty
 rows

The rows reserved for a group stayed in the array as agents of zero mass and
radius at the origin.
---
 crowddynamics/simulation/agents.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index fd8ad1e..332656d 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -672,9 +672,8 @@ class Agents(AgentsBase):
             self.index += 1
             index += 1
 
-        # TODO: remove agents that didn't fit from self.array
-        if self.index + 1 < self.array.size:
-            pass
+        # Remove agents that didn't fit
+        self.array = self.array[:self.index]
 
         # Array should remain contiguous
         assert self.array.flags.c_contiguous
-- 
2.43.0


From 1313ab0b54cdfc5d05349b5e11c03ce3056f8058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 25/47] fix: overlap check covers two cells in each direction

Cell size is documented to be little over the maximum of agent radii; two
agents overlap up to two radii apart.
---
 crowddynamics/simulation/agents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index 332656d..8514b25 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -655,7 +655,7 @@ class Agents(AgentsBase):
                 else next(position_gen)
 
             # Overlapping check
-            neighbours = self._neighbours.nearest(new_agent.position, radius=1)
+            neighbours = self._neighbours.nearest(new_agent.position, radius=2)
             if new_agent.overlapping(self.array[neighbours]):
                 # Agent is overlapping other agent.
                 overlaps += 1
-- 
2.43.0


From 35f2aca7730e22587cbfb0347666586544c1eb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 26/47] fix: shoulders follow the position and orientation of a
 three-circle agent

The positions were computed once on first access: an agent that was moved to
another position during placement was stored with its old shoulders.
---
 crowddynamics/simulation/agents.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index 8514b25..7e0c246 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -408,6 +408,11 @@ class ThreeCircle(AgentType, States, BodyType, TranslationalMotion,
         return self.position + self.r_ts * rotate270(
             unit_vector(self.orientation))
 
+    @observe('position', 'orientation', 'r_ts')
+    def _observe_shoulders(self, change):
+        self.position_ls = self._default_position_ls()
+        self.position_rs = self._default_position_rs()
+
     def overlapping(self, others):
         return overlapping_three_circles(
             others,
-- 
2.43.0


From 652e8d3d9135c8eca780af4912710fecfad10d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 27/47] fix: members of an agent group are created once

Each trait given on initialization notified separately, so a group drew its
attributes up to three times and exhausted finite generators. The size of a
group of a collection is optional as documented.
---
 crowddynamics/simulation/agents.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index 7e0c246..0d36e27 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -593,10 +593,22 @@ class AgentGroup(HasTraits):
     members = List(
         Instance(AgentType),
         help='')
+    _values = (None, None, None)
 
     @observe('size', 'agent_type', 'attributes')
     def _observe_members(self, change):
-        if self.size > 0 and self.attributes is not None and self.agent_type is not None:
+        if self.attributes is None or self.agent_type is None:
+            return
+        if self.size == 0 and isinstance(self.attributes, Collection):
+            self.size = len(self.attributes)
+        # Every trait that was set on initialization notifies separately:
+        # create the members only once for the same values.
+        values = (self.size, self.agent_type, self.attributes)
+        if all(a is b for a, b in zip(values, self._values)):
+            return
+        self._values = values
+
+        if self.size > 0:
             if isinstance(self.attributes, Collection):
                 self.members = [self.agent_type(**a) for a in self.attributes]
             elif isinstance(self.attributes, Generator):
-- 
2.43.0


From 304e9305000431cba36b11df2987a938cac42ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:34 +0000
Subject: [PATCH 28/47] fix: agents heading exactly towards each other do not
 follow

---
 crowddynamics/core/steering/collective_motion.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crowddynamics/core/steering/collective_motion.py b/crowddynamics/core/steering/collective_motion.py
index c8242c7..f6fcd6b 100644
--- a/crowddynamics/core/steering/collective_motion.py
+++ b/crowddynamics/core/steering/collective_motion.py
@@ -44,15 +44,14 @@ def herding_relationship(x1, x2, v1, v2, phi=np.pi / 2):
     c_i = dot(e_rel, normalize(v1))
     c_j = -dot(e_rel, normalize(v2))
 
-    # 1.0 = cos(0)
     cos_phi = np.cos(phi)
-    if cos_phi < c_i < 1.0:
-        if cos_phi < c_j < 1.0:
+    if cos_phi < c_i:
+        if cos_phi < c_j:
             return False, False
         else:
             return True, False
     else:
-        if cos_phi < c_j < 1.0:
+        if cos_phi < c_j:
             return False, True
         else:
             return True, True
-- 
2.43.0


From 2f35c2f63652d65b32d53104208238e558ec64db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:34 +0000
Subject: [PATCH 29/47] fix: zero nearest neighbors can be searched

---
 crowddynamics/core/steering/collective_motion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crowddynamics/core/steering/collective_motion.py b/crowddynamics/core/steering/collective_motion.py
index f6fcd6b..ea1516e 100644
--- a/crowddynamics/core/steering/collective_motion.py
+++ b/crowddynamics/core/steering/collective_motion.py
@@ -79,6 +79,9 @@ def find_nearest_neighbors(
         fill_value=MISSING_NEIGHBOR, dtype=np.int64)
     '''Current nearest neighbours.'''
 
+    if size_nearest_other == 0:
+        return neighbors
+
     distances = np.full(
         (size, size_nearest_other),
         fill_value=sight, dtype=np.float64)
-- 
2.43.0


From b4ed8ed73470c091b05b67d11755c3ec2247da48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 30/47] fix: field accepts None for its optional domain and
 obstacles

---
 crowddynamics/simulation/field.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crowddynamics/simulation/field.py b/crowddynamics/simulation/field.py
index 35837c4..b78c468 100644
--- a/crowddynamics/simulation/field.py
+++ b/crowddynamics/simulation/field.py
@@ -90,6 +90,8 @@ class Field(FieldBase):
     @validate('domain')
     def _valid_domain(self, proposal):
         value = proposal['value']
+        if value is None:
+            return value
         if not value.is_valid:
             raise ValidationError('{} should not be invalid'.format(value))
         if value.is_empty:
@@ -99,6 +101,8 @@ class Field(FieldBase):
     @validate('obstacles')
     def _valid_obstacles(self, proposal):
         value = proposal['value']
+        if value is None:
+            return value
         if not value.is_valid:
             raise ValidationError('{} should not be invalid'.format(value))
         if value.is_empty:
-- 
2.43.0


From b00726848da1d60cbb5984e956fb51ceb0748cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:14 +0000
Subject: [PATCH 31/47] fix: option of a Tuple trait has the default of the
 trait

---
 crowddynamics/traits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/traits.py b/crowddynamics/traits.py
index c45f917..22ded9a 100644
--- a/crowddynamics/traits.py
+++ b/crowddynamics/traits.py
@@ -145,7 +145,7 @@ def trait_to_option(name, trait):
                                 type=click.Choice(list(map(str, trait.values))))
         elif isinstance(trait, Tuple):
             return click.Option(param_decls=('--' + name,),
-                                default=trait.default_value,
+                                default=trait.make_dynamic_default(),
                                 type=tuple(
                                     trait_to_type(t) for t in trait._traits))
         else:
-- 
2.43.0


From e606849feb68e5d8fb9d7fc72685975970b2bf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:14 +0000
Subject: [PATCH 32/47] fix: options keep the case of the trait name

---
 crowddynamics/traits.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crowddynamics/traits.py b/crowddynamics/traits.py
index 22ded9a..8f796c4 100644
--- a/crowddynamics/traits.py
+++ b/crowddynamics/traits.py
@@ -119,32 +119,32 @@ def trait_to_dtype(name, trait):
 def trait_to_option(name, trait):
     if is_trait(trait):
         if isinstance(trait, Int):
-            return click.Option(param_decls=('--' + name,),
+            return click.Option(param_decls=(name, '--' + name),
                                 default=trait.default_value,
                                 type=click.IntRange(trait.min, trait.max))
         elif isinstance(trait, Float):
-            return click.Option(param_decls=('--' + name,),
+            return click.Option(param_decls=(name, '--' + name),
                                 default=trait.default_value,
                                 type=float)
         elif isinstance(trait, Complex):
-            return click.Option(param_decls=('--' + name,),
+            return click.Option(param_decls=(name, '--' + name),
                                 default=trait.default_value,
                                 type=complex)
         elif isinstance(trait, Bool):
-            return click.Option(param_decls=('--' + name,),
+            return click.Option(param_decls=(name, '--' + name),
                                 default=trait.default_value,
                                 is_flag=True)
         elif isinstance(trait, Unicode):
-            return click.Option(param_decls=('--' + name,),
+            return click.Option(param_decls=(name, '--' + name),
                                 default=trait.default_value,
                                 type=str)
         elif isinstance(trait, Enum):
             # FIXME: trait.values should be strings
-            return click.Option(param_decls=('--' + name,),
+            return click.Option(param_decls=(name, '--' + name),
                                 default=str(trait.default_value),
                                 type=click.Choice(list(map(str, trait.values))))
         elif isinstance(trait, Tuple):
-            return click.Option(param_decls=('--' + name,),
+            return click.Option(param_decls=(name, '--' + name),
                                 default=trait.make_dynamic_default(),
                                 type=tuple(
                                     trait_to_type(t) for t in trait._traits))
-- 
2.43.0


From d47fb28f2804db1df01771b442706f453da2865f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:27 +0000
Subject: [PATCH 33/47] fix: options of Enum traits give the value, not its
 string

---
 crowddynamics/traits.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/traits.py b/crowddynamics/traits.py
index 8f796c4..48e9008 100644
--- a/crowddynamics/traits.py
+++ b/crowddynamics/traits.py
@@ -116,6 +116,18 @@ def trait_to_dtype(name, trait):
         raise InvalidType('Trait should be instance of {}'.format(TraitType))
 
 
+class EnumChoice(click.Choice):
+    """Choice of the strings of the values that is converted to the value."""
+
+    def __init__(self, values):
+        super().__init__(list(map(str, values)))
+        self.values = list(values)
+
+    def convert(self, value, param, ctx):
+        choice = super().convert(value, param, ctx)
+        return self.values[self.choices.index(choice)]
+
+
 def trait_to_option(name, trait):
     if is_trait(trait):
         if isinstance(trait, Int):
@@ -139,10 +151,10 @@ def trait_to_option(name, trait):
                                 default=trait.default_value,
                                 type=str)
         elif isinstance(trait, Enum):
-            # FIXME: trait.values should be strings
             return click.Option(param_decls=(name, '--' + name),
-                                default=str(trait.default_value),
-                                type=click.Choice(list(map(str, trait.values))))
+                                default=None if trait.default_value is None
+                                else str(trait.default_value),
+                                type=EnumChoice(trait.values))
         elif isinstance(trait, Tuple):
             return click.Option(param_decls=(name, '--' + name),
                                 default=trait.make_dynamic_default(),
-- 
2.43.0


From 03ace6d4b0c502498c9b6f8444369641649c65f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:27 +0000
Subject: [PATCH 34/47] fix: overridden traits occur once in class_traits

---
 crowddynamics/traits.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/traits.py b/crowddynamics/traits.py
index 48e9008..5c2a4be 100644
--- a/crowddynamics/traits.py
+++ b/crowddynamics/traits.py
@@ -203,10 +203,15 @@ def class_traits(cls, exclude_attrs=None, exclude_cls=None):
         >>> # excludes private attributes
         >>> class_traits(cls, exclude_attrs=lambda name: name.startswith('_'))
     """
+    names = set()
     for c in inspect.getmro(cls):
         if callable(exclude_cls) and exclude_cls(c):
             continue
-        yield from class_own_traits(c, exclude_attrs)
+        for name, trait in class_own_traits(c, exclude_attrs):
+            # Trait that is overridden in a subclass is yielded only once
+            if name not in names:
+                names.add(name)
+                yield name, trait
 
 
 def class_to_struct_dtype(cls, exclude_attrs, exclude_cls):
-- 
2.43.0


From 0c7a8c960abb48c09eaeb9c362b6d83ab4d95051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:27 +0000
Subject: [PATCH 35/47] fix: import simulation callables of a configuration in
 the working directory

---
 crowddynamics/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/config.py b/crowddynamics/config.py
index c9cea89..ba31e7e 100644
--- a/crowddynamics/config.py
+++ b/crowddynamics/config.py
@@ -41,7 +41,7 @@ def import_simulation_callables(confpath):
         (str, typing.Callable[[...], MultiAgentSimulation]):
     """
     logger = logging.getLogger(__name__)
-    base, _ = os.path.split(confpath)
+    base, _ = os.path.split(os.path.abspath(confpath))
     config = load_config(confpath, configspec=CROWDDYNAMICS_CFG_SPEC)
     conf = config.get('simulations', [])
 
-- 
2.43.0


From 094c270d74fb78ebd8fc0a4ca2f754897ca7883a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 36/47] fix: choices of the log level are strings

---
 crowddynamics/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/cli.py b/crowddynamics/cli.py
index 5bc5fd4..3980fb6 100644
--- a/crowddynamics/cli.py
+++ b/crowddynamics/cli.py
@@ -59,8 +59,8 @@ def concat_npy(directory, basename):
 
 
 @main.group(chain=True)
-@click.option('--loglevel', type=click.Choice(LOGLEVELS),
-              default=logging.INFO,
+@click.option('--loglevel', type=click.Choice(list(map(str, LOGLEVELS))),
+              default=str(logging.INFO),
               help='Choices for setting logging level.')
 @click.option('--num', type=int, default=1,
               help='Number of simulations to run.')
-- 
2.43.0


From e61ed7767a4f908aa1ce21eefde1c6a7fed059fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 37/47] fix: installed command has the simulation commands

---
 crowddynamics/cli.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/cli.py b/crowddynamics/cli.py
index 3980fb6..46e611e 100644
--- a/crowddynamics/cli.py
+++ b/crowddynamics/cli.py
@@ -35,8 +35,10 @@ def import_simulations(dir_path='.'):
 @click.group(help="CrowdDynamics {version}. A tool for building and running "
                   "crowd simulations.".format(version=__version__))
 @click.version_option(__version__)
-def main():
-    pass
+@click.pass_context
+def main(context):
+    if context.invoked_subcommand == 'run':
+        simulation_commands()
 
 
 @main.command('list')
@@ -90,5 +92,4 @@ def simulation_commands():
 
 
 if __name__ == "__main__":
-    simulation_commands()
     main()
-- 
2.43.0


From 3dd5070910275aed7075240b8c41741c156df15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 38/47] fix: run command runs the given number of simulations

---
 crowddynamics/cli.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/cli.py b/crowddynamics/cli.py
index 46e611e..ad9973b 100644
--- a/crowddynamics/cli.py
+++ b/crowddynamics/cli.py
@@ -73,6 +73,16 @@ def run(context, loglevel, num):
     context.obj = dict(num=num)
 
 
+def simulation_callback(simulation_cls):
+    """Callback that runs the number of simulations given to run group."""
+
+    def callback(**kwargs):
+        for _ in range(click.get_current_context().obj['num']):
+            simulation_cls(**kwargs).run()
+
+    return callback
+
+
 def simulation_commands():
     """Make commands simulations imported from python files in current working 
     directory."""
@@ -81,7 +91,7 @@ def simulation_commands():
         # New command
         command = click.Command(
             simulation_name,
-            callback=lambda cls=simulation_cls, **kwargs: cls(**kwargs).run())
+            callback=simulation_callback(simulation_cls))
 
         # Add the command into run group
         run.add_command(command)
-- 
2.43.0


From e868a251a54f8b1ff8d2c87cbefefc487e7a4718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:11 +0000
Subject: [PATCH 39/47] fix: save_npy takes names with braces

---
 crowddynamics/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index 6ec6553..3a9b051 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -32,7 +32,6 @@ def save_npy(directory, basename):
         >>> storage.send(data)
         >>> storage.send(True)  # True dumps data into file
     """
-    filepath = os.path.join(directory, basename + '_{index}.npy')
     buffer = []
     index = 0
     while True:
@@ -42,7 +41,8 @@ def save_npy(directory, basename):
 
         dump = yield  # bool
         if dump:
-            np.save(filepath.format(index=index), np.vstack(buffer))
+            filename = '{}_{}.npy'.format(basename, index)
+            np.save(os.path.join(directory, filename), np.vstack(buffer))
             buffer.clear()
             index += 1
 
-- 
2.43.0


From 09b1375c500fa6ab7c65aaecc7c6a1922acd08b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:07 +0000
Subject: [PATCH 40/47] fix: density_voronoi_1 covers cells with far vertices

---
 crowddynamics/core/quantities.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/core/quantities.py b/crowddynamics/core/quantities.py
index 139961c..d1f486d 100644
--- a/crowddynamics/core/quantities.py
+++ b/crowddynamics/core/quantities.py
@@ -207,7 +207,10 @@ def density_voronoi_1(points, cell_size):
 
     # Voronoi tesselation
     vor = Voronoi(points)
-    new_regions, new_vertices = voronoi_finite_polygons_2d(vor)
+    # Infinite regions should reach over the observation area even if their
+    # vertices are far from it
+    radius = 1000 * np.vstack((vor.vertices, points)).ptp(axis=0).max()
+    new_regions, new_vertices = voronoi_finite_polygons_2d(vor, radius)
 
     # Density matrix
     (imin, imax), (jmin, jmax) = np.int64(np.floor(bbox_points / cell_size))
-- 
2.43.0


From cd6e9898b5691869e7d333402574669aa5ed694b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 41/47] fix: draw_geom leaves values inside holes as they were

---
 crowddynamics/core/geometry.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/core/geometry.py b/crowddynamics/core/geometry.py
index f610ae2..aa61f16 100644
--- a/crowddynamics/core/geometry.py
+++ b/crowddynamics/core/geometry.py
@@ -116,14 +116,17 @@ def draw_geom(geom: BaseGeometry,
             x, y = skimage.draw.line(r0, c0, r1, c1)
             grid[y, x] = value
     elif isinstance(geom, Polygon):
+        # Values inside holes should not change
+        inside = np.zeros(grid.shape, dtype=np.bool_)
         i = indicer(geom.exterior)
         x, y = skimage.draw.polygon(i[:, 0], i[:, 1])
-        grid[y, x] = value
+        inside[y, x] = True
         x, y = skimage.draw.polygon_perimeter(i[:, 0], i[:, 1])
-        grid[y, x] = value
+        inside[y, x] = True
         for j in map(indicer, geom.interiors):
             x, y = skimage.draw.polygon(j[:, 0], j[:, 1])
-            grid[y, x] = 0
+            inside[y, x] = False
+        grid[inside] = value
     elif isinstance(geom, BaseMultipartGeometry):
         for geo in geom:
             draw_geom(geo, grid, indicer, value)
-- 
2.43.0


From 9b4c3d9f023e07ddb984341209e7578bc0c2f8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 42/47] fix: pillar of PillarInTheMiddle is in the middle of
 the domain

The domain was the rectangle from (width/2, height/2) to (width, height),
which does not contain the pillar at the origin.
---
 crowddynamics/examples/fields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/examples/fields.py b/crowddynamics/examples/fields.py
index 1f30b9a..c578972 100644
--- a/crowddynamics/examples/fields.py
+++ b/crowddynamics/examples/fields.py
@@ -293,8 +293,8 @@ class PillarInTheMiddle(Field):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
 
-        domain = rectangle(self.width / 2, self.height / 2,
-                           self.width / 2, self.height / 2)
+        domain = rectangle(-self.width / 2, -self.height / 2,
+                           self.width, self.height)
         obstacles = Point(0, 0).buffer(self.radius_pillar)
 
         self.domain = domain
-- 
2.43.0


From 31a6ec79d166d2ca00d718116f51ff5ad21cbcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 43/47] fix: TestMovement integrates the adjusting force

Operator << returns its left operand, so the chain made Integrator, Adjusting
and Orientation siblings, evaluated in that order: the force was computed
after the integration and reset before the next one.
---
 crowddynamics/examples/validation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/examples/validation.py b/crowddynamics/examples/validation.py
index bad0434..c08b59c 100644
--- a/crowddynamics/examples/validation.py
+++ b/crowddynamics/examples/validation.py
@@ -40,8 +40,9 @@ class TestMovement(MultiAgentSimulation):
 
     @default('logic')
     def _default_logic(self):
-        return Reset(self) << Integrator(self) << Adjusting(
-            self) << Orientation(self)
+        return Reset(self) << (
+                Integrator(self) << (
+                    Adjusting(self) << Orientation(self)))
 
     @default('field')
     def _default_field(self):
-- 
2.43.0


From b46ab5e897bbe45e0d1201a78425370ebc4ac285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 44/47] fix: distance map image covers the domain when it does
 not start at the origin

---
 crowddynamics/visualizations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/visualizations.py b/crowddynamics/visualizations.py
index 1dcbc94..59d6ef4 100644
--- a/crowddynamics/visualizations.py
+++ b/crowddynamics/visualizations.py
@@ -139,7 +139,7 @@ def add_distance_map(fig, mgrid, distance_map, **kwargs):
     """
     kwargs.setdefault('palette', 'Greys256')
     minx, miny, maxx, maxy = mgrid.bounds
-    fig.image([distance_map], minx, miny, maxx, maxy, **kwargs)
+    fig.image([distance_map], minx, miny, maxx - minx, maxy - miny, **kwargs)
 
 
 def add_direction_map(fig: Figure, mgrid, direction_map, freq=2, **kwargs):
-- 
2.43.0


From 79d7d6ebcb6eafe93fa206397b59f242ed7333d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 45/47] fix: a field without obstacles or domain can be plotted

---
 crowddynamics/visualizations.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crowddynamics/visualizations.py b/crowddynamics/visualizations.py
index 59d6ef4..3060652 100644
--- a/crowddynamics/visualizations.py
+++ b/crowddynamics/visualizations.py
@@ -115,7 +115,8 @@ def add_field(fig, field):
     """
 
     # Plot spawn and target indices
-    add_geom(fig, field.domain, alpha=0.05)
+    if field.domain is not None:
+        add_geom(fig, field.domain, alpha=0.05)
 
     for spawn in field.spawns:
         add_geom(fig, spawn, alpha=0.5, line_width=0, color='green')
@@ -123,7 +124,8 @@ def add_field(fig, field):
     for target in field.targets:
         add_geom(fig, target, alpha=0.5, line_dash='dashed', color='olive')
 
-    add_geom(fig, field.obstacles, alpha=0.8)
+    if field.obstacles is not None:
+        add_geom(fig, field.obstacles, alpha=0.8)
 
 
 def add_distance_map(fig, mgrid, distance_map, **kwargs):
@@ -191,7 +193,7 @@ def plot_field(field, step=0.02, radius=0.3, strength=0.3, **kwargs):
         'closest', step, radius, strength)
 
     # TODO: masked values on distance map
-    add_distance_map(p, mgrid, distance_map.filled(1.0),
+    add_distance_map(p, mgrid, np.ma.filled(distance_map, 1.0),
                      legend='distance_map')
     add_direction_map(p, mgrid, direction_map, legend='direction_map')
 
@@ -214,10 +216,11 @@ def plot_field(field, step=0.02, radius=0.3, strength=0.3, **kwargs):
                  line_dash='dashed',
                  color='olive',)
 
-    add_geom(p, field.obstacles,
-             legend='obstacles',
-             line_width=3.0,
-             alpha=0.8, )
+    if field.obstacles is not None:
+        add_geom(p, field.obstacles,
+                 legend='obstacles',
+                 line_width=3.0,
+                 alpha=0.8, )
 
     p.legend.location = "top_left"
     p.legend.click_policy = "hide"
-- 
2.43.0


From 50a2e63ebd8687c056773b315f5ae8378e6b65d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:12 +0000
Subject: [PATCH 46/47] Revert "fix: pillar of PillarInTheMiddle is in the
 middle of the domain"

This reverts commit 9b4c3d9f023e07ddb984341209e7578bc0c2f8cc.
---
 crowddynamics/examples/fields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/examples/fields.py b/crowddynamics/examples/fields.py
index c578972..1f30b9a 100644
--- a/crowddynamics/examples/fields.py
+++ b/crowddynamics/examples/fields.py
@@ -293,8 +293,8 @@ class PillarInTheMiddle(Field):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
 
-        domain = rectangle(-self.width / 2, -self.height / 2,
-                           self.width, self.height)
+        domain = rectangle(self.width / 2, self.height / 2,
+                           self.width / 2, self.height / 2)
         obstacles = Point(0, 0).buffer(self.radius_pillar)
 
         self.domain = domain
-- 
2.43.0


From 57683d1f33eea560dc88f84761db8688d0437dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:12 +0000
Subject: [PATCH 47/47] Revert "fix: TestMovement integrates the adjusting
 force"

This reverts commit 31a6ec79d166d2ca00d718116f51ff5ad21cbcaa.
---
 crowddynamics/examples/validation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/examples/validation.py b/crowddynamics/examples/validation.py
index c08b59c..bad0434 100644
--- a/crowddynamics/examples/validation.py
+++ b/crowddynamics/examples/validation.py
@@ -40,9 +40,8 @@ class TestMovement(MultiAgentSimulation):
 
     @default('logic')
     def _default_logic(self):
-        return Reset(self) << (
-                Integrator(self) << (
-                    Adjusting(self) << Orientation(self)))
+        return Reset(self) << Integrator(self) << Adjusting(
+            self) << Orientation(self)
 
     @default('field')
     def _default_field(self):
-- 
2.43.0

