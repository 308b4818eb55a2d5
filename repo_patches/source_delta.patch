From ed072e8e97610793d562aa6404cb0264fa6e5dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:53 +0000
Subject: [PATCH 01/41] fix: convex_hull could loop forever on duplicate or
 collinear points

---
 utils/cg.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index bb7525d..1fbd6c6 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -218,6 +218,9 @@ def equilateral_triangle(centroid, side_length, rot=0):
 def convex_hull(points):
     n = len(points)
 
+    def dist_sqr(i, j):
+        return (points[i][0] - points[j][0]) ** 2 + (points[i][1] - points[j][1]) ** 2
+
     # Find the leftmost point
     l = 0
     for i in range(1, n):
@@ -228,6 +231,7 @@ def convex_hull(points):
                 l = i
 
     hull = []
+    visited = set()
     '''
     Start from leftmost point, keep moving counterclockwise
     until reach the start point again. This loop runs O(h)
@@ -237,6 +241,7 @@ def convex_hull(points):
     while (True):
         # Add current point to result
         hull.append([points[p][0], points[p][1]])
+        visited.add(tuple(hull[-1]))
 
         '''
         Search for a point 'q' such that orientation(p, q,
@@ -250,8 +255,10 @@ def convex_hull(points):
         for i in range(n):
 
             # If i is more counterclockwise
-            # than current q, then update q
-            if is_ccw(points[p], points[i], points[q]):
+            # than current q, then update q. Among collinear points
+            # (or if q coincides with p) use the one furthest away
+            if is_ccw(points[p], points[i], points[q]) or \
+                    (is_collinear(points[p], points[i], points[q]) and dist_sqr(p, i) > dist_sqr(p, q)):
                 q = i
         '''
         Now q is the most counterclockwise with respect to p
@@ -260,8 +267,8 @@ def convex_hull(points):
         '''
         p = q
 
-        # While we don't come to first point
-        if (p == l):
+        # While we don't come to first point (or any other already added point)
+        if (points[p][0], points[p][1]) in visited:
             break
 
     return hull
-- 
2.43.0


From 0e1cbf2576b2d5c1089b96232d3ee739a7abf50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:53 +0000
Subject: [PATCH 02/41] fix: Line.intersects tested against a degenerate line

---
 utils/cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/cg.py b/utils/cg.py
index 1fbd6c6..9370a64 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -122,7 +122,7 @@ class Line:
         return Point(ip_x, ip_y)
 
     def intersects(self, other):
-        return (is_ccw(self.p1, other.p1, other.p1) != is_ccw(self.p2, other.p1, other.p1) and is_ccw(self.p1, self.p2, other.p1) != is_ccw(self.p1, self.p2, other.p2))
+        return (is_ccw(self.p1, other.p1, other.p2) != is_ccw(self.p2, other.p1, other.p2) and is_ccw(self.p1, self.p2, other.p1) != is_ccw(self.p1, self.p2, other.p2))
 
 
 class LineSegment(Line):
-- 
2.43.0


From bf38b12a1f645c41905d1f6a6a1ea71214eff0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:05 +0000
Subject: [PATCH 03/41] fix: Cone.polygon was self-intersecting for rays
 leaving the bounding box near a corner

---
 utils/cg.py | 57 ++++++++++++++---------------------------------------
 1 file changed, 15 insertions(+), 42 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index 9370a64..d2da94d 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -301,47 +301,10 @@ class Cone:
 
     def polygon(self) -> shapely.geometry.Polygon:
 
-        angle1 = np.arctan2(self.dir1[1], self.dir1[0]) + np.pi
-        angle2 = np.arctan2(self.dir2[1], self.dir2[0]) + np.pi
-
-        if Cone.bb_corner_angles[0] <= angle1 < Cone.bb_corner_angles[1]:
-            ray1_intersection_idx = 0
-        elif  Cone.bb_corner_angles[1] <= angle1 < Cone.bb_corner_angles[2]:
-            ray1_intersection_idx = 1
-        elif  Cone.bb_corner_angles[2] <= angle1 < Cone.bb_corner_angles[3]:
-            ray1_intersection_idx = 2
-        else:
-            ray1_intersection_idx = 3
-
-        if Cone.bb_corner_angles[0] <= angle2 < Cone.bb_corner_angles[1]:
-            ray2_intersection_idx = 0
-        elif  Cone.bb_corner_angles[1] <= angle2 < Cone.bb_corner_angles[2]:
-            ray2_intersection_idx = 1
-        elif  Cone.bb_corner_angles[2] <= angle2 < Cone.bb_corner_angles[3]:
-            ray2_intersection_idx = 2
-        else:
-            ray2_intersection_idx = 3
-
-        r1_border = self.ray1.ray_intersection(Cone.bb_edges[ray1_intersection_idx])
-        r2_border = self.ray2.ray_intersection(Cone.bb_edges[ray2_intersection_idx])
-        if r1_border is None:
-            ray1_intersection_idx = (ray1_intersection_idx + 1) % 4
-            r1_border = self.ray1.ray_intersection(Cone.bb_edges[ray1_intersection_idx])
-            if r1_border is None:
-                ray1_intersection_idx = (ray1_intersection_idx + 2) % 4
-                r1_border = self.ray1.ray_intersection(Cone.bb_edges[ray1_intersection_idx])
-                if r1_border is None:
-                    print("SOMETHING WRONG!")
-        if r2_border is None:
-            ray2_intersection_idx = (ray2_intersection_idx + 1) % 4
-            r2_border = self.ray2.ray_intersection(Cone.bb_edges[ray2_intersection_idx])
-            if r2_border is None:
-                ray2_intersection_idx = (ray2_intersection_idx + 2) % 4
-                r2_border = self.ray2.ray_intersection(Cone.bb_edges[ray2_intersection_idx])
-                if r2_border is None:
-                    print("SOMETHING WRONG!")
-
-        vertices = [self.apex, r1_border.xy]
+        ray1_intersection_idx, r1_border = self._border_intersection(self.dir1)
+        ray2_intersection_idx, r2_border = self._border_intersection(self.dir2)
+
+        vertices = [self.apex, r1_border]
         c_idx = ray1_intersection_idx
         if not (self.is_convex and (ray1_intersection_idx == ray2_intersection_idx)):
             while True:
@@ -349,10 +312,20 @@ class Cone:
                 c_idx = (c_idx + 1) % 4
                 if c_idx == ray2_intersection_idx:
                     break
-        vertices += [r2_border.xy]
+        vertices += [r2_border]
 
         return shapely.geometry.Polygon(vertices)
 
+    # Index of the bounding box edge hit by the ray from apex in given direction and the intersection point
+    def _border_intersection(self, dir):
+        # Distance along ray to bottom, right, top and left edge
+        dist = np.array([(-Cone.bb_width - self.apex[1]) / dir[1] if dir[1] < 0 else np.inf,
+                         (Cone.bb_width - self.apex[0]) / dir[0] if dir[0] > 0 else np.inf,
+                         (Cone.bb_width - self.apex[1]) / dir[1] if dir[1] > 0 else np.inf,
+                         (-Cone.bb_width - self.apex[0]) / dir[0] if dir[0] < 0 else np.inf])
+        idx = np.argmin(dist)
+        return idx, self.apex + dist[idx] * dir
+
     def point_in_cone(self, x):
         if self.is_convex:
             return is_ccw(self.apex, self.ray1.p2, x) and is_cw(self.apex, self.ray2.p2, x)
-- 
2.43.0


From 078f4cb309cfe06cfcc4b1dd6ab0f30fa2ded2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:17 +0000
Subject: [PATCH 04/41] fix: Cone.intersection_same_apex lost the intersection
 of cones sharing a bounding ray

---
 utils/cg.py | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index d2da94d..3bf1428 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -343,25 +343,20 @@ class Cone:
             return self.polygon().intersection(other.polygon())
 
     def intersection_same_apex(self, other: 'Cone') -> List['Cone']:
-        other_dir1_in_self = self.point_in_cone(other.apex+other.dir1)
-        other_dir2_in_self = self.point_in_cone(other.apex+other.dir2)
-        self_dir1_in_other = other.point_in_cone(self.apex+self.dir1)
-
-        if other_dir1_in_self and other_dir2_in_self:
-            # Check several cones
-            if self_dir1_in_other:
-                return [Cone(self.apex, self.dir1, other.dir2),
-                        Cone(self.apex, other.dir1, self.dir2)]
-            else:
-                return [other]
-        elif other_dir1_in_self:
-            return [Cone(self.apex, other.dir1, self.dir2)]
-        elif other_dir2_in_self:
-            return [Cone(self.apex, self.dir1, other.dir2)]
-        elif self_dir1_in_other:
-            return [self]
-        else:
-            return []
+        # CCW angle from dir_a to dir_b, in [0, 2*pi)
+        def ccw_angle(dir_a, dir_b):
+            angle = np.arctan2(dir_a[0] * dir_b[1] - dir_a[1] * dir_b[0], dir_a[0] * dir_b[0] + dir_a[1] * dir_b[1])
+            if abs(angle) < 1e-10:
+                return 0.
+            return angle if angle > 0 else angle + 2 * np.pi
+
+        # The intersection consists of one cone for each bounding direction dir1 which is included in both cones
+        start_dirs = []
+        if ccw_angle(self.dir1, other.dir1) < ccw_angle(self.dir1, self.dir2):
+            start_dirs += [other.dir1]
+        if 0 < ccw_angle(other.dir1, self.dir1) < ccw_angle(other.dir1, other.dir2):
+            start_dirs += [self.dir1]
+        return [Cone(self.apex, d, min(self.dir2, other.dir2, key=lambda end_dir: ccw_angle(d, end_dir))) for d in start_dirs]
 
     @staticmethod
     def list_intersection(cones: List['Cone'], same_apex=False) -> shapely.geometry.Polygon:
-- 
2.43.0


From e583ec1ca075dff11faa0a7c571b2cf8313bb3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 05/41] fix: generate_convex_polygon used the box width for the
 vertical extent

---
 utils/cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/cg.py b/utils/cg.py
index 3bf1428..2804b2c 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -399,7 +399,7 @@ def generate_convex_polygon(n, box=None):
 
     # Generate two lists of random X and Y coordinates
     xPool = [box[0]*np.random.uniform() for i in range(n)]
-    yPool = [box[0]*np.random.uniform() for i in range(n)]
+    yPool = [box[1]*np.random.uniform() for i in range(n)]
 
     # Sort them
     xPool = np.sort(xPool)
-- 
2.43.0


From 04ec9e53a409619171fd41b3cc925ee783850847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:23 +0000
Subject: [PATCH 06/41] fix: generate_convex_polygon could mispair components
 of vectors with equal angle

---
 utils/cg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index 2804b2c..540ebab 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -450,8 +450,9 @@ def generate_convex_polygon(n, box=None):
 
     # Sort the vectors by angle
     angle = [np.arctan2(yVec[i], xVec[i]) for i in range(n)]
-    xVec = [x for _, x in sorted(zip(angle, xVec))]
-    yVec = [y for _, y in sorted(zip(angle, yVec))]
+    vec = sorted(zip(angle, xVec, yVec))
+    xVec = [x for _, x, _ in vec]
+    yVec = [y for _, _, y in vec]
 
     # Lay them end-to-end
     x, y = 0, 0
-- 
2.43.0


From 0e7afc4e3f90a76f2b8f2446b6e23a6bbe2e29d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:55 +0000
Subject: [PATCH 07/41] fix: polygon boundary points on the bounding box were
 classified as exterior

---
 obstacles/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/polygon.py b/obstacles/polygon.py
index d8ec63a..0efa34b 100644
--- a/obstacles/polygon.py
+++ b/obstacles/polygon.py
@@ -61,7 +61,7 @@ class Polygon(Obstacle):
     def point_location(self, x, input_frame=Frame.GLOBAL):
         x_obstacle = self.transform(x, input_frame, Frame.OBSTACLE)
         xmin, ymin, xmax, ymax = self._pol_bounds
-        if not (xmin < x_obstacle[0] < xmax and ymin < x_obstacle[1] < ymax):
+        if not (xmin <= x_obstacle[0] <= xmax and ymin <= x_obstacle[1] <= ymax):
             return 1
         x_sh = shapely.geometry.Point(x_obstacle)
         if self._polygon.contains(x_sh):
-- 
2.43.0


From 1f2b11efbf04119cded803653789b704155a7999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 08/41] fix: Ellipse.tangent_points order for differing frames
 and nan at vertical tangents

---
 obstacles/ellipse.py | 35 ++++++-----------------------------
 1 file changed, 6 insertions(+), 29 deletions(-)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index 17f216e..a311488 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -164,39 +164,16 @@ class Ellipse(StarshapedObstacle):
         x_obstacle = self.transform(x, input_frame, Frame.OBSTACLE)
         if not self.exterior_point(x_obstacle, Frame.OBSTACLE):
             return []
-        px, py = x_obstacle
-
-        # Special case with vertical tangent
-        a2 = self._a**2
-        vertical_tangent = abs(a2[0] - px**2) < 1e-5
-        if vertical_tangent:
-            m2 = (py**2-a2[1]) / (2*px*py)
-            x2 = (px * m2 ** 2 - py * m2) / (a2[1] / a2[0] + m2 ** 2)
-            y2 = m2 * (x2 - px) + py
-            tp1_obstacle = np.array([px, 0])
-            tp2_obstacle = np.array([x2, y2])
-        else:
-            tmp = px**2 - a2[0]
-            c1 = (px * py) / tmp
-            c2 = (a2[1] - py**2) / tmp
-            tmp = np.sqrt(c1**2+c2)
-            m1, m2 = c1 + tmp, c1 - tmp
-            tmp = a2[1] / a2[0]
-            m1_sqr = m1**2
-            m2_sqr = m2**2
-            x1 = (px * m1_sqr - py * m1) / (tmp + m1_sqr)
-            x2 = (px * m2_sqr - py * m2) / (tmp + m2_sqr)
-            y1 = m1 * (x1 - px) + py
-            y2 = m2 * (x2 - px) + py
-            tp1_obstacle = np.array([x1, y1])
-            tp2_obstacle = np.array([x2, y2])
+        # Tangent points of the unit circle for x scaled by the ellipse axes
+        x_circle = x_obstacle / self._a
+        dist_sqr = x_circle.dot(x_circle)
+        offset = np.sqrt(max(dist_sqr - 1, 0)) * np.array([-x_circle[1], x_circle[0]])
+        tp1_obstacle = self._a * (x_circle - offset) / dist_sqr
+        tp2_obstacle = self._a * (x_circle + offset) / dist_sqr
 
         tp1 = self.transform(tp1_obstacle, Frame.OBSTACLE, output_frame)
         tp2 = self.transform(tp2_obstacle, Frame.OBSTACLE, output_frame)
 
-        if is_ccw(x, tp1, tp2):
-            tp1, tp2 = tp2, tp1
-
         return [tp1, tp2]
 
     # def area(self):
-- 
2.43.0


From 75d2db82c6eeb24d782f0b5527399c6891816fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:52 +0000
Subject: [PATCH 09/41] fix: line_intersection failed for lines both touching
 and following the boundary

---
 obstacles/polygon.py                          | 3 ++-
 obstacles/starshaped_primitive_combination.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/obstacles/polygon.py b/obstacles/polygon.py
index 0efa34b..8ef031c 100644
--- a/obstacles/polygon.py
+++ b/obstacles/polygon.py
@@ -85,7 +85,8 @@ class Polygon(Obstacle):
         elif intersection_points_shapely.geom_type == 'MultiLineString':
             intersection_points_obstacle = [np.array([ip[0], ip[1]]) for line in intersection_points_shapely.geoms for ip in line.coords]
         else:
-            print(intersection_points_shapely)
+            # GeometryCollection of points and lines
+            intersection_points_obstacle = [np.array([ip[0], ip[1]]) for g in intersection_points_shapely.geoms for ip in g.coords]
         return [self.transform(ip, Frame.OBSTACLE, output_frame) for ip in intersection_points_obstacle]
 
     def tangent_points(self, x, input_frame=Frame.GLOBAL, output_frame=Frame.GLOBAL):
diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index 6fdf2cd..60b8133 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -206,8 +206,8 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
             return [np.array([l[0], l[1]]) for line in intersection_points_shapely.geoms for
                                             l in line.coords]
         else:
-            print("[_hull_cluster_line_intersections]: Shapely geom_type not covered!")
-            print(intersection_points_shapely)
+            # GeometryCollection of points and lines
+            return [np.array([ip[0], ip[1]]) for g in intersection_points_shapely.geoms for ip in g.coords]
 
     def _update_vertex_angles(self):
         self.vertices = np.array(self._polygon.exterior.coords[:-1])
-- 
2.43.0


From 5c270dfe01e8fa5df84f4b564053aa1f268dbb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:52 +0000
Subject: [PATCH 10/41] fix: Ellipse.line_intersection returned wrong points
 for vertical and steep lines

---
 obstacles/ellipse.py | 80 ++++++++++----------------------------------
 1 file changed, 17 insertions(+), 63 deletions(-)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index a311488..c407d6d 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -93,72 +93,26 @@ class Ellipse(StarshapedObstacle):
         return loc
 
     def line_intersection(self, line, input_frame=Frame.GLOBAL, output_frame=Frame.GLOBAL):
-        # Transform line points to left/right points in obstacle ellipse coordinates
-        l0_obstacle = self.transform(line[0], input_frame, Frame.OBSTACLE)
-        l1_obstacle = self.transform(line[1], input_frame, Frame.OBSTACLE)
-        l_left_obstacle = l0_obstacle if l0_obstacle[0] < l1_obstacle[0] else l1_obstacle
-        l_right_obstacle = l1_obstacle if l0_obstacle[0] < l1_obstacle[0] else l0_obstacle
-
-
-        vertical_line = abs(l_right_obstacle[0]-l_left_obstacle[0]) < 1e-4
-        if not vertical_line:
-            # Line parameters
-            m = (l_right_obstacle[1] - l_left_obstacle[1]) / (l_right_obstacle[0] - l_left_obstacle[0])
-            c = l_left_obstacle[1] - m * l_left_obstacle[0]
-            vertical_line = abs(m) > 100
-
-        # Special case with vertical line
-        if vertical_line:
-            if l_right_obstacle[0] < -self._a[0] or l_right_obstacle[0] > self._a[0]:
-                return []
-
-            l_top_obstacle = l_right_obstacle if l_right_obstacle[1] > l_left_obstacle[1] else l_left_obstacle
-            l_bottom_obstacle = l_left_obstacle if l_right_obstacle[1] > l_left_obstacle[1] else l_right_obstacle
-            x_intersect_top_obstacle, x_intersect_bottom_obstacle = np.array([0, self._a[1]]), np.array([0, -self._a[1]])
-            x_intersect_top = self.transform(x_intersect_top_obstacle, Frame.OBSTACLE, output_frame)
-            x_intersect_bottom = self.transform(x_intersect_bottom_obstacle, Frame.OBSTACLE, output_frame)
-            if l_top_obstacle[1] >= self._a[1] and l_bottom_obstacle[1] <= -self._a[1]:
-                return [x_intersect_top, x_intersect_bottom]
-            elif l_top_obstacle[1] >= self._a[1] and l_bottom_obstacle[1] <= self._a[1]:
-                return [x_intersect_top]
-            elif l_top_obstacle[1] >= -self._a[1] and l_bottom_obstacle[1] <= -self._a[1]:
-                return [x_intersect_bottom]
-            else:
-                return []
-
-        # obstacle ellipse coefficients at intersection with line m*x+c
-        kx2 = self._a2[0] * m**2 + self._a2[1]
-        kx = 2 * self._a2[0] * m * c
-        k1 = self._a2[0] * (c**2 - self._a2[1])
-
-        # TODO: Stable fix for finding intersection
-        discriminant = self._a2[0] * m**2 + self._a2[1] - c**2
-        if discriminant < 0:
+        # Transform line points to coordinates where the ellipse is the unit circle
+        l0_circle = self.transform(line[0], input_frame, Frame.OBSTACLE) / self._a
+        l1_circle = self.transform(line[1], input_frame, Frame.OBSTACLE) / self._a
+        l_circle = l1_circle - l0_circle
+
+        # Coefficients of |l0 + t*(l1-l0)|^2 = 1, i.e. k2*t^2 + 2*k1*t + k0 = 0
+        k2 = l_circle.dot(l_circle)
+        k1 = l0_circle.dot(l_circle)
+        k0 = l0_circle.dot(l0_circle) - 1
+        discriminant = k1**2 - k2 * k0
+        if k2 == 0 or discriminant < 0:
             return []
         elif discriminant == 0:
-            tmp_x = -kx / (2 * kx2)
-            x_intersect_obstacle = np.array([tmp_x, m * tmp_x + c])
-            return [self.transform(x_intersect_obstacle, Frame.OBSTACLE, output_frame)]
+            t_intersect = [-k1 / k2]
         else:
-            in_sqrt = kx ** 2 / (4 * kx2 ** 2) - k1 / kx2
-            if np.isclose(in_sqrt, 0):
-                in_sqrt = 0
-            tmp_x = -kx / (2 * kx2) - np.sqrt(in_sqrt)
-            x_intersect_left_obstacle = np.array([tmp_x, m * tmp_x + c])
-            tmp_x = -kx / (2 * kx2) + np.sqrt(in_sqrt)
-            x_intersect_right_obstacle = np.array([tmp_x, m * tmp_x + c])
-            x_intersect_left = self.transform(x_intersect_left_obstacle, Frame.OBSTACLE, output_frame)
-            x_intersect_right = self.transform(x_intersect_right_obstacle, Frame.OBSTACLE, output_frame)
-
-            if l_right_obstacle[0] < x_intersect_left_obstacle[0] or x_intersect_right_obstacle[0] < l_left_obstacle[0] or \
-                    x_intersect_left_obstacle[0] < l_left_obstacle[0] < l_right_obstacle[0] < x_intersect_right_obstacle[0]:
-                return []
-            elif x_intersect_left_obstacle[0] < l_left_obstacle[0]:
-                return [x_intersect_right]
-            elif l_right_obstacle[0] < x_intersect_right_obstacle[0]:
-                return [x_intersect_left]
-            else:
-                return [x_intersect_left, x_intersect_right]
+            t_intersect = [(-k1 - np.sqrt(discriminant)) / k2, (-k1 + np.sqrt(discriminant)) / k2]
+
+        # Include only intersections within the line segment
+        return [self.transform(self._a * (l0_circle + t * l_circle), Frame.OBSTACLE, output_frame)
+                for t in t_intersect if 0 <= t <= 1]
 
     def tangent_points(self, x, input_frame=Frame.GLOBAL, output_frame=Frame.GLOBAL):
         x_obstacle = self.transform(x, input_frame, Frame.OBSTACLE)
-- 
2.43.0


From 29103ae5a483e4159c4fef3bcf4c6468cd029cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:42 +0000
Subject: [PATCH 11/41] fix: StarshapedPolygon kernel was an invalid polygon
 due to near-duplicate points

---
 obstacles/starshaped_polygon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index 85eba3c..1bbab35 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -859,7 +859,8 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
         if debug or verbose:
             draw(xk, F1_idx, L1_idx, 0, xk_bounded)
             plt.show()
-        _, idx = np.unique(xk, axis=0, return_index=True)
+        # Remove duplicate points (up to rounding, since these give an invalid polygon)
+        _, idx = np.unique(np.round(xk, 10), axis=0, return_index=True)
         xk = xk[np.sort(idx), :]
         self._kernel = shapely.geometry.Polygon(xk)
 
-- 
2.43.0


From f89a03d3a3e2dc12e1ace22dfba58a5b88f4ffe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:42 +0000
Subject: [PATCH 12/41] fix: motion models shared their position array with
 callers

---
 obstacles/motion_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obstacles/motion_model.py b/obstacles/motion_model.py
index 64e4746..f916418 100644
--- a/obstacles/motion_model.py
+++ b/obstacles/motion_model.py
@@ -13,12 +13,12 @@ class MotionModel(ABC):
         xy_vel = np.array(self.lin_vel())
         rot_vel = self.rot_vel()
         prev_pos, prev_rot = self._pos.copy(), self._rot
-        self._pos += xy_vel * dt
+        self._pos = self._pos + xy_vel * dt
         self._rot += rot_vel * dt
         self._t += dt
 
     def set_pos(self, pos):
-        self._pos = pos
+        self._pos = np.array(pos, dtype='float64')
 
     def set_rot(self, rot):
         self._rot = rot
-- 
2.43.0


From b5761995c49b2bb483ca85a107574df06f9c344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:42 +0000
Subject: [PATCH 13/41] fix: Interval velocity at the final time point used the
 wrong interval

---
 obstacles/motion_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/motion_model.py b/obstacles/motion_model.py
index f916418..ecbd6d8 100644
--- a/obstacles/motion_model.py
+++ b/obstacles/motion_model.py
@@ -82,7 +82,7 @@ class Interval(MotionModel):
         super().__init__(init_pos, 0)
 
     def lin_vel(self):
-        if self._t > self.time_point[-1]:
+        if self._t >= self.time_point[-1]:
             vel_norm = np.linalg.norm((self.pos_point[-1] - self.pos_point[-2]) / (self.time_point[-1] - self.time_point[-2]))
             dir = self.pos_point[-1] - self.pos()
             if np.linalg.norm(dir) > vel_norm:
-- 
2.43.0


From e99953d2ea61780cc90de3312a2dc687ce824132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:08 +0000
Subject: [PATCH 14/41] fix: set_xr with safe_set failed and set_xr kept a
 reference to the given array

---
 obstacles/ellipse.py             | 2 +-
 obstacles/starshaped_obstacle.py | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index c407d6d..9d7a3b1 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -138,7 +138,7 @@ class Ellipse(StarshapedObstacle):
         self._is_convex = True
 
     def _compute_kernel(self):
-        self._kernel = self._polygon
+        self._kernel = self.polygon(Frame.OBSTACLE)
 
     def _compute_polygon_representation(self):
         # logprint(str(self) + ": " + str(self._polygon), 0)
diff --git a/obstacles/starshaped_obstacle.py b/obstacles/starshaped_obstacle.py
index 122ab8f..e154649 100644
--- a/obstacles/starshaped_obstacle.py
+++ b/obstacles/starshaped_obstacle.py
@@ -1,5 +1,6 @@
 from abc import abstractmethod
 import numpy as np
+import shapely
 from obstacles import Obstacle, Frame
 from shapely import affinity as sh_affinity
 
@@ -17,10 +18,10 @@ class StarshapedObstacle(Obstacle):
         return self.transform(self._xr, Frame.OBSTACLE, output_frame)
 
     def set_xr(self, xr, input_frame=Frame.OBSTACLE, safe_set=False):
-        new_xr = self.transform(xr, input_frame, Frame.OBSTACLE)
+        new_xr = np.array(self.transform(xr, input_frame, Frame.OBSTACLE))
         if safe_set:
-            k = self.kernel()
-            if not k.exterior_point(new_xr, Frame.OBSTACLE):
+            k = self.kernel(Frame.OBSTACLE)
+            if k.covers(shapely.geometry.Point(new_xr)):
                 self._xr = new_xr
         else:
             self._xr = new_xr
-- 
2.43.0


From b39d949cecdf3412ada75e61544cde411e6c7bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:08 +0000
Subject: [PATCH 15/41] fix: polygon of a dilated Ellipse depended on whether
 the original polygon had been computed

---
 obstacles/ellipse.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index 9d7a3b1..a54d9cf 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -27,11 +27,6 @@ class Ellipse(StarshapedObstacle):
         cp._a += padding
         cp._a2 = np.square(cp._a)
         cp.enclosing_ball_diameter = max(2 * cp._a[0], 2 * cp._a[1])
-        if self._polygon is not None:
-            cp._polygon = self._polygon.buffer(padding, cap_style=1, join_style=1)
-            cp._polygon_global_pose = None
-            cp._polygon_global = None
-            cp._kernel = cp._polygon
         return cp
 
     def init_plot(self, ax=None, show_reference=True, show_name=False, **kwargs):
-- 
2.43.0


From ef724b4c131feb9fcc2380f0686a8a72b2885c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:08 +0000
Subject: [PATCH 16/41] fix: enclosing ball of a dilated StarshapedPolygon
 could be smaller than the obstacle

---
 obstacles/starshaped_polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index 1bbab35..f36428d 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -31,7 +31,7 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
         cp = self.copy(id, name)
         cp._polygon = cp._polygon.buffer(padding, cap_style=1, join_style=1)
         cp._pol_bounds = cp._polygon.bounds
-        cp.enclosing_ball_diameter = max(cp._polygon.bounds[2]-cp._polygon.bounds[0], cp._polygon.bounds[3]-cp._polygon.bounds[1])
+        cp.enclosing_ball_diameter = cp._polygon.bounds[2]-cp._polygon.bounds[0] + cp._polygon.bounds[3]-cp._polygon.bounds[1]
         cp.vertices = np.array(cp._polygon.exterior.coords[:-1])
         cp.circular_vertices = np.array(cp._polygon.exterior.coords)
         cp._polygon_global_pose = None
-- 
2.43.0


From 1df3495c7c7964153fe02a995f17e55e39d1e09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:08 +0000
Subject: [PATCH 17/41] fix: copy of Ellipse and StarshapedPolygon lacked the
 default arguments

---
 obstacles/ellipse.py            | 2 +-
 obstacles/starshaped_polygon.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index a54d9cf..9cd4e14 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -17,7 +17,7 @@ class Ellipse(StarshapedObstacle):
         super().__init__(xr=xr, **kwargs)
         self.enclosing_ball_diameter = max(2*self._a[0], 2*self._a[1])
 
-    def copy(self, id, name):
+    def copy(self, id='temporary', name=None):
         if (id == 'duplicate' or id == 'd'):
             id = self.id()
         return Ellipse(id=id, name=name, a=self._a, xr=self._xr, n_pol=self._n_pol, motion_model=self._motion_model)
diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index f36428d..d994583 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -21,7 +21,7 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
         self._update_vertex_angles()
         self.enclosing_ball_diameter = self._polygon.bounds[2]-self._polygon.bounds[0] + self._polygon.bounds[3]-self._polygon.bounds[1]
 
-    def copy(self, id, name):
+    def copy(self, id='temporary', name=None):
         if (id == 'duplicate' or id == 'd'):
             id = self.id()
         return StarshapedPolygon(id=id, name=name, polygon=self._polygon, xr=self._xr, motion_model=self._motion_model)
-- 
2.43.0


From 6eea1c7133b47139311f5df95db34a38cddc1c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:04 +0000
Subject: [PATCH 18/41] fix: normal and set_xr of
 StarshapedPrimitiveCombination failed before the polygon was computed

---
 obstacles/starshaped_primitive_combination.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index 60b8133..aadea64 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -210,8 +210,9 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
             return [np.array([ip[0], ip[1]]) for g in intersection_points_shapely.geoms for ip in g.coords]
 
     def _update_vertex_angles(self):
-        self.vertices = np.array(self._polygon.exterior.coords[:-1])
-        self.circular_vertices = np.array(self._polygon.exterior.coords)
+        polygon = self.polygon()
+        self.vertices = np.array(polygon.exterior.coords[:-1])
+        self.circular_vertices = np.array(polygon.exterior.coords)
         self.vertex_angles = np.arctan2(self.vertices[:, 1] - self._xr[1], self.vertices[:, 0] - self._xr[0])
         idcs = np.argsort(self.vertex_angles)
         self.vertex_angles = self.vertex_angles[idcs]
-- 
2.43.0


From 690773a5cf33e221dfccb554d8db66bfb50b645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:04 +0000
Subject: [PATCH 19/41] fix: boundary mapping of StarshapedPrimitiveCombination
 failed close to the reference point

---
 obstacles/starshaped_primitive_combination.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index aadea64..fad9d21 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -62,7 +62,7 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
 
     def boundary_mapping(self, x, input_frame=Frame.GLOBAL, output_frame=Frame.GLOBAL):
         # intersection_points = [p for ps in self.line_intersection([self._xr, self._xr+10*(x-self._xr)]) for p in ps]
-        intersection_points = self.line_intersection([self._xr, self._xr+10*(x-self._xr)])
+        intersection_points = self.line_intersection(self._reference_ray(x))
         if not intersection_points:
             return None
         dist_intersection_points = [np.linalg.norm(ip - self._xr) for ip in intersection_points]
@@ -84,7 +84,7 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
         if type == 'sub_normal':
             boundary_obs_idx = 0
             max_dist = -1
-            line = [self._xr, self._xr+10*(x-self._xr)]
+            line = self._reference_ray(x)
             for i, o in enumerate(self._obstacle_cluster):
                 intersection_points = o.line_intersection(line, Frame.GLOBAL, Frame.GLOBAL)
                 for p in intersection_points:
@@ -179,6 +179,13 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
         self.update_plot(line_handles)
         return line_handles, ax
 
+    # Line segment from the reference point in direction of x, leaving the obstacle
+    def _reference_ray(self, x):
+        xmin, ymin, xmax, ymax = self.polygon().bounds
+        dist = np.linalg.norm(x-self._xr)
+        scale = max(10, 2*(xmax-xmin+ymax-ymin)/dist) if dist > 0 else 10
+        return [self._xr, self._xr+scale*(x-self._xr)]
+
     def _hull_cluster_point_location(self, x):
         if self._hull_cluster is None:
             return 1
-- 
2.43.0


From 2e16dbdd95d07cb7e24bd3c1bce4a493ead9c053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:04 +0000
Subject: [PATCH 20/41] fix: vel_intertial_frame of
 StarshapedPrimitiveCombination mixed up intersection points and obstacles

---
 obstacles/starshaped_primitive_combination.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index fad9d21..4596b96 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -71,13 +71,12 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
     def vel_intertial_frame(self, x):
         boundary_obs_idx = 0
         max_dist = -1
-        for i, ps in enumerate(self.line_intersection([self._xr, self._xr+10*(x-self._xr)])):
-            o_intersection_dist = max([np.linalg.norm(p-self._xr) for p in ps] + [-1])
+        line = self._reference_ray(x)
+        for i, o in enumerate(self._obstacle_cluster):
+            o_intersection_dist = max([np.linalg.norm(p-self._xr) for p in o.line_intersection(line)] + [-1])
             if o_intersection_dist > max_dist:
                 boundary_obs_idx = i
                 max_dist = o_intersection_dist
-        if boundary_obs_idx >= len(self._obstacle_cluster):
-            boundary_obs_idx -= len(self._obstacle_cluster)
         return self._obstacle_cluster[boundary_obs_idx].vel_intertial_frame(x)
 
     def normal(self, x, input_frame=Frame.GLOBAL, output_frame=Frame.GLOBAL, x_is_boundary=False, type='weigthed_polygon_approx'):
-- 
2.43.0


From eaa6b57535a4a63f1edb4dd3d67f14512c4a4abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:28 +0000
Subject: [PATCH 21/41] fix: kernel points of non-starshaped obstacles were
 selected far away from the obstacles

---
 starshaped_hull/cluster_and_starify.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 2e825e8..5f63cd8 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -99,12 +99,13 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     tcss_tmp = tcss
     ts['ws check'] = toc(t0)
     # Try to use intersection of all obstacle kernels in cluster if all starshaped
-    if all([o.is_starshaped() for o in cl.obstacles]):
+    all_starshaped = all([o.is_starshaped() for o in cl.obstacles])
+    if all_starshaped:
         for o in cl.obstacles:
             tcss_tmp = tcss_tmp.intersection(o.kernel())
     ts['kernel intersection'] = toc(t0)-list(ts.values())[-1]
     # Else, try to use union of all obstacles in cluster
-    if tcss_tmp.area < 1e-6:
+    if not all_starshaped or tcss_tmp.area < 1e-6:
         tcss_tmp = tcss.intersection(cl.polygon_excluding_hull())
     ts['cluster intersection'] = toc(t0)-list(ts.values())[-1]
     if tcss_tmp.area > 1e-6:
-- 
2.43.0


From 5e3cd8a74bcca84977674d52f386b362f417c07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:28 +0000
Subject: [PATCH 22/41] fix: cluster_and_starify failed for convex obstacles
 given as Polygon

---
 starshaped_hull/cluster_and_starify.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 5f63cd8..3edff51 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -1,6 +1,6 @@
 import shapely
 import numpy as np
-from obstacles import Frame, StarshapedPrimitiveCombination, Ellipse, StarshapedPolygon
+from obstacles import Frame, StarshapedObstacle, StarshapedPrimitiveCombination, Ellipse, StarshapedPolygon
 from utils import is_ccw, is_collinear, equilateral_triangle, Cone, tic, toc, draw_shapely_polygon
 from scipy.spatial import ConvexHull
 import starshaped_hull as sh
@@ -102,7 +102,7 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     all_starshaped = all([o.is_starshaped() for o in cl.obstacles])
     if all_starshaped:
         for o in cl.obstacles:
-            tcss_tmp = tcss_tmp.intersection(o.kernel())
+            tcss_tmp = tcss_tmp.intersection(o.polygon() if o.is_convex() else o.kernel())
     ts['kernel intersection'] = toc(t0)-list(ts.values())[-1]
     # Else, try to use union of all obstacles in cluster
     if not all_starshaped or tcss_tmp.area < 1e-6:
@@ -257,7 +257,7 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
         hull_compute_time[0] += toc(t1)
         t1 = tic()
         k_centroid = np.mean(cl.kernel_points, axis=0)
-        if cluster_hull_extensions is None:
+        if cluster_hull_extensions is None and isinstance(o, StarshapedObstacle):
             cl.cluster_obstacle = o
             cl.cluster_obstacle.set_xr(k_centroid, input_frame=Frame.GLOBAL)
         else:
-- 
2.43.0


From 14007be2704e32d71656c4c802e8ff9a5a2b3514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:28 +0000
Subject: [PATCH 23/41] fix: kernel point selection failed when the selection
 set contained isolated points or lines

---
 starshaped_hull/cluster_and_starify.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 3edff51..6d6ac2a 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -110,6 +110,9 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     ts['cluster intersection'] = toc(t0)-list(ts.values())[-1]
     if tcss_tmp.area > 1e-6:
         tcss = tcss_tmp
+    if tcss.geom_type == 'GeometryCollection':
+        # Ignore points and lines
+        tcss = shapely.ops.unary_union([g for g in tcss.geoms if g.geom_type in ('Polygon', 'MultiPolygon')])
 
     # If not tc from previous iteraion, use closest point to TCSS in ad ker as triangle center
     if triangle_center_prev is None:
-- 
2.43.0


From a13cbda3ea3f8b218c317e462233222ee96a3575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 24/41] fix: kernel point selection did not terminate when x
 equals xg

---
 starshaped_hull/cluster_and_starify.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 6d6ac2a..b0cca2e 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -114,20 +114,23 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
         # Ignore points and lines
         tcss = shapely.ops.unary_union([g for g in tcss.geoms if g.geom_type in ('Polygon', 'MultiPolygon')])
 
+    # No line l(x,xg) to avoid if the robot is at the goal
+    at_goal = np.linalg.norm(np.array(xg) - np.array(x)) < 1e-5
+
     # If not tc from previous iteraion, use closest point to TCSS in ad ker as triangle center
     if triangle_center_prev is None:
         tc, _ = shapely.ops.nearest_points(cl.admissible_kernel, tcss.centroid)
         triangle_center = np.array(tc.coords[0])
-        while is_collinear(x, xg, triangle_center):
+        while not at_goal and is_collinear(x, xg, triangle_center):
             triangle_center += np.random.uniform(-1e-4, 1e-4, 2)
     # Else, use previous triangle center if still in selection set
     elif tcss.contains(shapely.geometry.Point(triangle_center_prev))\
-            and not is_collinear(x, xg, triangle_center_prev):
+            and (at_goal or not is_collinear(x, xg, triangle_center_prev)):
         triangle_center = triangle_center_prev
     # Else, try to maintain triangle center on same side of l(x,xg) as previous time step
     else:
         x_xg_line = shapely.geometry.LineString([x, xg])
-        splitted_tcss = shapely.ops.split(tcss, x_xg_line).geoms
+        splitted_tcss = [tcss] if at_goal else shapely.ops.split(tcss, x_xg_line).geoms
         triangle_center_selection_set = splitted_tcss[0]
         if len(splitted_tcss) > 1:
             for i in range(1, len(splitted_tcss)):
-- 
2.43.0


From 293ee6d3b1b78c1263b2df867ce6a6b95a90a123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 25/41] fix: clusters without cluster obstacle were returned as
 complete when reaching max_iterations

---
 starshaped_hull/cluster_and_starify.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index b0cca2e..a9a4427 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -323,6 +323,12 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
         hull_compute_time += [0.]
         star_obj_time += [0.]
 
+        # Check number of iterations
+        if n_iter >= max_iterations:
+            if verbose:
+                print("[Cluster and Starify]: Max iterations.")
+            return default_result()
+
         # Check compute time
         if max_compute_time < toc(t0):
             if verbose:
@@ -414,9 +420,6 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
 
         n_iter += 1
 
-        if n_iter >= max_iterations:
-            break
-
     # ----------- Make Convex ----------- #
 
     if make_convex:
-- 
2.43.0


From 10d01c65c439a7fc482e873d457e7801bf39b637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 26/41] fix: the history was not returned when reaching
 max_compute_time in make_convex

---
 starshaped_hull/cluster_and_starify.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index a9a4427..bdd319f 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -431,7 +431,10 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
                 if max_compute_time < toc(t0):
                     if verbose:
                         print("[Cluster and Starify]: Max compute time in convex hull.")
-                    return clusters, [sum(cluster_time), init_kernel_time+sum(kernel_time), sum(hull_time), toc(t1)], MAX_COMPUTE_TIME_CONVEX_HULL, n_iter
+                    timing_vec = [sum(cluster_time), init_kernel_time+sum(kernel_time), sum(hull_time), toc(t1)]
+                    if return_history:
+                        return clusters, timing_vec, MAX_COMPUTE_TIME_CONVEX_HULL, n_iter, cluster_iterations
+                    return clusters, timing_vec, MAX_COMPUTE_TIME_CONVEX_HULL, n_iter
 
                 v = np.array(cl.polygon().exterior.coords)[:-1, :]
                 hull = ConvexHull(v)
-- 
2.43.0


From 7d35214fd81d821a02d46d750e0937130c020743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 27/41] fix: make_convex used outdated cluster polygons and
 changed the cluster id

---
 starshaped_hull/cluster_and_starify.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index bdd319f..6203112 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -442,7 +442,9 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
                 if not any([hull_polygon.contains(shapely.geometry.Point(x_ex)) for x_ex in [x, xg]]) and not any(
                         [hull_polygon.intersects(clusters[k].polygon()) for k in range(len(clusters)) if k != j]):
                     # clusters[j].cluster_obstacle = StarshapedPrimitiveCombination(cl.obstacles, hull_polygon, cl.cluster_obstacle.xr(Frame.GLOBAL))
-                    clusters[j].cluster_obstacle = StarshapedPolygon(hull_polygon, xr=cl.cluster_obstacle.xr(Frame.GLOBAL))
+                    clusters[j].cluster_obstacle = StarshapedPolygon(hull_polygon, xr=cl.cluster_obstacle.xr(Frame.GLOBAL),
+                                                                     id=cl.cluster_obstacle.id())
+                    clusters[j]._polygon = None  # Polygon of cluster obstacle has changed
 
         convex_time = toc(t1)
     # ----------- End Make Convex ----------- #
-- 
2.43.0


From e323b955ca6f06bc70555dc950c5f600c5c2dcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 28/41] fix: clusters of an incomplete result could not be used
 as previous_clusters

---
 starshaped_hull/cluster_and_starify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 6203112..4701c96 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -84,7 +84,7 @@ def get_intersection_clusters(clusters):
 
 
 def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
-    triangle_center_prev = np.mean(cl_prev.kernel_points, axis=0) if cl_prev else None
+    triangle_center_prev = np.mean(cl_prev.kernel_points, axis=0) if cl_prev and cl_prev.kernel_points is not None else None
 
     t0 = tic()
     ts = {}
-- 
2.43.0


From 3b13143f4fd5ba46e6d0b4044473a5da738f9410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 29/41] fix: exclude_obstacles failed for ellipses

---
 obstacles/ellipse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index 9cd4e14..094e2ab 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -29,6 +29,10 @@ class Ellipse(StarshapedObstacle):
         cp.enclosing_ball_diameter = max(2 * cp._a[0], 2 * cp._a[1])
         return cp
 
+    def extreme_points(self, frame=Frame.GLOBAL):
+        vertices = np.asarray(self.polygon(frame).exterior.coords)[:-1, :]
+        return [vertices[i] for i in range(vertices.shape[0])]
+
     def init_plot(self, ax=None, show_reference=True, show_name=False, **kwargs):
         if ax is None:
             _, ax = plt.subplots(subplot_kw={'aspect': 'equal'})
-- 
2.43.0


From 9d15e7b1c507aa92308f2e84b3d812c5ba524aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 30/41] fix: kernel points were selected far away when the
 admissible kernel is outside the obstacles

---
 starshaped_hull/cluster_and_starify.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 4701c96..ef7228c 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -107,6 +107,10 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     # Else, try to use union of all obstacles in cluster
     if not all_starshaped or tcss_tmp.area < 1e-6:
         tcss_tmp = tcss.intersection(cl.polygon_excluding_hull())
+    # Else, at least stay close to the cluster
+    if tcss_tmp.area < 1e-6:
+        cl_polygon = cl.polygon_excluding_hull()
+        tcss_tmp = tcss.intersection(cl_polygon.buffer(tcss.distance(cl_polygon) + np.sqrt(cl_polygon.area)))
     ts['cluster intersection'] = toc(t0)-list(ts.values())[-1]
     if tcss_tmp.area > 1e-6:
         tcss = tcss_tmp
-- 
2.43.0


From 0d9d4438703e766c35743b91699d4e1c5a51c74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:26 +0000
Subject: [PATCH 31/41] fix: starshaped hull of a polygon could be
 self-intersecting at the kernel points

---
 starshaped_hull/starshaped_hull.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/starshaped_hull/starshaped_hull.py b/starshaped_hull/starshaped_hull.py
index 8fde482..bb9d455 100644
--- a/starshaped_hull/starshaped_hull.py
+++ b/starshaped_hull/starshaped_hull.py
@@ -203,5 +203,7 @@ def polygon_kernel_starshaped_hull(polygon, kernel_points, debug=0):
         ax.plot(*k_centroid, 'bs')
         plt.show()
 
-    return shapely.geometry.Polygon(star_vertices)
+    hull_polygon = shapely.geometry.Polygon(star_vertices)
+    # The order of the kernel points may result in a small loop
+    return hull_polygon if hull_polygon.is_valid else hull_polygon.buffer(0)
 
-- 
2.43.0


From 2a23bf97c3a245d903727dd738e0671bc7b3aeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:46 +0000
Subject: [PATCH 32/41] fix: kernel point selection failed with a clock too
 coarse for its timing statistics

---
 starshaped_hull/cluster_and_starify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index ef7228c..5bd1c1a 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -163,7 +163,7 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     ts['triangle generation'] = toc(t0)-list(ts.values())[-1]
     tot_time = sum(ts.values())
     for k in ts.keys():
-        ts[k] = int(ts[k] / tot_time * 100)
+        ts[k] = int(ts[k] / tot_time * 100) if tot_time else 0
     # print(ts)
     return kernel_points
 
-- 
2.43.0


From 274d6d81b61259436b50c9d5e9da0e88e1f4d125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:29 +0000
Subject: [PATCH 33/41] fix: drawing an obstacle cluster failed since axes and
 line handles were mixed up

---
 starshaped_hull/cluster_and_starify.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 5bd1c1a..b1863e1 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -35,10 +35,10 @@ class ObstacleCluster:
 
     def draw(self, ax=None):
         if self.cluster_obstacle is not None:
-            ax, _ = self.cluster_obstacle.draw(ax=ax, fc="green")
+            line_handles, ax = self.cluster_obstacle.draw(ax=ax, fc="green")
         for obs in self.obstacles:
-            ax, _ = obs.draw(ax=ax)
-        return ax, _
+            line_handles, ax = obs.draw(ax=ax)
+        return line_handles, ax
 
 
 def get_intersection_clusters(clusters):
-- 
2.43.0


From 60890a6fa1ab9437f8eabcd8554fabd4cd9156d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:29 +0000
Subject: [PATCH 34/41] fix: name of an obstacle cluster depended on the order
 of its obstacles, so that a cluster lost its identity and kernel points when
 the merging order changed

---
 starshaped_hull/cluster_and_starify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index b1863e1..f79caf8 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -9,7 +9,7 @@ import matplotlib.pyplot as plt
 
 class ObstacleCluster:
     def __init__(self, obstacles):
-        self.name = '_'.join([str(o.id()) for o in obstacles])
+        self.name = '_'.join(sorted([str(o.id()) for o in obstacles]))
         self.obstacles = obstacles
         self.cluster_obstacle = None if len(obstacles) > 1 else obstacles[0]
         self.kernel_points = None
-- 
2.43.0


From adb9ecffdb8fbb6d708ea2b9584ed9b34f7332ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 35/41] fix: equilateral_triangle moved the centroid when given
 a rotation

---
 utils/cg.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index 540ebab..1643cab 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -204,15 +204,13 @@ def get_intersection(a1, a2, b1, b2):
 
 
 def equilateral_triangle(centroid, side_length, rot=0):
-    triangle = np.array(centroid) + np.array([[0, 1 / np.sqrt(3) * side_length],
-                                               [1 / 2 * side_length, -1 / (2*np.sqrt(3)) * side_length],
-                                               [-1 / 2 * side_length, -1 / (2*np.sqrt(3)) * side_length]])
-    if not rot:
-        return triangle
-    c,s = np.cos(rot), np.sin(rot)
-    return np.array([[c * triangle[0, 0] - s * triangle[0, 1], s * triangle[0, 0] + c * triangle[0, 1]],
-                     [c * triangle[1, 0] - s * triangle[1, 1], s * triangle[1, 0] + c * triangle[1, 1]],
-                     [c * triangle[2, 0] - s * triangle[2, 1], s * triangle[2, 0] + c * triangle[2, 1]]])
+    triangle = np.array([[0, 1 / np.sqrt(3) * side_length],
+                         [1 / 2 * side_length, -1 / (2*np.sqrt(3)) * side_length],
+                         [-1 / 2 * side_length, -1 / (2*np.sqrt(3)) * side_length]])
+    if rot:
+        c, s = np.cos(rot), np.sin(rot)
+        triangle = triangle @ np.array([[c, s], [-s, c]])
+    return np.array(centroid) + triangle
 
 
 def convex_hull(points):
-- 
2.43.0


From 324a209fd94ea73573888c2a6e6bb8d4b0a0e8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:11 +0000
Subject: [PATCH 36/41] fix: queries of a cluster obstacle failed when the
 union of its parts was given as a multipolygon with slivers

---
 obstacles/starshaped_primitive_combination.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index 4596b96..a618741 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -4,12 +4,20 @@ from obstacles import Frame, StarshapedObstacle, StarshapedPolygon
 from utils import is_ccw, is_cw, draw_shapely_polygon
 import matplotlib.pyplot as plt
 
+# Unions may, due to rounding, be given as a multipolygon where all parts but one are slivers
+def single_polygon(polygon):
+    if polygon is None or polygon.geom_type != 'MultiPolygon' or polygon.is_empty:
+        return polygon
+    largest = max(polygon.geoms, key=lambda p: p.area)
+    return largest if polygon.area - largest.area < 1e-12 * polygon.area else polygon
+
+
 # Note: Local == Global frame
 class StarshapedPrimitiveCombination(StarshapedObstacle):
 
     def __init__(self, obstacle_cluster, hull_cluster, xr, **kwargs):
         self._obstacle_cluster = obstacle_cluster
-        self._hull_cluster = hull_cluster
+        self._hull_cluster = single_polygon(hull_cluster)
         super().__init__(xr=xr, **kwargs)
         self.vertices = None
         self.circular_vertices = None
@@ -230,4 +238,4 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
         obs_pol = [obs.polygon() for obs in self._obstacle_cluster]
         if self._hull_cluster is not None:
             obs_pol += [self._hull_cluster]
-        self._polygon = shapely.ops.unary_union(obs_pol)
+        self._polygon = single_polygon(shapely.ops.unary_union(obs_pol))
-- 
2.43.0


From 82d566b6393efa8096b07f3986d6d30e911ab729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:14 +0000
Subject: [PATCH 37/41] fix: repeated vertices of a polygon hid reflex corners,
 such that it was taken for convex, and made the starshaped hull fail

---
 obstacles/polygon.py               | 8 ++++----
 obstacles/starshaped_polygon.py    | 5 ++---
 starshaped_hull/starshaped_hull.py | 4 ++--
 utils/cg.py                        | 6 ++++++
 4 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/obstacles/polygon.py b/obstacles/polygon.py
index 8ef031c..faea856 100644
--- a/obstacles/polygon.py
+++ b/obstacles/polygon.py
@@ -1,5 +1,5 @@
 from obstacles import Obstacle, Frame
-from utils import is_cw, is_ccw, is_collinear, tic, toc
+from utils import is_cw, is_ccw, is_collinear, distinct_vertices, tic, toc
 import shapely
 import numpy as np
 import matplotlib.pyplot as plt
@@ -140,16 +140,16 @@ class Polygon(Obstacle):
 
     # ------------ Private methods ------------ #
     def _check_convexity(self):
-        v = np.asarray(self._polygon.exterior.coords)[:-1, :]
+        v = distinct_vertices(self._polygon)
         i = 0
         N = v.shape[0]
         # Make sure first vertice is not collinear
         while is_collinear(v[i-1, :], v[i, :], v[(i+1) % N, :]):
             i += 1
-            if i > N:
+            if i >= N:
                 raise RuntimeError("Bad polygon shape. All vertices collinear")
         # All vertices must be either cw or ccw when iterating through for convexity
-        if is_cw(v[i-1, :], v[i, :], v[i+1, :]):
+        if is_cw(v[i-1, :], v[i, :], v[(i+1) % N, :]):
             self._is_convex = not any([is_ccw(v[j-1, :], v[j, :], v[(j+1) % N, :]) for j in range(v.shape[0])])
         else:
             self._is_convex = not any([is_cw(v[j-1, :], v[j, :], v[(j+1) % N, :]) for j in range(v.shape[0])])
diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index d994583..fea9e4c 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -2,7 +2,7 @@ from obstacles import Frame, StarshapedObstacle, Polygon
 import matplotlib.pyplot as plt
 import numpy as np
 import shapely
-from utils import is_cw, is_ccw, is_collinear, orientation_val, get_intersection, is_between, tic, toc
+from utils import is_cw, is_ccw, is_collinear, orientation_val, get_intersection, is_between, distinct_vertices, tic, toc
 
 
 class StarshapedPolygon(Polygon, StarshapedObstacle):
@@ -218,8 +218,7 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
         def point_right_of_line(point, line_head, line_tail):
             return is_cw(line_head, line_tail, point)
 
-        pol = shapely.ops.orient(self._polygon)
-        v = np.asarray(pol.exterior.coords)[:-1, :]
+        v = np.asarray(shapely.ops.orient(shapely.geometry.Polygon(distinct_vertices(self._polygon))).exterior.coords)[:-1, :]
 
         # Remove points in line
         v_idcs = np.arange(v.shape[0])
diff --git a/starshaped_hull/starshaped_hull.py b/starshaped_hull/starshaped_hull.py
index bb9d455..86c36c4 100644
--- a/starshaped_hull/starshaped_hull.py
+++ b/starshaped_hull/starshaped_hull.py
@@ -1,7 +1,7 @@
 import shapely
 import numpy as np
 from obstacles import Polygon
-from utils import is_ccw, is_cw, line, ray, Cone, convex_hull
+from utils import is_ccw, is_cw, line, ray, distinct_vertices, Cone, convex_hull
 import matplotlib.pyplot as plt
 
 
@@ -56,7 +56,7 @@ def polygon_kernel_starshaped_hull(polygon, kernel_points, debug=0):
 
     # polygon_sh = polygon.polygon()  # Shapely represenation of polygon
     # vertices = np.asarray(polygon_sh.exterior.coords)[:-1, :]  # Vertices of polygon
-    vertices = np.asarray(polygon.exterior.coords)[:-1, :]  # Vertices of polygon
+    vertices = distinct_vertices(polygon)  # Vertices of polygon
     star_vertices = []  # Vertices of starshaped hull polygon
     v_bar = kernel_points[0].copy() # Last vertex of starshaped hull polygon
     e1_idx = 0
diff --git a/utils/cg.py b/utils/cg.py
index 1643cab..8210f9a 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -203,6 +203,12 @@ def get_intersection(a1, a2, b1, b2):
     return (num / denom.astype(float)) * db + b1
 
 
+# Vertices of polygon, ignoring those coinciding with the previous one since they hide the turn of the boundary
+def distinct_vertices(polygon):
+    v = np.asarray(polygon.exterior.coords)[:-1, :]
+    return v[np.linalg.norm(v - np.roll(v, 1, axis=0), axis=1) > 1e-8 * np.ptp(v, axis=0).max(), :]
+
+
 def equilateral_triangle(centroid, side_length, rot=0):
     triangle = np.array([[0, 1 / np.sqrt(3) * side_length],
                          [1 / 2 * side_length, -1 / (2*np.sqrt(3)) * side_length],
-- 
2.43.0


From bade71094f8a93f40719d2d7086f5a40a8677b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:13 +0000
Subject: [PATCH 38/41] fix: starshaped hull of a non-convex polygon was wrong
 (holes, missing or excess parts, exception) for many kernel points

---
 starshaped_hull/starshaped_hull.py | 164 ++---------------------------
 1 file changed, 11 insertions(+), 153 deletions(-)

diff --git a/starshaped_hull/starshaped_hull.py b/starshaped_hull/starshaped_hull.py
index 86c36c4..02db9d1 100644
--- a/starshaped_hull/starshaped_hull.py
+++ b/starshaped_hull/starshaped_hull.py
@@ -1,7 +1,7 @@
 import shapely
 import numpy as np
 from obstacles import Polygon
-from utils import is_ccw, is_cw, line, ray, distinct_vertices, Cone, convex_hull
+from utils import distinct_vertices, Cone, convex_hull
 import matplotlib.pyplot as plt
 
 
@@ -45,165 +45,23 @@ def convex_kernel_starshaped_hull(convex_obstacle, kernel_points):
     return shapely.geometry.Polygon(pol)
 
 
-# TODO: Improve computational consideration
 def polygon_kernel_starshaped_hull(polygon, kernel_points, debug=0):
     kernel_points = kernel_points.reshape((kernel_points.size//2, 2))
-
-    if kernel_points.shape[0] > 2:
-        # NOTE: Assumes kernel points convex
-        # convex_kernel_subset = shapely.geometry.Polygon(kernel_points[ConvexHull(kernel_points).vertices, :])
-        convex_kernel_subset = shapely.geometry.Polygon(kernel_points)
-
-    # polygon_sh = polygon.polygon()  # Shapely represenation of polygon
-    # vertices = np.asarray(polygon_sh.exterior.coords)[:-1, :]  # Vertices of polygon
     vertices = distinct_vertices(polygon)  # Vertices of polygon
-    star_vertices = []  # Vertices of starshaped hull polygon
-    v_bar = kernel_points[0].copy() # Last vertex of starshaped hull polygon
-    e1_idx = 0
-    e2_idx = 0
-    k_centroid = np.mean(kernel_points, axis=0)
-    k_included = [False] * kernel_points.shape[0]
-
-    # Arrange vertices such that v_1 is the one with largest x-value and vendv1v2 is CCW, (assumes no collinear vertices in P)
-    start_idx = np.argmax(vertices[:, 0])
-    vertices = np.roll(vertices, -start_idx, axis=0)
-    if is_cw(vertices[-1], vertices[0], vertices[1]):
-        vertices = np.flip(vertices, axis=0)
-        vertices = np.roll(vertices, 1, axis=0)
-    # print("Initial sort: {:.1f}".format(toc(t0)))
-
-    # Iterate through all vertices
-    for v_idx, v in enumerate(vertices):
-        adjust_e1 = False
-        # Check if no ray r(v,kv) intersects with interior of polygon
-        if all([ray(v, k, v).disjoint(polygon) for k in kernel_points]):
-            # Add current vertex
-            if kernel_points.shape[0] < 3 or not convex_kernel_subset.contains(shapely.geometry.Point(v)):
-                star_vertices += [v]
-            if star_vertices:
-                # Intersections of lines l(k,v) and l(e1,e2)
-                e1, e2 = star_vertices[e1_idx], star_vertices[e2_idx]
-                e1_e2 = line(e1, e2)
-
-                for k in kernel_points:
-                    kv_e1e2_intersect = line(k,v).intersection(e1_e2)
-                    # Adjust to closest intersection to e2
-                    if not kv_e1e2_intersect.is_empty:
-                        adjust_e1 = True
-                        e1_candidate = np.array([kv_e1e2_intersect.x, kv_e1e2_intersect.y])
-                        if np.linalg.norm(e2 - e1_candidate) < np.linalg.norm(e2 - star_vertices[e1_idx]):
-                            star_vertices[e1_idx] = e1_candidate
-
-            if not adjust_e1:
-                for k_idx, k in enumerate(kernel_points):
-                    kps = [kp for kp in kernel_points if not np.array_equal(kp, k)]
-                    kv_P_intersect = line(k, v).intersection(polygon)
 
-                    # If l(k,v) intersects interior of P
-                    if not kv_P_intersect.is_empty:
-                        # Find last intersection of l(k,v) and polygon boundary
-                        if kv_P_intersect.geom_type == 'LineString':
-                            intersection_points = [np.array([ip[0], ip[1]]) for ip in kv_P_intersect.coords]
-                        elif kv_P_intersect.geom_type == 'MultiLineString':
-                            intersection_points = [np.array([ip[0], ip[1]]) for l in kv_P_intersect.geoms for ip in
-                                                   l.coords]
-                        elif kv_P_intersect.geom_type == 'GeometryCollection':
-                            intersection_points = []
-                            for g in kv_P_intersect.geoms:
-                                if g.geom_type == 'Point':
-                                    intersection_points += [np.array(g.coords[0])]
-                                if kv_P_intersect.geom_type == 'LineString':
-                                    intersection_points += [np.array([ip[0], ip[1]]) for ip in g.coords]
-                        else:
-                            intersection_points = []
-
-                        u = None
-                        u_v = None
-                        for u_candidate in intersection_points:
-                            u_v = line(u_candidate, v)
-                            if u_v.disjoint(polygon):
-                                u = u_candidate
-                                break
-                        if u is None:
-                            continue
-
-                        # If no ray r(u,k'v) intersect with interior of polygon
-                        if not any([ray(u, kp, v).intersects(polygon) for kp in kps]):
-                            # Adjust u if l(k',v_bar) intersects l(u,v)
-                            for kp in kps:
-                                kpvb_uv_intersect = line(kp, v_bar).intersection(u_v)
-                                if not kpvb_uv_intersect.is_empty:
-                                    u = np.array([kpvb_uv_intersect.x, kpvb_uv_intersect.y])
-                            # Append u to P*
-                            star_vertices += [u]
-                            # Update last augmented edge
-                            e1_idx, e2_idx = len(star_vertices)-1, len(star_vertices)-2
-                            # Swap last vertices if not CCW
-                            if is_ccw(u, v, vertices[v_idx-1]):
-                            # if is_ccw(v_bar, v, u):
-                            # if is_cw(k_centroid, v, u):
-                                star_vertices[-2], star_vertices[-1] = star_vertices[-1], star_vertices[-2]
-                                e1_idx, e2_idx = e2_idx, e1_idx
-                            adjust_e1 = True
-                    else:
-                        # Check if no ray r(k,k'v) intersect with interior of polygon
-                        if (not k_included[k_idx]) and (not any([ray(k, kp, v).intersects(polygon) for kp in kps])):
-                            k_included[k_idx] = True
-                            # Append k to P*
-                            star_vertices += [k]
-                            # Update last augmented edge
-                            e1_idx, e2_idx = len(star_vertices)-1, len(star_vertices)-2
-                            # Swap last vertices if not CCW
-                            if is_ccw(k, v, vertices[v_idx-1]):
-                            # if is_cw(k_centroid, v, k):
-                                star_vertices[-2], star_vertices[-1] = star_vertices[-1], star_vertices[-2]
-                                e1_idx, e2_idx = e2_idx, e1_idx
-                            adjust_e1 = True
-            # Update v_bar
-            v_bar = star_vertices[-1]
-
-            # Visualize debug information
-            if debug == 1:
-                plt.plot(*k_centroid, 'ko')
-                plt.plot(*polygon.exterior.xy, 'k')
-                plt.plot([p[0] for p in star_vertices], [p[1] for p in star_vertices], 'g-o', linewidth=2)
-                [plt.plot(*k, 'kx') for k in kernel_points]
-                [plt.plot(*line(k,v).xy, 'k--') for k in kernel_points]
-                if adjust_e1:
-                    plt.plot(*star_vertices[e1_idx], 'ys')
-                plt.show()
-
-    # Check not added kernel points if they should be included
-    for j in range(len(star_vertices)):
-        v, vp = star_vertices[j - 1], star_vertices[j]
-        for k_idx, k in enumerate(kernel_points):
-            if (not k_included[k_idx]) and is_cw(k, v, vp):
-                k_included[k_idx] = True
-                # Insert k
-                star_vertices = star_vertices[:j] + [k] + star_vertices[j:]
-                # Visualize debug information
-                if debug == 1:
-                    plt.plot(*k_centroid, 'ko')
-                    plt.plot(*polygon.exterior.xy, 'k')
-                    plt.plot([p[0] for p in star_vertices], [p[1] for p in star_vertices], 'g-o', linewidth=2)
-                    [plt.plot(*ki, 'kx') for ki in kernel_points]
-                    plt.plot(*line(k, v).xy, 'r--*')
-                    plt.plot(*line(k, vp).xy, 'r--*')
-                    plt.plot(*k, 'go')
-                    plt.show()
-    # print("Final kernel check: {:.1f}".format(toc(t0)))
+    # Any point of the hull lies on a segment from the convex hull of the kernel points to the polygon boundary
+    edges = zip(vertices, np.roll(vertices, -1, axis=0))
+    edge_hulls = [shapely.geometry.MultiPoint(np.vstack((kernel_points, e))).convex_hull for e in edges]
+    hull = shapely.ops.unary_union([polygon] + [eh for eh in edge_hulls if eh.geom_type == 'Polygon'])
+    # A starshaped set is connected and has no holes (but rounding may split off a sliver)
+    hull_polygon = shapely.geometry.Polygon(max(getattr(hull, 'geoms', [hull]), key=lambda g: g.area).exterior)
 
     if debug:
         ax = plt.gca()
         ax.plot(*polygon.exterior.xy, 'k')
-        ax.plot([p[0] for p in star_vertices] + [star_vertices[0][0]],
-                [p[1] for p in star_vertices] + [star_vertices[0][1]], 'g-o', linewidth=2)
-        # [ax.plot(star_vertices[i][0], star_vertices[i][1], 'r*') for i in augmented_vertex_idcs]
-        [ax.plot(*zip(k, sv), 'y--') for sv in star_vertices for k in kernel_points]
-        ax.plot(*k_centroid, 'bs')
+        ax.plot(*hull_polygon.exterior.xy, 'g-o', linewidth=2)
+        [ax.plot(*zip(k, sv), 'y--') for sv in hull_polygon.exterior.coords for k in kernel_points]
+        ax.plot(*np.mean(kernel_points, axis=0), 'bs')
         plt.show()
 
-    hull_polygon = shapely.geometry.Polygon(star_vertices)
-    # The order of the kernel points may result in a small loop
-    return hull_polygon if hull_polygon.is_valid else hull_polygon.buffer(0)
-
+    return hull_polygon
-- 
2.43.0


From e8bf5d8c88cdafc9572480aad343c43bf1ebf0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:52 +0000
Subject: [PATCH 39/41] fix: kernel of starshaped polygons was wrong or not
 found for several reflex vertices or large coordinates

---
 obstacles/starshaped_polygon.py | 697 +-------------------------------
 1 file changed, 21 insertions(+), 676 deletions(-)

diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index fea9e4c..77f05f1 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -2,7 +2,7 @@ from obstacles import Frame, StarshapedObstacle, Polygon
 import matplotlib.pyplot as plt
 import numpy as np
 import shapely
-from utils import is_cw, is_ccw, is_collinear, orientation_val, get_intersection, is_between, distinct_vertices, tic, toc
+from utils import distinct_vertices
 
 
 class StarshapedPolygon(Polygon, StarshapedObstacle):
@@ -182,685 +182,30 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
         self.circular_vertices = np.vstack((self.vertices, self.vertices[0, :]))
         self.vertex_angles = np.hstack((self.vertex_angles, self.vertex_angles[0] + 2 * np.pi))
 
-    def _compute_kernel(self, verbose=False, debug=False):
+    def _compute_kernel(self):
         if self.is_convex():
             self._kernel = self._polygon
             return
 
-        # Returns true if vertex v[i, :] is reflex
-        def is_reflex(i):
-            return is_cw(v[i - 1, :], v[i, :], v[(i + 1) % v.shape[0], :])
-
-        # Show polygon
-        def draw(xk, F1_idx, L1_idx, i, xk_bounded):
-            v_ext = np.vstack((v, v[0, :]))
-            xk_ext = np.vstack((xk, xk[0, :])) if xk_bounded else xk
-            plt.plot(v_ext[:, 0], v_ext[:, 1], label='v', marker='.')
-            # plt.plot(v_ext[:, 0], v_ext[:, 1], label='v')
-            # plt.text(v_ext[0, 0], v_ext[0, 1], 'v0')
-            plt.text(xk[0, 0], xk[0, 1], 'xk0')
-            axes = plt.gca()
-            xlim, ylim = axes.get_xlim(), axes.get_ylim()
-            plt.plot(xk_ext[:, 0], xk_ext[:, 1], label='xk')
-            plt.plot(xk[F1_idx, 0], xk[F1_idx, 1], marker='o', c='c', label='F1')
-            end_point = v[i, :] + INF_VAL * (xk[F1_idx, :] - v[i, :]) / np.linalg.norm(xk[F1_idx, :] - v[i, :])
-            plt.plot([v[i, 0], end_point[0]], [v[i, 1], end_point[1]], 'c--')
-            plt.plot(xk[L1_idx, 0], xk[L1_idx, 1], marker='o', c='b', label='L1')
-            end_point = v[i, :] + INF_VAL * (xk[L1_idx, :] - v[i, :]) / np.linalg.norm(xk[L1_idx, :] - v[i, :])
-            plt.plot([v[i, 0], end_point[0]], [v[i, 1], end_point[1]], 'b--')
-            plt.plot(v[i, 0], v[i, 1], marker='x', c='r', ms=12, label='v{}'.format(i))
-            axes.set_xlim(xlim)
-            axes.set_ylim(ylim)
-
-        def point_left_of_line(point, line_head, line_tail):
-            return is_ccw(line_head, line_tail, point)
-
-        def point_right_of_line(point, line_head, line_tail):
-            return is_cw(line_head, line_tail, point)
-
         v = np.asarray(shapely.ops.orient(shapely.geometry.Polygon(distinct_vertices(self._polygon))).exterior.coords)[:-1, :]
+        tol = 1e-10 * np.ptp(v, axis=0).max()
+
+        # The kernel is the bounding box clipped by the half-planes to the left of all edges
+        xk = np.array(shapely.geometry.box(*np.min(v, axis=0), *np.max(v, axis=0)).exterior.coords)[:-1, :]
+        for start, end in zip(v, np.roll(v, -1, axis=0)):
+            n = np.array([start[1] - end[1], end[0] - start[0]]) / np.linalg.norm(end - start)
+            dist = (xk - start).dot(n)
+            dist[np.abs(dist) < tol] = 0.
+            xk_clipped = []
+            for i in range(xk.shape[0]):
+                if dist[i - 1] * dist[i] < 0:
+                    xk_clipped += [xk[i - 1] + (xk[i] - xk[i - 1]) * dist[i - 1] / (dist[i - 1] - dist[i])]
+                if dist[i] >= 0:
+                    xk_clipped += [xk[i]]
+            xk = np.array(xk_clipped).reshape((-1, 2))
 
-        # Remove points in line
-        v_idcs = np.arange(v.shape[0])
-        for i in range(v.shape[0]):
-            if is_collinear(v[v_idcs[i - 2], :], v[v_idcs[i - 1], :], v[v_idcs[i], :]):
-                v_idcs[i - 1] = v_idcs[i - 2]
-        v_idcs = np.unique(v_idcs)
-        v = v[v_idcs, :]
-        if is_collinear(v[-2, :], v[-1, :], v[0, :]):
-            v = v[:-1]
-
-        N = v.shape[0]
-        for i in range(N):
-            # Order v to have v[:, 0] as reflex vertex
-            if is_reflex(i):
-                v = np.vstack((v[i:, :], v[:i, :]))
-                break
-
-        INF_VAL = 300.
-        # Initial step
-        F1 = v[0, :] + INF_VAL * (v[0, :] - v[1, :]) / np.linalg.norm(v[0, :] - v[1, :])
-        L1 = v[0, :] + INF_VAL * (v[0, :] - v[-1, :]) / np.linalg.norm(v[0, :] - v[-1, :])
-        xk = np.vstack((F1, v[0, :], L1))
-        F1_idx = 0  # Index of point F1 in xk
-        L1_idx = 2  # Index of point L1 in xk
-        xk_bounded = False
-
-        if verbose:
-            print("------")
-            print(0)
-            print("F1:", end=" ")
-            print(F1)
-            print("L1:", end=" ")
-            print(L1)
-        if debug:
-            draw(xk, F1_idx, L1_idx, 0, xk_bounded)
-            plt.show()
-
-        for i in range(1, N):
-
-            if verbose:
-                print("------")
-                print(i)
-                print("F1 index: {}".format(F1_idx))
-                print("L1 index: {}".format(L1_idx))
-
-            L1 = xk[L1_idx, :]
-            F1 = xk[F1_idx, :]
-            vi = v[i, :]
-            vi_1 = v[(i + 1) % N, :]
-
-            # (1) vi is reflex
-            if is_reflex(i):
-                # (1.2) F1 lies to the left of line ->(vi->vi+1)->vi+1
-                start_point = vi - INF_VAL * (vi_1 - vi) / np.linalg.norm(vi_1 - vi)
-                if point_left_of_line(F1, start_point, vi_1):
-                    case = 2
-                    if debug:
-                        draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                        plt.plot([start_point[0], vi_1[0]], [start_point[1], vi_1[1]], marker='*', color='y',
-                                 label="->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                        plt.title("F1 lies to the left of line ->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                        plt.show()
-                    if verbose:
-                        print("(1.2) - F1 ({},{}) lies to the left of line ->(v{}->v{})->v{}".format(F1[0], F1[0], i,
-                                                                                                     i + 1, i + 1))
-                # (1.1) F1 lies on or to the right of line ->(vi->vi+1)->vi+1
-                else:
-                    case = 1
-                    if verbose:
-                        print(
-                            "(1.1) - F1 ({},{}) lies on or to the right of line ->(v{}->v{})->v{}".format(F1[0], F1[0],
-                                                                                                          i, i + 1,
-                                                                                                          i + 1))
-                        print("Scan xk ccw from F1 until we reach edge intersecting line ->(v{}->v{})->v{}".format(i,
-                                                                                                                   i + 1,
-                                                                                                                   i + 1))
-                    # Scan xk ccw from F1 to L1 until we reach edge intersecting line ->(vi->vi+1)->vi+1
-                    w1 = None
-                    idx_offsets = range(1, xk.shape[0] + 1)
-                    for off in idx_offsets:
-                        t = (F1_idx + off) % xk.shape[0]
-                        if not xk_bounded and t == 0:
-                            break
-                        # Get intersection w1 of current edge and line ->(vi->vi+1)->vi+1
-                        wt_prev = xk[t - 1, :]
-                        wt = xk[t, :]
-                        w1 = get_intersection(wt_prev, wt, start_point, vi_1)
-                        if debug:
-                            draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                            col = 'r' if w1 is None else 'g'
-                            plt.plot([wt_prev[0], wt[0]], [wt_prev[1], wt[1]], marker='*', color=col, label="edge")
-                            plt.plot([start_point[0], vi_1[0]], [start_point[1], vi_1[1]], marker='*', color='y',
-                                     label="->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                            plt.title(
-                                "Scan xk ccw from F1 until we reach edge intersecting line ->(v{}->v{})->v{}".format(i,
-                                                                                                                     i + 1,
-                                                                                                                     i + 1))
-                        if w1 is not None:
-                            if debug:
-                                plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                                plt.legend()
-                                plt.show()
-                            break
-                        if debug:
-                            plt.legend()
-                            plt.show()
-
-                        if t == L1_idx:
-                            break
-                    # If no intersecting line is reached no kernel exists
-                    if w1 is None:
-                        # if debug:
-                        draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                        plt.title('No kernel found.. Polygon not starshaped.')
-                        plt.legend()
-                        plt.show()
-                        return False
-                    if verbose:
-                        print("Found intersection ({},{}) at line ->(v{}->v{})->v{}".format(w1[0], w1[1], i, i + 1,
-                                                                                            i + 1))
-                        print("Scan xk cw from F1 until we reach edge intersecting line ->(v{}->v{})->v{}".format(i,
-                                                                                                                  i + 1,
-                                                                                                                  i + 1))
-                    # Scan xk cw from F1 until we reach edge intersecting line ->(vi->vi+1)->vi+1
-                    w2 = None
-                    idcs_list = np.flip(np.roll(np.arange(xk.shape[0]), -F1_idx - 1)) if xk_bounded else range(F1_idx,
-                                                                                                               0, -1)
-                    # for s in range(F1_idx, 0, -1):
-                    for s in idcs_list:
-                        ws = xk[s, :]
-                        ws_prev = xk[s - 1, :]
-                        # Get intersection w2 of edge and line ->(vi->vi+1)->vi+1
-                        w2 = get_intersection(ws_prev, ws, start_point, vi_1)
-
-                        if debug:
-                            draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                            plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                            col = 'r' if w2 is None else 'g'
-                            plt.plot([ws_prev[0], ws[0]], [ws_prev[1], ws[1]], marker='*', color=col, label="edge")
-                            plt.plot([start_point[0], vi_1[0]], [start_point[1], vi_1[1]], marker='*', color='y',
-                                     label="->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                            plt.title(
-                                "Scan xk cw from F1 until we reach edge intersecting line ->(v{}->v{})->v{}".format(i,
-                                                                                                                    i + 1,
-                                                                                                                    i + 1))
-
-                        if w2 is not None:
-                            if xk_bounded and s > t:
-                                alpha = xk[xk.shape[0]:, :]  # Empty array
-                                beta = xk[t:s, :]
-                                L1_idx = L1_idx - t + 2
-                            else:
-                                alpha = xk[:s, :]
-                                beta = xk[t:, :]
-                                L1_idx = L1_idx - t + s + 2
-                            if debug:
-                                print("xk: ", end=" ")
-                                print(xk)
-                                print("alpha: ", end=" ")
-                                print(alpha)
-                                print("beta: ", end=" ")
-                                print(beta)
-                                print("w1: ", end=" ")
-                                print(w1)
-                                print("w2: ", end=" ")
-                                print(w2)
-                                plt.plot(w1[0], w1[1], 's', label="w1", color='k')
-                                plt.plot(w2[0], w2[1], 's', label="w2", color='g')
-                                plt.plot(alpha[:, 0], alpha[:, 1], 'r--', label="alpha")
-                                plt.plot(beta[:, 0], beta[:, 1], 'k--', label="beta")
-                                plt.legend()
-                                plt.show()
-                            xk = np.vstack((alpha, w2, w1, beta))
-                            w1_idx = alpha.shape[0] + 1
-                            w2_idx = alpha.shape[0]
-                            ####### F1 index reassignment should not be necessary for this case
-                            F1_idx = w2_idx
-                            # L1_idx = L1_idx - t + s + 2
-
-                            if verbose:
-                                print("Update 1")
-                                print("Found intersection ({},{}) at line ->(v{}->v{})->v{}".format(w2[0], w2[1], i,
-                                                                                                    i + 1, i + 1))
-                            break
-                        if debug:
-                            plt.legend()
-                            plt.show()
-                    # If no intersecting line is reached
-                    if w2 is None:
-                        # Test if xk+1 is bounded
-                        # If slope ->(vi->vi+1)->vi+1 is comprised between the slopes of initial and final half lines of xk,
-                        if (orientation_val(xk[-2, :], xk[-1, :], start_point) * orientation_val(vi_1, start_point,
-                                                                                                 xk[0, :])) > 0:
-                            beta = xk[t:, :]
-                            if debug:
-                                draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                                plt.plot(xk[:2, 0], xk[:2, 1], '--c', label="initial half line")
-                                plt.plot(xk[-2:, 0], xk[-2:, 1], '--m', label="final half line")
-                                plt.plot([start_point[0], vi_1[0]], [start_point[1], vi_1[1]], marker='*', color='y',
-                                         label="->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                                plt.title(
-                                    "->(v{}->v{})->v{} between initial and finial half lines of xk".format(
-                                        i, i + 1, i + 1))
-                                plt.plot(beta[:, 0], beta[:, 1], 'k--', label="beta")
-                                plt.legend()
-                                plt.show()
-                            if verbose:
-                                print("Update 2 - xk still unbounded")
-                            # then xk+1= ->(vi->vi+1)->w1->beta is also unbounded.
-                            xk = np.vstack((start_point, w1, beta))
-                            w1_idx = 1
-                            # xk_bounded = False
-                            F1_idx = 0
-                            L1_idx -= t - 1
-
-
-                        else:
-                            # otherwise scan xk cw from xk[-1,:] until we reach edge intersecting line ->(vi->vi+1)->vi+1
-                            if verbose:
-                                print(
-                                    "Scan xk cw from end until we reach edge intersecting line ->(v{}->v{})->v{}".format(
-                                        i, i + 1, i + 1))
-                            w2 = None
-                            if xk_bounded:
-                                r = xk.shape[0]
-                                w2 = get_intersection(xk[0, :], xk[r - 1, :], start_point, vi_1)
-                                if debug:
-                                    draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                    plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                                    col = 'r' if w2 is None else 'g'
-                                    plt.plot([xk[r - 1, 0], xk[0, 0]], [xk[r - 1, 1], xk[0, 1]], marker='*', color=col,
-                                             label="edge")
-                                    plt.plot([start_point[0], vi_1[0]], [start_point[1], vi_1[1]], marker='*',
-                                             color='y',
-                                             label="->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                                    plt.title(
-                                        "Scan xk cw from xk[-1, :] until we reach edge intersecting line ->(v{}->v{})->v{}".format(
-                                            i, i + 1, i + 1))
-                                    if w2 is not None:
-                                        delta = xk[t:r, :]
-                                        if debug:
-                                            print(t, r)
-                                            plt.plot(delta[:, 0], delta[:, 1], 'k--', label="delta")
-                                            plt.plot(w1[0], w1[1], 's', label="w1", color='k')
-                                            plt.plot(w2[0], w2[1], 's', label="w2", color='g')
-                                            plt.legend()
-                                            plt.show()
-                                    if debug:
-                                        plt.legend()
-                                        plt.show()
-                            if w2 is None:
-                                for r in range(xk.shape[0] - 1, 0, -1):
-                                    # Get intersection w2 of edge and line ->(vi->vi+1)->vi+1
-                                    w2 = get_intersection(xk[r, :], xk[r - 1, :], start_point, vi_1)
-                                    if debug:
-                                        draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                        plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                                        col = 'r' if w2 is None else 'g'
-                                        plt.plot([xk[r - 1, 0], xk[r, 0]], [xk[r - 1, 1], xk[r, 1]], marker='*',
-                                                 color=col, label="edge")
-                                        plt.plot([start_point[0], vi_1[0]], [start_point[1], vi_1[1]], marker='*',
-                                                 color='y', label="->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                                        plt.title(
-                                            "Scan xk cw from xk[-1, :] until we reach edge intersecting line ->(v{}->v{})->v{}".format(
-                                                i, i + 1, i + 1))
-                                    if w2 is not None:
-                                        delta = xk[t:r, :]
-                                        if debug:
-                                            print(t, r)
-                                            plt.plot(delta[:, 0], delta[:, 1], 'k--', label="delta")
-                                            plt.plot(w1[0], w1[1], 's', label="w1", color='k')
-                                            plt.plot(w2[0], w2[1], 's', label="w2", color='g')
-                                            plt.legend()
-                                            plt.show()
-                                        break
-                                    if debug:
-                                        plt.legend()
-                                        plt.show()
-                            if verbose:
-                                print("Update 3")
-                                print("Found intersection ({},{}) at line ->(v{}->v{})->v{}".format(w2[0], w2[1], i,
-                                                                                                    i + 1, i + 1))
-                            # Set xk as delta-w2-w1
-                            xk = np.vstack((delta, w2, w1))
-                            w1_idx = delta.shape[0] + 1
-                            w2_idx = delta.shape[0]
-                            xk_bounded = True
-
-                            F1_idx = 0
-                            L1_idx = min(L1_idx - t, xk.shape[0] - 1)
-
-                # F1 update
-                if case == 1:
-                    # If ->(vi->vi+1)->vi+1 has just one intersection with xk F1 = startpoint
-                    if w2 is None:
-                        F1_idx = 0
-                    # Otherwise F1 = w2
-                    else:
-                        F1_idx = w2_idx
-                if case == 2:
-                    # Scan xk ccw from F1 until find vertex wt s.t. wt+1 lies to the
-                    # right of vi+1->(vi+1->wt)->. Let F1 = wt.
-                    idx_offsets = range(xk.shape[0])
-                    for off in idx_offsets:
-                        t = (F1_idx + off) % xk.shape[0]
-                        w_next = xk[(t + 1) % xk.shape[0], :]
-                        line_end_point = vi_1 + INF_VAL * (xk[t, :] - vi_1)
-                        if point_right_of_line(w_next, vi_1, line_end_point):
-                            F1_idx = t
-                            break
-
-                # Check update of previous L1 index for new xk
-                # if not np.isclose(np.linalg.norm(L1 - xk[L1_idx, :]), 0):
-                # print("BAD L1 update [{},{}] -> [{},{}]".format(xk[L1_idx, 0], xk[L1_idx, 1], L1[0], L1[1]))
-                # plt.figure(2)
-                # draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                # plt.show()
-
-                # L1 update
-                # scan xk ccw from L1 until find vertex wu s.t. wu+1 lies to the
-                # left of vi+1->(vi+1->wu)->. Let L1 = wu.
-                idx_offsets = range(xk.shape[0])
-                for off in idx_offsets:
-                    u = (L1_idx + off) % xk.shape[0]
-                    w_next = xk[(u + 1) % xk.shape[0], :]
-                    line_end_point = vi_1 + INF_VAL * (xk[u, :] - vi_1)
-                    if point_left_of_line(w_next, vi_1, line_end_point):
-                        L1_idx = u
-                        break
-
-            else:
-                if verbose:
-                    print("(2)")
-                # Endpoint for line vi->(vi->vi+1)->
-                end_point = vi + INF_VAL * (vi_1 - vi) / np.linalg.norm(vi_1 - vi)
-
-                # (2.2) L1 lies to the left of line vi->(vi->vi+1)->
-                if point_left_of_line(L1, vi, end_point):
-                    case = 2
-                    if verbose:
-                        print("(2.2) - L1 ({},{}) lies to the left of line v{}->(v{}->v{})->".format(L1[0], L1[1], i, i,
-                                                                                                     i + 1))
-                    # xk stays the same
-
-                    if debug:
-                        draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                        plt.plot([end_point[0], vi[0]], [end_point[1], vi[1]], marker='*', color='y',
-                                 label="v{}->(v{}->v{})->".format(i, i, i + 1))
-                        plt.title("L1 lies to the left of line v{}->(v{}->v{})->".format(i, i, i + 1))
-                        plt.show()
-
-                # (2.1) L1 lies on or to the right of line vi->(vi->vi+1)->
-                else:
-                    case = 1
-                    if verbose:
-                        print(
-                            "(2.1) - L1 ({},{}) lies on or to the right of line v{}->(v{}->v{})->".format(L1[0], L1[1],
-                                                                                                          i, i, i + 1))
-                        print(
-                            "Scan xk cw from L1 until we reach F1 or an edge intersecting line v{}->(v{}->v{})->".format(
-                                i, i, i + 1))
-                    # Scan xk cw from L1 until we reach F1 or an edge intersecting line vi->(vi->vi+1)->
-                    idx_offsets = range(xk.shape[0])
-                    w1 = None
-                    for off in idx_offsets:
-                        t = L1_idx - off
-                        # If circular
-                        if t < 0:
-                            t += xk.shape[0]
-                        if t == F1_idx:
-                            break
-                        # Get intersection w1 of edge and line vi->(vi->vi+1)->
-                        w1 = get_intersection(xk[t, :], xk[t - 1, :], vi, end_point)
-                        if debug:
-                            draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                            col = 'r' if w1 is None else 'g'
-                            plt.plot([xk[t - 1, 0], xk[t, 0]], [xk[t - 1, 1], xk[t, 1]], marker='*', color=col,
-                                     label="edge")
-                            plt.plot([end_point[0], v[i, 0]], [end_point[1], v[i, 1]], marker='*', color='y',
-                                     label="v{}->(v{}->v{})->".format(i, i, i + 1))
-                            plt.title(
-                                "Scan xk cw from L1 until we reach F1 or an edge intersecting line v{}->(v{}->v{})->".format(
-                                    i,
-                                    i,
-                                    i + 1))
-                        if w1 is not None:
-                            if debug:
-                                plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                                plt.legend()
-                                plt.show()
-                            break
-                        if debug:
-                            plt.legend()
-                            plt.show()
-                    # If no intersecting line is reached no kernel exists
-                    if w1 is None:
-                        # if debug:
-                        draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                        plt.title('No kernel found. Polygon not starshaped.')
-                        plt.show()
-                        return False
-
-                    if verbose:
-                        print("Found intersection ({},{}) at line v{}->(v{}->v{})-> for edge ({},{})-({},{})".format(
-                            w1[0], w1[1], i, i, i + 1, xk[t - 1, 0], xk[t - 1, 1], xk[t, 0], xk[t, 1]))
-                        print("Scan xk ccw from L1 until we reach edge intersecting line v{}->(v{}->v{})->".format(i,
-                                                                                                                   i,
-                                                                                                                   i + 1))
-                    # Scan xk ccw from L1 until we reach edge w2 intersecting line vi->(vi->vi+1)->
-                    w2 = None
-                    idx_offsets = range(1, xk.shape[0] + 1)
-                    for off in idx_offsets:
-                        s = (L1_idx + off) % xk.shape[0]
-                        if not xk_bounded and s == 0:
-                            break
-                        # Get intersection w2 of edge and line vi->(vi->vi+1)->
-                        w2 = get_intersection(xk[s - 1, :], xk[s, :], vi, end_point)
-                        if debug:
-                            draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                            col = 'r' if w2 is None else 'g'
-                            plt.plot([xk[s - 1, 0], xk[s, 0]], [xk[s - 1, 1], xk[s, 1]], marker='*', color=col,
-                                     label="edge")
-                            plt.plot([end_point[0], v[i, 0]], [end_point[1], v[i, 1]], marker='*', color='y',
-                                     label="v{}->(v{}->v{})->".format(i, i, i + 1))
-                            plt.title(
-                                "Scan xk ccw from L1 until we reach edge intersecting line v{}->(v{}->v{})->".format(i,
-                                                                                                                     i,
-                                                                                                                     i + 1))
-                        if w2 is not None:
-                            if xk_bounded and t > s:
-                                alpha = xk[xk.shape[0]:, :]  # Empty array
-                                beta = xk[s:t, :]
-                            else:
-                                alpha = xk[:t, :]
-                                beta = xk[s:, :]
-                            if debug:
-                                print("xk: ", end=" ")
-                                print(xk)
-                                print("alpha: ", end=" ")
-                                print(alpha)
-                                print("beta: ", end=" ")
-                                print(beta)
-                                print("w1: ", end=" ")
-                                print(w1)
-                                print("w2: ", end=" ")
-                                print(w2)
-                                plt.plot(w1[0], w1[1], 's', label="w1", color='k')
-                                plt.plot(w2[0], w2[1], 's', label="w2", color='g')
-                                plt.plot(alpha[:, 0], alpha[:, 1], 'r--', label="alpha")
-                                plt.plot(beta[:, 0], beta[:, 1], 'k--', label="beta")
-                                plt.legend()
-                                plt.show()
-                            if verbose:
-                                print("Update 1")
-                                print(
-                                    "Found intersection ({},{}) at line v{}->(v{}->v{})-> for edge ({},{})-({},{})".format(
-                                        w2[0], w2[1], i, i, i + 1, xk[s, 0], xk[s, 1], xk[(s + 1) % xk.shape[0], 0],
-                                        xk[(s + 1) % xk.shape[0], 1]))
-
-                            xk = np.vstack((alpha, w1, w2, beta))
-                            w1_idx = alpha.shape[0]
-                            w2_idx = alpha.shape[0] + 1
-                            break
-                        if debug:
-                            plt.legend()
-                            plt.show()
-                    # If no intersecting line is reached
-                    if w2 is None:
-                        # Test if xk+1 is bounded
-                        # If slope vi->(vi->vi+1)-> is comprised between the slopes of initial and final half lines of xk,
-                        if not xk_bounded and ((orientation_val(xk[-2, :], xk[-1, :], end_point) * orientation_val(vi,
-                                                                                                                   end_point,
-                                                                                                                   xk[0,
-                                                                                                                   :])) > 0):
-                            alpha = xk[:t, :]
-                            if debug:
-                                draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                                plt.plot(xk[:2, 0], xk[:2, 1], '--c', label="initial half line")
-                                plt.plot(xk[-2:, 0], xk[-2:, 1], '--m', label="final half line")
-                                plt.plot([end_point[0], v[i, 0]], [end_point[1], v[i, 1]], marker='*', color='y',
-                                         label="v{}->(v{}->v{})->".format(i, i, i + 1))
-                                plt.title(
-                                    "v{}->(v{}->v{})-> between initial and final half lines of xk".format(
-                                        i, i, i + 1))
-                                plt.plot(alpha[:, 0], alpha[:, 1], 'r--', label="alpha")
-                                plt.legend()
-                                plt.show()
-                            if verbose:
-                                print("Update 2 - xk still unbounded")
-                            # then xk+1= alpha->w1->(vi->vi+1)-> is also unbounded.
-                            xk = np.vstack((alpha, w1, end_point))
-                            w1_idx = alpha.shape[0]
-                            L1_idx = xk.shape[0] - 1
-                            F1_idx = 0
-                        else:
-                            if verbose:
-                                print(
-                                    "Scan xk ccw from start until we reach edge intersecting line v{}->(v{}->v{})->".format(
-                                        i,
-                                        i,
-                                        i + 1))
-                            # otherwise scan xk ccw from xk[0,:] until we reach edge intersecting line vi->(vi->vi+1)->
-                            w2 = None
-                            for r in range(1, xk.shape[0] + 1):
-                                # Get intersection w2 of edge and line vi->(vi->vi+1)->
-                                w2 = get_intersection(xk[r - 1, :], xk[r % xk.shape[0], :], vi, end_point)
-                                if debug:
-                                    draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                    col = 'r' if w2 is None else 'g'
-                                    plt.plot([xk[r - 1, 0], xk[r % xk.shape[0], 0]],
-                                             [xk[r - 1, 1], xk[r % xk.shape[0], 1]], marker='*', color=col,
-                                             label="edge")
-                                    plt.plot([end_point[0], v[i, 0]], [end_point[1], v[i, 1]], marker='*', color='y',
-                                             label="v{}->(v{}->v{})->".format(i, i, i + 1))
-                                    plt.title(
-                                        "Scan xk ccw from xk[0,:] until we reach edge intersecting line v{}->(v{}->v{})->".format(
-                                            i,
-                                            i,
-                                            i + 1))
-                                if w2 is not None:
-                                    delta = xk[r:t, :]
-                                    if debug:
-                                        plt.plot(w2[0], w2[1], 's', label="w2", color='g')
-                                        plt.legend()
-                                        plt.show()
-                                    break
-                                if debug:
-                                    plt.legend()
-                                    plt.show()
-                            if verbose:
-                                print("Update 3")
-                                print("Found intersection ({},{}) at line v{}->(v{}->v{})->".format(w2[0], w2[1], i, i,
-                                                                                                    i + 1))
-                            # Set xk as delta-w1-vi-vi+1-w2
-                            xk = np.vstack((delta, w1, w2))
-                            w1_idx = delta.shape[0]
-                            w2_idx = delta.shape[0] + 1
-                            xk_bounded = True
-                            F1_idx = 0
-                            L1_idx = min(L1_idx - t, xk.shape[0] - 1)
-
-                # F1 update
-
-                # If vi+1 in vi->(vi->vi+1)->w1,
-                if case == 2 or is_between(vi, vi_1, w1):
-                    # scan xk ccw from F1 until find vertex wt s.t. wt+1 lies to the
-                    # right of vi+1->(vi+1->wt)->. Let F1 = wt.
-                    idx_offsets = range(xk.shape[0])
-                    for off in idx_offsets:
-                        t = (F1_idx + off) % xk.shape[0]
-                        w_next = xk[(t + 1) % xk.shape[0], :]
-                        line_end_point = vi_1 + INF_VAL * (xk[t, :] - vi_1)
-                        if debug:
-                            draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                            plt.plot([vi_1[0], line_end_point[0]], [vi_1[1], line_end_point[1]], '--',
-                                     label='v{}->(v{}->wt)'.format(i + 1, i + 1))
-                            c = 'g' if point_right_of_line(w_next, vi_1, line_end_point) else 'r'
-                            plt.plot(w_next[0], w_next[1], color=c, marker='s', label='w_t+1')
-                            plt.title(
-                                "Update F1\n scan xk ccw from F1 until find vertex wt s.t. wt+1 lies to the right of v{}->(v{}->wt)->.".format(
-                                    i + 1, i + 1))
-                            plt.legend()
-                            plt.show()
-                        if point_right_of_line(w_next, vi_1, line_end_point):
-                            F1_idx = t
-                            break
-                else:
-                    F1_idx = w1_idx
-
-                # L1 update
-                if case == 1:
-                    if w2 is not None:
-                        # If vi+1 in vi->(vi->vi+1)->w2
-                        if is_between(vi, vi_1, w2):
-                            L1_idx = w2_idx
-                        else:
-                            # scan xk ccw from w2 until find vertex wu s.t. wu+1 lies to the
-                            # left of vi+1->(vi+1->wu)->. Let L1 = wu.
-                            idx_offsets = range(xk.shape[0])
-                            for off in idx_offsets:
-                                u = (w2_idx + off) % xk.shape[0]
-                                w_next = xk[(u + 1) % xk.shape[0], :]
-                                line_end_point = vi_1 + INF_VAL * (xk[u, :] - vi_1)
-                                if debug:
-                                    draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                    plt.plot([vi_1[0], line_end_point[0]], [vi_1[1], line_end_point[1]], '--',
-                                             label='v{}->(v{}->wt)'.format(i + 1, i + 1))
-                                    c = 'g' if point_left_of_line(w_next, vi_1, line_end_point) else 'r'
-                                    plt.plot(w_next[0], w_next[1], color=c, marker='s', label='w_t+1')
-                                    plt.title(
-                                        "Update L1\n scan xk ccw from w2 until find vertex wu s.t. wu+1 lies to the left of v{}->(v{}->wt)->.".format(
-                                            i + 1, i + 1))
-                                    plt.legend()
-                                    plt.show()
-                                if point_left_of_line(w_next, vi_1, line_end_point):
-                                    L1_idx = u
-                                    break
-
-                    # (2.1.2) line vi->(vi->vi+1)-> intersects xk just in w1
-                    else:
-                        L1_idx = xk.shape[0] - 1
-                if case == 2:
-                    # print("(2.1.2)")
-                    if xk_bounded:
-                        # scan xk ccw from w2 until find vertex wu s.t. wu+1 lies to the
-                        # left of vi+1->(vi+1->wu)->. Let L1 = wu.
-                        idcs_list = np.roll(np.arange(xk.shape[0]), -L1_idx) if xk_bounded else range(L1_idx,
-                                                                                                      xk.shape[0] - 1)
-                        for u in idcs_list:
-                            w_next = xk[(u + 1) % xk.shape[0], :]
-                            line_end_point = vi_1 + INF_VAL * (xk[u, :] - vi_1)
-                            if debug:
-                                draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                plt.plot([vi_1[0], line_end_point[0]], [vi_1[1], line_end_point[1]], '--',
-                                         label='v{}->(v{}->wt)'.format(i + 1, i + 1))
-                                c = 'g' if point_left_of_line(w_next, vi_1, line_end_point) else 'r'
-                                plt.plot(w_next[0], w_next[1], color=c, marker='s', label='w_t+1')
-                                plt.title(
-                                    "Update L1\n scan xk ccw from w2 until find vertex wu s.t. wu+1 lies to the left of v{}->(v{}->wt)->.".format(
-                                        i + 1, i + 1))
-                                plt.legend()
-                                plt.show()
-                            if point_left_of_line(w_next, vi_1, line_end_point):
-                                L1_idx = u
-                                break
-
-            if verbose:
-                print("F1:", end=" ")
-                print(F1)
-                print("L1:", end=" ")
-                print(L1)
-                print("xk:", end=" ")
-                print(xk)
-        if debug or verbose:
-            draw(xk, F1_idx, L1_idx, 0, xk_bounded)
-            plt.show()
         # Remove duplicate points (up to rounding, since these give an invalid polygon)
-        _, idx = np.unique(np.round(xk, 10), axis=0, return_index=True)
-        xk = xk[np.sort(idx), :]
-        self._kernel = shapely.geometry.Polygon(xk)
-
-
+        xk = xk[[np.all(np.linalg.norm(xk[:i] - xk[i], axis=1) > tol) for i in range(xk.shape[0])], :]
+        if xk.shape[0] == 0:
+            raise RuntimeError("No kernel found. Polygon not starshaped.")
+        self._kernel = shapely.geometry.Polygon(xk) if xk.shape[0] > 2 else shapely.geometry.MultiPoint(xk).convex_hull
-- 
2.43.0


From a4617b0375a2a0f2ee1c1803ada49099ab0b5ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:45 +0000
Subject: [PATCH 40/41] fix: polygon of a cone intersected itself when a ray
 met a corner of the bounding box

---
 utils/cg.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/cg.py b/utils/cg.py
index 8210f9a..2d034c2 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -328,7 +328,10 @@ class Cone:
                          (Cone.bb_width - self.apex[1]) / dir[1] if dir[1] > 0 else np.inf,
                          (-Cone.bb_width - self.apex[0]) / dir[0] if dir[0] < 0 else np.inf])
         idx = np.argmin(dist)
-        return idx, self.apex + dist[idx] * dir
+        border = np.clip(self.apex + dist[idx] * dir, -Cone.bb_width, Cone.bb_width)
+        # Exactly on the border, such that the polygon does not intersect itself at a corner
+        border[(idx + 1) % 2] = Cone.bb_width if idx in (1, 2) else -Cone.bb_width
+        return idx, border
 
     def point_in_cone(self, x):
         if self.is_convex:
-- 
2.43.0


From a843807969770bf5d44740f304eb4a898d5e40c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:15 +0000
Subject: [PATCH 41/41] fix: waypoints given as array were shifted by the
 initial position, as tuple refused

---
 obstacles/motion_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/motion_model.py b/obstacles/motion_model.py
index ecbd6d8..c54a921 100644
--- a/obstacles/motion_model.py
+++ b/obstacles/motion_model.py
@@ -98,7 +98,7 @@ class Interval(MotionModel):
 class Waypoints(MotionModel):
 
     def __init__(self, init_pos, waypoints, vel, wp_thresh=0.2):
-        self.waypoints = np.array([init_pos] + waypoints)
+        self.waypoints = np.array([init_pos] + list(waypoints))
         self.vel = vel
         self._wp_idx = 0
         self.wp_thresh = wp_thresh
-- 
2.43.0

