From 29af79cd7a19b7537fb49e5e415bc641dffc2a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:39 +0000
Subject: [PATCH 01/29] fix: sphere grazed behind the ray's start is not a hit

---
 Shapes/shapes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index 4b82543..294c4b9 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -345,8 +345,9 @@ class Sphere(Shape):
                 intersection_count = 0
                 return False, None, None, None, None, intersection_count
         elif discrim == 0:  # line intersects in one point, tangent
-            # TODO handle negative t0
             t0 = vDotQ
+            if t0 <= INTERSECT_CLIPPING_FLOOR:  # the touching point is behind the ray
+                return False, None, None, None, None, intersection_count
             pt0 = ray.position + t0 * ray.direction
             norm0 = self.normal(pt0)
             intersection_count = 2 # ugh, I'm counting this case as two cause you're probably outside, give me a break
-- 
2.43.0


From 782465fb018634bbde55604c04f721f3efc42b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:39 +0000
Subject: [PATCH 02/29] fix: sphere returns its nearest crossing first, as the
 cylinder does

---
 Shapes/shapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index 294c4b9..751b97f 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -332,9 +332,9 @@ class Sphere(Shape):
             if t0 > INTERSECT_CLIPPING_FLOOR and t1 > INTERSECT_CLIPPING_FLOOR:
                 intersection_count = 2
                 if t0 < t1:
-                    return True, pt1, pt0, norm1, norm0, intersection_count
-                else:
                     return True, pt0, pt1, norm0, norm1, intersection_count
+                else:
+                    return True, pt1, pt0, norm1, norm0, intersection_count
             elif t1 > INTERSECT_CLIPPING_FLOOR:
                 intersection_count = 1
                 return True, pt1, None, norm1, None, intersection_count
-- 
2.43.0


From b13c51cf75d53a9f65a8bda88deb0912b9d8addd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:00 +0000
Subject: [PATCH 03/29] fix: mirrors without a DMD normal can be constructed

---
 optics3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optics3d.py b/optics3d.py
index 43a2a5f..b6e509b 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -153,7 +153,7 @@ class Mirror(Optic):
         self.thickness = thickness
         self.f = f
         self.type = type
-        self.dmd_normal = unit_vector(dmd_normal)
+        self.dmd_normal = unit_vector(dmd_normal) if dmd_normal is not None else None
         self.surfaces = []
         if shape == "circular_flat":
             self.normal = unit_vector(normal)
-- 
2.43.0


From e8eb88129eec5f706f3902778e63261d54d18c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:00 +0000
Subject: [PATCH 04/29] fix: the nearest optic gets its own inside/outside
 flag, not the last tested one's

---
 optics3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optics3d.py b/optics3d.py
index b6e509b..fbb6e10 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -851,6 +851,7 @@ class Ray:
                             intersected_optic = optic
                             intersection_pt = int_pt
                             intersection_normal = normal
+                            hit_from_outside = shooting_from_outside
             if not intersected:
                 if self.print_trajectory:
                     print("not intersected (messages TODO)")
@@ -867,7 +868,7 @@ class Ray:
                     self.blocked = True
                 else:
                     # do it:
-                    intersected_optic.do_intersect(self, intersection_pt, intersection_normal, shooting_from_outside)
+                    intersected_optic.do_intersect(self, intersection_pt, intersection_normal, hit_from_outside)
                     # we did it
         if self.print_trajectory:
             print("--- run complete ---")
-- 
2.43.0


From dda1b540abe1651b5a59e3fa85dfc5eae8f3b44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:00 +0000
Subject: [PATCH 05/29] fix: unsigned angle_between of (anti)parallel vectors
 is not NaN

---
 general_optics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general_optics.py b/general_optics.py
index c14073c..4f4fe47 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -29,7 +29,7 @@ def angle_between(v1, v2, v_normal=None):
     if v_normal is not None: # signed
         angle = np.arctan2(np.dot((np.cross(v2_u, v1_u)), v_normal), np.dot(v1_u, v2_u))
     else: # unsigned
-        angle = np.arccos(np.dot(v1_u, v2_u))
+        angle = np.arccos(np.clip(np.dot(v1_u, v2_u), -1.0, 1.0))
     return angle
 
 
-- 
2.43.0


From 33a189445ff510846ca5dfb37f072a86d54e85df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:00 +0000
Subject: [PATCH 06/29] fix: rotation_matrix and rotation_matrix2 leave their
 arguments unchanged (and accept integers)

---
 general_optics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/general_optics.py b/general_optics.py
index 4f4fe47..4e42bde 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -64,8 +64,8 @@ def rotation_matrix2(a, b):
     """
     Calculates the rotation matrix that rotates unit vector a onto unit vector b.
     """
-    a /= np.linalg.norm(a)
-    b /= np.linalg.norm(b)
+    a = a / np.linalg.norm(a)
+    b = b / np.linalg.norm(b)
 
     v = np.cross(a, b)
     sin_angle = np.linalg.norm(v)
@@ -127,8 +127,8 @@ def rotation_matrix(v1, v2):
     """
     Calculates the rotation matrix that changes v1 into v2.
     """
-    v1 /= np.linalg.norm(v1)
-    v2 /= np.linalg.norm(v2)
+    v1 = v1 / np.linalg.norm(v1)
+    v2 = v2 / np.linalg.norm(v2)
 
     cos_angle = np.dot(v1, v2)
     d = np.cross(v1, v2)
-- 
2.43.0


From 3ff9cd61a2fd96dfb5a5d27a9b9acbb6fca8e010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:00 +0000
Subject: [PATCH 07/29] fix: savitzky_golay no longer uses the removed np.int

---
 general.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/general.py b/general.py
index f08e1ba..2dbd226 100755
--- a/general.py
+++ b/general.py
@@ -180,8 +180,8 @@ def savitzky_golay(y, window_size, order, deriv=0, rate=1):
     from math import factorial
     
     try:
-        window_size = np.abs(np.int(window_size))
-        order = np.abs(np.int(order))
+        window_size = np.abs(int(window_size))
+        order = np.abs(int(order))
     except ValueError:
         raise ValueError("window_size and order have to be of type int")
     if window_size % 2 != 1 or window_size < 1:
-- 
2.43.0


From 820a2bde0eccea013362b935061b1c9dc23c1616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 08/29] fix: a ray along an infinite cylinder's axis does not
 hit it (was a NaN hit)

---
 Shapes/shapes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index 751b97f..383dc83 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -170,7 +170,10 @@ class InfiniteCylinder(Shape):
         B = 2 * xE * xD + 2 * yE * yD
         C = xE ** 2 + yE ** 2 - 1
         discriminant = B * B - 4 * A * C
-        if discriminant > 0: # line (not necessarily the ray) intersects in two points
+        if A <= INTERSECT_CLIPPING_FLOOR ** 2:  # ray runs along the axis, never crosses the side
+            t0_objectSpace = None
+            t1_objectSpace = None
+        elif discriminant > 0: # line (not necessarily the ray) intersects in two points
             root = np.sqrt(discriminant)
             # some numerical bit to avoid loss of precision in the quadratic,
             # avoid subtracting two things of potentially similar magnitude
-- 
2.43.0


From 233fe045e36db91205dace163154469628e94e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 09/29] fix: cylinder grazed behind the ray's start is not a
 hit

---
 Shapes/shapes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index 383dc83..d889a28 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -233,7 +233,8 @@ class InfiniteCylinder(Shape):
                 intersection_count = 0
                 return False, None, None, None, None, intersection_count
         elif t0_objectSpace is not None:  # line intersects in one point, tangent
-            # TODO handle negative t0
+            if t0 <= INTERSECT_CLIPPING_FLOOR:  # the touching point is behind the ray
+                return False, None, None, None, None, 0
             intersection_count = 2 # ugh, I'm counting this case as two cause you're probably outside, give me a break
             return True, pt0, None, normal0, None, intersection_count
         else:  # (discriminant < 0) line intersects in no points
-- 
2.43.0


From 911b7505ac20c1b1596bf13f7c20db5f3cecb7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:01 +0000
Subject: [PATCH 10/29] fix: gratings diffract by the grating equation for
 light from either side of the normal

---
 optics3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optics3d.py b/optics3d.py
index fbb6e10..48ce252 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -810,9 +810,9 @@ class Ray:
             # theta = n + grating_sign_convention * beta
             # TODO convert back to ray direction
             r = incident - 2 * np.dot(incident, normal) * normal  # reflected
-            RM1 = rotation_matrix_axis_angle(dispersion_plane_normal, -grating_sign_convention * alpha)
+            RM1 = rotation_matrix_axis_angle(dispersion_plane_normal, alpha)
 #            self.direction = unit_vector(RM1.dot(r))
-            RM2 = rotation_matrix_axis_angle(dispersion_plane_normal, -beta)
+            RM2 = rotation_matrix_axis_angle(dispersion_plane_normal, grating_sign_convention * beta)
             self.direction = unit_vector(RM2.dot(unit_vector(RM1.dot(r))))
             if self.print_trajectory:
                 print("light at wavelength {} turned {} by grating".format(self.wavelength, alpha + beta))
-- 
2.43.0


From 99bdc95c063f015fd078802b6bb2d3eeed4530c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:01 +0000
Subject: [PATCH 11/29] fix: CSG difference finds the first boundary of A - B
 wherever B starts and ends

---
 general_optics.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/general_optics.py b/general_optics.py
index 4e42bde..d572021 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -596,16 +596,24 @@ def operCsgDifference(resA, resB, ray):
         pointB_far, normalB_far, distanceB_far, number_intersectionsB = helper_findIntersects(resB, ray, mode='farthest')
         # take THAT for data
 
-        # from the magic internet pseudocode:
-        if distanceA_near < distanceB_near:
-            return intersected, pointA_near, None, normalA_near, None, intersection_count_total
-        elif distanceB_far < distanceA_far:
-            return intersected, pointB_far, None, normalB_far, None, intersection_count_total
-        else:
-            # I don't know if it can even reach here, but whatever, lets just put something
-            print("alert: something weird happening in operCsgDifference")
-            intersected = False
-            return intersected, None, None, None, None, intersection_count_total
+        # walk the crossings in order, to the first one where "in A not in B" changes
+        inside_A = resA[5] % 2 == 1
+        inside_B = resB[5] % 2 == 1
+        start = inside_A and not inside_B
+        crossings = [(distanceA_near, "A", pointA_near, normalA_near), (distanceB_near, "B", pointB_near, normalB_near)]
+        if number_intersectionsA == 2:
+            crossings.append((distanceA_far, "A", pointA_far, normalA_far))
+        if number_intersectionsB == 2:
+            crossings.append((distanceB_far, "B", pointB_far, normalB_far))
+        for distance, primitive, point, normal in sorted(crossings, key=lambda crossing: crossing[0]):
+            if primitive == "A":
+                inside_A = not inside_A
+            else:
+                inside_B = not inside_B
+            if (inside_A and not inside_B) != start:
+                return intersected, point, None, normal, None, intersection_count_total
+        intersected = False
+        return intersected, None, None, None, None, intersection_count_total
 
     # else, if the ray is only hitting primitive A, for difference A - B this is a hit:
     elif resA[0]:
-- 
2.43.0


From 41303abfae2b73fee0f6c08e84a1be197126d844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:01 +0000
Subject: [PATCH 12/29] fix: CSG difference no longer crashes on rays that miss
 B

---
 general_optics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general_optics.py b/general_optics.py
index d572021..cf349d3 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -618,7 +618,7 @@ def operCsgDifference(resA, resB, ray):
     # else, if the ray is only hitting primitive A, for difference A - B this is a hit:
     elif resA[0]:
         intersected = True
-        pointA, normalA = helper_findIntersects(resA, ray, mode='nearest')
+        pointA, normalA, distanceA, number_intersectionsA = helper_findIntersects(resA, ray, mode='nearest')
         return intersected, pointA, None, normalA, None, intersection_count_total
 
     # else, if the ray is only hitting primitive B, for difference A - B this is a miss:
-- 
2.43.0


From 64c5f9777e7c014a0b54569b066a4bd861c6ddd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 13/29] fix: CSG union shot from inside ends where the ray
 leaves the union, not at an inner surface

---
 general_optics.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/general_optics.py b/general_optics.py
index cf349d3..a6c551a 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -441,8 +441,22 @@ def operCsgUnion(resA, resB, ray):
         # since resB is a hit, get tB_min
         pointB, normalB, distanceB, number_intersectionsB = helper_findIntersects(resB, ray, mode='nearest')
 
+        inside_A = resA[5] % 2 == 1
+        inside_B = resB[5] % 2 == 1
+        if inside_A or inside_B:
+            # shooting from inside: the boundary is where the ray leaves the last of the shapes it is in
+            pointA_far, normalA_far, distanceA_far, number_intersectionsA = helper_findIntersects(resA, ray, mode='farthest')
+            pointB_far, normalB_far, distanceB_far, number_intersectionsB = helper_findIntersects(resB, ray, mode='farthest')
+            joins_A = inside_A or distanceA < distanceB_far
+            joins_B = inside_B or distanceB < distanceA_far
+            if joins_B and (distanceB_far > distanceA_far or not joins_A):
+                intersection_point = pointB_far
+                normal = normalB_far
+            else:
+                intersection_point = pointA_far
+                normal = normalA_far
         # get int pt for UNION: min(tA_min, tB_min)
-        if (pointA is not None) and (pointB is not None):
+        elif (pointA is not None) and (pointB is not None):
             if distanceA < distanceB:
                 intersection_point = pointA
                 normal = normalA
-- 
2.43.0


From e7ab9ce5209874529c6c2b6df1f9d080eee88d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 14/29] fix: plain optics can be printed (optic_type never
 existed, one field short)

---
 optics3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optics3d.py b/optics3d.py
index 48ce252..b433963 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -60,7 +60,7 @@ class Optic:
         self.shape = shape
 
     def __repr__(self):
-        return("Optic ({}, {}, {}),  ({}, {}, {})".format(self.optic_type,
+        return("Optic {} ({}, {}, {}),  ({}, {}, {})".format(type(self).__name__,
                                                        to_precision(self.position[0], 5),
                                                        to_precision(self.position[1], 5),
                                                        to_precision(self.position[2], 5),
-- 
2.43.0


From 6d3a8aee36c0f47920391c2c8b4f93da0ebeef2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 15/29] fix: spherical mirrors and lenses, which have no
 normal, can be printed

---
 optics3d.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/optics3d.py b/optics3d.py
index b433963..764a5c9 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -154,6 +154,7 @@ class Mirror(Optic):
         self.f = f
         self.type = type
         self.dmd_normal = unit_vector(dmd_normal) if dmd_normal is not None else None
+        self.normal = None
         self.surfaces = []
         if shape == "circular_flat":
             self.normal = unit_vector(normal)
@@ -174,12 +175,13 @@ class Mirror(Optic):
 
 
     def __repr__(self):
+        normal = self.normal if self.normal is not None else np.full(3, np.nan)  # spheres have none
         return("Mirror ({}, {}, {}),  ({}, {}, {})".format(to_precision(self.position[0], 5),
                                                            to_precision(self.position[1], 5),
                                                            to_precision(self.position[2], 5),
-                                                           to_precision(self.normal[0], 5),
-                                                           to_precision(self.normal[1], 5),
-                                                           to_precision(self.normal[2], 5)))
+                                                           to_precision(normal[0], 5),
+                                                           to_precision(normal[1], 5),
+                                                           to_precision(normal[2], 5)))
 
     def test_intersect(self, ray):  # Mirror
         intersected = False
@@ -346,12 +348,13 @@ class Lens(Optic):
 
 
     def __repr__(self):
+        normal = self.normal if self.normal is not None else np.full(3, np.nan)  # spheres have none
         return("Lens ({}, {}, {}),  ({}, {}, {})".format(to_precision(self.position[0], 5),
                                                            to_precision(self.position[1], 5),
                                                            to_precision(self.position[2], 5),
-                                                           to_precision(self.normal[0], 5),
-                                                           to_precision(self.normal[1], 5),
-                                                           to_precision(self.normal[2], 5)))
+                                                           to_precision(normal[0], 5),
+                                                           to_precision(normal[1], 5),
+                                                           to_precision(normal[2], 5)))
 
     def test_intersect(self, ray):  # Lens
         intersected = False
-- 
2.43.0


From a36d3728ed75aa74a374a1199ed9b6d1cae434a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 16/29] fix: diverging ideal lenses (f < 0) no longer send rays
 backwards

---
 optics3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optics3d.py b/optics3d.py
index 764a5c9..058d398 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -680,7 +680,7 @@ class Ray:
                 # vectors are very nearly parallel
                 # update the ray's direction to go at the focal point
                 focal_point = optic.position + optic.f * the_optic_normal
-                vector_to_image = focal_point - self.position
+                vector_to_image = np.sign(optic.f) * (focal_point - self.position)  # away from a virtual focus
                 self.direction = vector_to_image / np.linalg.norm(vector_to_image)
             else:
                 # vectors are neither parallel nor orthogonal
@@ -695,7 +695,7 @@ class Ray:
                 # step 2: get the image point as the inverted object point
                 image_point = -object_point
                 # step 3: update the ray's direction to go towards the image point
-                vector_to_image = image_point - r
+                vector_to_image = np.sign(optic.f) * (image_point - r)  # away from a virtual image
                 self.direction = vector_to_image / np.linalg.norm(vector_to_image)
 
 
-- 
2.43.0


From aac047b3bd8031492392a18f1ae9e1252fdb3f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 17/29] fix: rotation matrices onto the opposite direction are
 rotations, not point inversions

---
 general_optics.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/general_optics.py b/general_optics.py
index a6c551a..c577828 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -72,7 +72,12 @@ def rotation_matrix2(a, b):
     cos_angle = np.dot(a, b)
 
     if sin_angle == 0:
-        M = np.identity(3) if cos_angle > 0. else -np.identity(3)
+        if cos_angle > 0.:
+            M = np.identity(3)
+        else:  # half a turn about some axis perpendicular to a
+            axis = np.cross(a, np.identity(3)[np.argmin(np.abs(a))])
+            axis = axis / np.linalg.norm(axis)
+            M = 2 * np.outer(axis, axis) - np.identity(3)
     else:
         eye = np.eye(3)
         skew = np.array([[    0,  -v[2],   v[1]],
@@ -135,7 +140,12 @@ def rotation_matrix(v1, v2):
     sin_angle = np.linalg.norm(d)
 
     if sin_angle == 0:
-        M = np.identity(3) if cos_angle > 0. else -np.identity(3)
+        if cos_angle > 0.:
+            M = np.identity(3)
+        else:  # half a turn about some axis perpendicular to v1
+            axis = np.cross(v1, np.identity(3)[np.argmin(np.abs(v1))])
+            axis = axis / np.linalg.norm(axis)
+            M = 2 * np.outer(axis, axis) - np.identity(3)
     else:
         d /= sin_angle
 
-- 
2.43.0


From 14b2177bf67207a79219681cd7e087c0a1f10a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:02 +0000
Subject: [PATCH 18/29] fix: rotation matrices stay finite and accurate next to
 the opposite direction

---
 general_optics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/general_optics.py b/general_optics.py
index c577828..e9e7b41 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -71,7 +71,7 @@ def rotation_matrix2(a, b):
     sin_angle = np.linalg.norm(v)
     cos_angle = np.dot(a, b)
 
-    if sin_angle == 0:
+    if sin_angle < 1e-10:  # (anti)parallel to within rounding, the cross product is noise
         if cos_angle > 0.:
             M = np.identity(3)
         else:  # half a turn about some axis perpendicular to a
@@ -83,7 +83,7 @@ def rotation_matrix2(a, b):
         skew = np.array([[    0,  -v[2],   v[1]],
                          [ v[2],      0,  -v[0]],
                          [-v[1],   v[0],      0]], dtype=np.float64)
-        M = eye + skew + np.dot(skew, skew) / (1 + cos_angle)
+        M = eye + skew + np.dot(skew, skew) * ((1 - cos_angle) / sin_angle ** 2)
     return M
 
 
@@ -139,7 +139,7 @@ def rotation_matrix(v1, v2):
     d = np.cross(v1, v2)
     sin_angle = np.linalg.norm(d)
 
-    if sin_angle == 0:
+    if sin_angle < 1e-10:  # (anti)parallel to within rounding, the cross product is noise
         if cos_angle > 0.:
             M = np.identity(3)
         else:  # half a turn about some axis perpendicular to v1
-- 
2.43.0


From 82bc4c1b9f35c4798361dcab185a28c42989fd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:32 +0000
Subject: [PATCH 19/29] fix: rectangular mirrors and gratings are drawn along
 their tangent, where they are hit

---
 optics3d.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/optics3d.py b/optics3d.py
index 058d398..677f170 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -12,7 +12,6 @@ from general_optics import unit_vector, angle_between, distance_between, pathpat
     rotation_matrix_axis_angle, project_onto_plane, postOrderEval, test_tree_intersect, test_tree_point
 from mpl_toolkits.mplot3d.art3d import Poly3DCollection
 from matplotlib.patches import Circle as mplCircle
-from matplotlib.patches import Rectangle as mplRectangle
 from Shapes.shapes import Rectangle, Circle, Sphere
 
 # note: we are representing vectors as 1d numpy arrays, i.e., R = np.array([x, y, z])
@@ -289,15 +288,10 @@ class Mirror(Optic):
                 pathpatch_translate(p, (x, y, z))
                 # return the Artist created
                 return None
-            elif self.shape == "rectangular_flat":
-                x = self.position[0]
-                y = self.position[1]
-                z = self.position[2]
-                p = mplRectangle((-self.w/2, -self.h/2), width=self.w, height=self.h, facecolor="silver", alpha=0.5,
-                                  edgecolor="black")
-                ax.add_patch(p)
-                pathpatch_2d_to_3d(p, z=0, normal=self.normal)
-                pathpatch_translate(p, (x, y, z))
+            elif self.shape == "rectangular_flat":  # drawn along its tangent, where it is hit
+                for surface in self.surfaces:
+                    ax.add_collection3d(Poly3DCollection([surface.bounds], facecolor="silver", edgecolor="black",
+                                                         alpha=0.5))
                 return None
             elif self.shape == "circular_concave_spherical":  # for now just draw as circle
                 x = self.position[0]
@@ -526,16 +520,10 @@ class Grating(Optic):
     def draw(self, ax, view="3d"):  # Grating
         """Um, somehow draw the optic"""
         if view == "3d" or view == "xyz":
-            if self.shape == "rectangular_flat":
-                x = self.position[0]
-                y = self.position[1]
-                z = self.position[2]
-                p = mplRectangle((-self.w / 2, -self.h / 2), width=self.w, height=self.h, facecolor="silver", alpha=0.5,
-                                 edgecolor="black")
-                ax.add_patch(p)
-                pathpatch_2d_to_3d(p, z=0, normal=self.normal)
-                pathpatch_translate(p, (x, y, z))
-                # return the Artist created
+            if self.shape == "rectangular_flat":  # drawn along its tangent, where it is hit
+                for surface in self.surfaces:
+                    ax.add_collection3d(Poly3DCollection([surface.bounds], facecolor="silver", edgecolor="black",
+                                                         alpha=0.5))
                 return None
 
 
-- 
2.43.0


From cd0c2e4a1f5c754fb5c5b37e74e2e080835c7f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:16 +0000
Subject: [PATCH 20/29] fix: deleting by extension no longer stops at a folder
 whose name has the extension

---
 general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general.py b/general.py
index 2dbd226..1d24329 100755
--- a/general.py
+++ b/general.py
@@ -422,7 +422,7 @@ def delete_files_with_extension(folder, extensionWithDot, deleteInSubDirectories
                      os.remove(os.path.join(root, file))
     else:
         for file in os.listdir(folder):
-            if file.endswith(extensionWithDot):
+            if file.endswith(extensionWithDot) and not os.path.isdir(os.path.join(folder, file)):
                 print('removing ' + file)
                 os.remove(os.path.join(folder, file))
                 
-- 
2.43.0


From ab5a84f0c542b798ad50fd16987e28a2385049c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 21/29] fix: FD_int_num crashed for every eta in -20..20 (numpy
 wants a whole number of samples)

---
 general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general.py b/general.py
index 1d24329..21603aa 100755
--- a/general.py
+++ b/general.py
@@ -80,7 +80,7 @@ def FD_int_num( eta, j, tol=1e-12, Nmax=600, fType='roman' ):
         for idx, N in enumerate(Nvec):
             a = -4.5 # limits for t
             b = 5.0
-            t = np.linspace( a, b, N + 1 ) # generate intervals
+            t = np.linspace( a, b, int(N) + 1 ) # generate intervals
             x = np.exp( t - np.exp( -t ) )
             f = x * ( 1 + np.exp( -t ) ) * x ** j / ( 1+ np.exp( x - eta ) )
             y = np.trapz( t, f )
-- 
2.43.0


From f21b57ff002a245fe23c22351dc156396376ad8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 22/29] fix: FD_int_num's 'roman' integral is Gamma(j + 1)
 times the 'script' one for every order, not only j = 1/2

---
 general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general.py b/general.py
index 21603aa..def3a48 100755
--- a/general.py
+++ b/general.py
@@ -96,7 +96,7 @@ def FD_int_num( eta, j, tol=1e-12, Nmax=600, fType='roman' ):
     if fType == 'script':
         pass
     elif fType == 'roman':
-        y = y * np.sqrt(np.pi)/2
+        y = y * spec.gamma( j + 1 )
     else:
         print("error: unrecognized fType (input 'script' or 'roman'")
     return (y, N, err)
-- 
2.43.0


From 65a9cfdde907b21fc43d89a2c96ff9416117228a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 23/29] fix: FD_int_num had no degenerate limit for orders
 other than -1/2, 1/2 and 3/2

---
 general.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/general.py b/general.py
index def3a48..2d94aba 100755
--- a/general.py
+++ b/general.py
@@ -75,6 +75,10 @@ def FD_int_num( eta, j, tol=1e-12, Nmax=600, fType='roman' ):
             y = 8 * eta**(5/2) / 15 / np.sqrt(np.pi)
             N = np.nan
             err = np.nan
+        else:
+            y = eta**(j + 1) / spec.gamma( j + 2 )
+            N = np.nan
+            err = np.nan
     else:
         Nvec = np.linspace(1,Nmax,Nmax)
         for idx, N in enumerate(Nvec):
-- 
2.43.0


From 5716abe791a2f7474cfa03d8751aa7bca2822c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 24/29] fix: a ray meets the intersection of solids whose
 surfaces coincide where it enters them

---
 general_optics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general_optics.py b/general_optics.py
index e9e7b41..4f7addb 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -530,7 +530,7 @@ def operCsgIntersect(resA, resB, ray):
         if np.isclose(np.mod(number_intersectionsA, 2), 0) and np.isclose(np.mod(number_intersectionsB, 2), 0):
             ######
             # from the magic internet pseudocode:
-            if ((distanceA_near < distanceB_near) and (distanceA_far > distanceB_near)):
+            if ((distanceA_near <= distanceB_near) and (distanceA_far > distanceB_near)):
                 return intersected, pointB_near, None, normalB_near, None, intersection_count_total
             elif ((distanceB_near < distanceA_near) and (distanceB_far > distanceA_near)):
                 return intersected, pointA_near, None, normalA_near, None, intersection_count_total
-- 
2.43.0


From 2219a963bc933dd84e98ea87f26b650ca9bade48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 25/29] fix: the difference of solids whose surfaces coincide
 has no surface where nothing is left

---
 general_optics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/general_optics.py b/general_optics.py
index 4f7addb..f9e930e 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -629,11 +629,14 @@ def operCsgDifference(resA, resB, ray):
             crossings.append((distanceA_far, "A", pointA_far, normalA_far))
         if number_intersectionsB == 2:
             crossings.append((distanceB_far, "B", pointB_far, normalB_far))
-        for distance, primitive, point, normal in sorted(crossings, key=lambda crossing: crossing[0]):
+        crossings.sort(key=lambda crossing: crossing[0])
+        for k, (distance, primitive, point, normal) in enumerate(crossings):
             if primitive == "A":
                 inside_A = not inside_A
             else:
                 inside_B = not inside_B
+            if k + 1 < len(crossings) and crossings[k + 1][0] == distance:
+                continue  # surfaces that coincide are crossed together
             if (inside_A and not inside_B) != start:
                 return intersected, point, None, normal, None, intersection_count_total
         intersected = False
-- 
2.43.0


From 3441e92265ff6488eeff054110bfd6729c54de46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:37 +0000
Subject: [PATCH 26/29] fix: rays met large curved surfaces again where they
 stood, by rounding (a ball of radius 3000 lost a quarter of them)

---
 Shapes/shapes.py | 2 +-
 optics3d.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index d889a28..718f1e9 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -9,7 +9,7 @@ from general_optics import unit_vector, distance_between, project_onto_plane, \
     rotation_matrix4, scaling_matrix4, translation_matrix4
 
 
-INTERSECT_CLIPPING_FLOOR = 1e-12
+INTERSECT_CLIPPING_FLOOR = 1e-10
 
 
 def check_R_and_D(R, D):
diff --git a/optics3d.py b/optics3d.py
index 677f170..4588bcf 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -18,7 +18,7 @@ from Shapes.shapes import Rectangle, Circle, Sphere
 
 
 
-INTERSECT_CLIPPING_FLOOR = 1e-12
+INTERSECT_CLIPPING_FLOOR = 1e-10
 INDEX_OF_THE_WORLD = 1.0000000
 
 
-- 
2.43.0


From 02509745afcd3f919d1d06f161d510eb214ffab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 27/29] fix: the signed angle depended on the length of the
 normal it is taken about

---
 general_optics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general_optics.py b/general_optics.py
index f9e930e..dbe8f10 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -27,7 +27,7 @@ def angle_between(v1, v2, v_normal=None):
     v1_u = unit_vector(v1)
     v2_u = unit_vector(v2)
     if v_normal is not None: # signed
-        angle = np.arctan2(np.dot((np.cross(v2_u, v1_u)), v_normal), np.dot(v1_u, v2_u))
+        angle = np.arctan2(np.dot((np.cross(v2_u, v1_u)), unit_vector(v_normal)), np.dot(v1_u, v2_u))
     else: # unsigned
         angle = np.arccos(np.clip(np.dot(v1_u, v2_u), -1.0, 1.0))
     return angle
-- 
2.43.0


From 0ed47609ebf6daa50b372fb45c8cdaed66d9e309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 28/29] fix: sphere crossings lose no precision from far away
 (light met small balls twice)

---
 Shapes/shapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index 718f1e9..1538b09 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -311,8 +311,8 @@ class Sphere(Shape):
         # Dec 9 2018
         q = self.center - ray.position
         vDotQ = np.dot(ray.direction, q)
-        squareDiffs = np.dot(q, q) - self.R * self.R
-        discrim = vDotQ * vDotQ - squareDiffs
+        offset = q - vDotQ * ray.direction  # from the line to the center; no loss of precision from far away
+        discrim = self.R * self.R - np.dot(offset, offset)
         intersection_count = 0
         if discrim > 0:  # line (not necessarily the ray) intersects in two points
             root = np.sqrt(discrim)
-- 
2.43.0


From 9c0e3a82c88db26d3a8fe930d9008ed3b0d08b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 29/29] fix: cylinder crossings lose no precision from far away

---
 Shapes/shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index 1538b09..7b0b15a 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -169,7 +169,7 @@ class InfiniteCylinder(Shape):
         A = xD ** 2 + yD ** 2
         B = 2 * xE * xD + 2 * yE * yD
         C = xE ** 2 + yE ** 2 - 1
-        discriminant = B * B - 4 * A * C
+        discriminant = 4 * (A - (xE * yD - yE * xD) ** 2)  # B^2 - 4 A C without loss of precision from far away
         if A <= INTERSECT_CLIPPING_FLOOR ** 2:  # ray runs along the axis, never crosses the side
             t0_objectSpace = None
             t1_objectSpace = None
-- 
2.43.0

