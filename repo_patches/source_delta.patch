From d2c1510f305690ab5aad6661150511e090f2128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:11 +0000
Subject: [PATCH 01/30] fix: remove rays below the intensity threshold (third
 logical_or argument is out)

---
 pyrayt/_pyrayt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 8005f85..2592aa3 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -414,8 +414,8 @@ class RayTracer(object):
         # (no intersection)
         absorbed_rays = np.isclose(np.linalg.norm(self._ray_set.rays[1], axis=0), 0)
         powerless_rays = self._ray_set.intensity < self.ray_intensity_threshold
-        dead_rays = np.logical_or(
-            absorbed_rays, self._hit_surfaces == -1, powerless_rays
+        dead_rays = np.logical_or.reduce(
+            (absorbed_rays, self._hit_surfaces == -1, powerless_rays)
         )
         living_rays = np.logical_not(dead_rays)  # living rays aren't dead...
         # increment the generation number
-- 
2.43.0


From 95aaa8dde02d98264b12a6e50a3a9e73e01ac4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:11 +0000
Subject: [PATCH 02/30] fix: RayTracer.get_system returns the component list
 instead of an undefined attribute

---
 pyrayt/_pyrayt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 2592aa3..764a162 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -324,7 +324,7 @@ class RayTracer(object):
         :return: List[tinygfx.g3d.world_objects.Intersectable]
         """
 
-        return self._system
+        return self._components
 
     def trace(self):
         self._state = RayTracer._States.INITIALIZE  # kick off the state machine
-- 
2.43.0


From e035632b4170e693d3408137f5c783decb146a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:11 +0000
Subject: [PATCH 03/30] fix: rebuild the surface lookup table when tracing so
 newly loaded components interact

---
 pyrayt/_pyrayt.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 764a162..e979609 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -254,10 +254,8 @@ class RayTracer(object):
         self._ray_set = RaySet(0)
         self._next_ray_set = RaySet(0)
 
-        # make a flattened list of all surface IDS
+        # flattened list of all surface IDS, rebuilt from the current components on every trace
         self._surface_lut = tuple()
-        for shape in self._components:
-            self._surface_lut += shape.surface_ids
 
     def reset(self):
         """
@@ -356,6 +354,11 @@ class RayTracer(object):
     def _st_initialize(self):
         self.reset()  # reset the renderer states/generation number
 
+        # make a flattened list of all surface IDS in the current components
+        self._surface_lut = tuple()
+        for shape in self._components:
+            self._surface_lut += shape.surface_ids
+
         # make a ray set from the concatenated ray sets returned by the sources
         self._ray_set = np.hstack(
             [source.generate_rays(self._rays_per_source) for source in self._sources]
-- 
2.43.0


From 164d1b8c81ed500b06859cac211c86f2045ee0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:11 +0000
Subject: [PATCH 04/30] fix: pin restores members pinned before the compound
 object that contains them

---
 pyrayt/_pyrayt.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index e979609..21e257b 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -572,7 +572,14 @@ class pin(object):
 
     def __exit__(self, exception_type, exception_value, traceback):
 
-        for this_object, starting_matrix in zip(self._obj_set, self._starting_matrices):
-            final_matrix = this_object.get_world_transform()
-            matrix_change = np.matmul(final_matrix, np.linalg.inv(starting_matrix))
-            this_object.transform(np.linalg.inv(matrix_change))
+        # restoring a compound object also transforms its members, so objects pinned alongside a compound
+        # they belong to need another pass; one pass per object covers any level of nesting
+        for _ in self._obj_set:
+            for this_object, starting_matrix in zip(
+                self._obj_set, self._starting_matrices
+            ):
+                final_matrix = this_object.get_world_transform()
+                if np.array_equal(final_matrix, starting_matrix):
+                    continue
+                matrix_change = np.matmul(final_matrix, np.linalg.inv(starting_matrix))
+                this_object.transform(np.linalg.inv(matrix_change))
-- 
2.43.0


From 1e31ca5fe56540bd43b726172081cab07b9dae18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:32 +0000
Subject: [PATCH 05/30] fix: refract no longer normalizes the caller's vectors
 in place

---
 tinygfx/g3d/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinygfx/g3d/operations.py b/tinygfx/g3d/operations.py
index 9eb7a35..e04d591 100644
--- a/tinygfx/g3d/operations.py
+++ b/tinygfx/g3d/operations.py
@@ -122,7 +122,7 @@ def refract(vectors, normals, n1, n2, n_global=1):
     :return: a 4xn array of homogeneous vectors representing the new transmission direction of the vectors after the
         medium
     """
-    vectors /= np.linalg.norm(vectors, axis=0)
+    vectors = vectors / np.linalg.norm(vectors, axis=0)
     cos_theta1_p = element_wise_dot(
         vectors, normals, axis=0
     )  # the angle dotted with the normals
-- 
2.43.0


From 6becdae67a1a2a9c4425f733206f19de10bfdece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:36 +0000
Subject: [PATCH 06/30] fix: Abbe number follows the glass's current
 coefficients instead of a stale cache

---
 pyrayt/materials.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyrayt/materials.py b/pyrayt/materials.py
index d63cef5..c1c9a6c 100644
--- a/pyrayt/materials.py
+++ b/pyrayt/materials.py
@@ -4,7 +4,6 @@ from pyrayt._pyrayt import RaySet
 from tinygfx.g3d import materials as cg_matl
 import tinygfx.g3d as cg
 import abc
-from functools import lru_cache
 
 
 class TracableMaterial(cg_matl.gooch.Material):
@@ -74,7 +73,6 @@ class Glass(TracableMaterial):
         )
         return ray_set
 
-    @lru_cache(100)
     def abbe(self) -> float:
         """
         Calculates the `Abbe number <https://en.wikipedia.org/wiki/Abbe_number>`_ of the material.
-- 
2.43.0


From 7a75cc96ec5baffb68c03d1a1a8ef1f7277978f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:10 +0000
Subject: [PATCH 07/30] fix: CircleOfRays spaces rays uniformly instead of
 emitting the first ray twice

---
 pyrayt/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index e7d950d..e0e0cca 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -546,7 +546,7 @@ class CircleOfRays(Source):
 
         rayset = pyrayt.RaySet(n_rays)
         # if we want more than one ray, linearly space them, otherwise default position is fine
-        theta = np.linspace(0, 2 * np.pi, n_rays)
+        theta = np.linspace(0, 2 * np.pi, n_rays, endpoint=False)
         rayset.rays[0, 1] = (
             self._diameter / 2 * np.sin(theta)
         )  # space rays along the y-axis
-- 
2.43.0


From 662ebcf14ed8d6d3dd9bdbae6f4dca8fcc0c7a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:29 +0000
Subject: [PATCH 08/30] fix: StaticLamp caches only its random samples, so it
 can be moved and its rays edited

---
 pyrayt/components.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index e0e0cca..059b69b 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -1,5 +1,4 @@
 import abc
-from functools import lru_cache
 from functools import wraps
 from typing import Union, Tuple
 
@@ -657,6 +656,15 @@ class Lamp(Source):
 class StaticLamp(Lamp):
     """Identical to a :class:`Lamp`, except the ray generation function is cached so the same set of rays is generated across multiple simulations. Useful for running Monte-Carlo models where the random noise of the source is larger than the resolution you're trying to capture at."""
 
-    @lru_cache(10)
-    def generate_rays(self, n_rays: int) -> pyrayt.RaySet:
-        return super().generate_rays(n_rays)
+    def __init__(self, *args, **kwargs) -> None:
+        super().__init__(*args, **kwargs)
+        self._local_rays = {}  # the rays in object space, by number of rays
+
+    def _local_ray_generation(self, n_rays: int) -> pyrayt.RaySet:
+        if n_rays not in self._local_rays:
+            self._local_rays[n_rays] = super()._local_ray_generation(n_rays)
+        # only the random samples are cached: the lamp can be moved or change wavelength between calls, and the
+        # returned set belongs to the caller
+        rayset = self._local_rays[n_rays].copy()
+        rayset.wavelength = self._wavelength
+        return rayset
-- 
2.43.0


From 433dda9c1b4bb26dff82243869f63fadc58e076c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:40 +0000
Subject: [PATCH 09/30] fix: moving a nested member updates the bounding boxes
 of every enclosing compound

---
 tinygfx/g3d/world_objects.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index 94d4fd7..87f7596 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -123,12 +123,15 @@ class WorldObject(CountedObject):
             self._world_coordinate_transform
         )
 
+    def _run_watchlist(self):
+        [fn() for fn in self.var_watchlist]
+
     def _append_world_transform(self, new_transform):
         self._world_coordinate_transform = np.matmul(
             new_transform, self._world_coordinate_transform
         )
         # update the functions in the watch list
-        [fn() for fn in self.var_watchlist]
+        self._run_watchlist()
 
     def get_position(self):
         # check if the position is valid, if not update it and return
@@ -314,7 +317,8 @@ class Intersectable(WorldObject, abc.ABC):
 
     def attach_to(self, parent_object: WorldObject) -> None:
         self._parent = parent_object
-        self.var_watchlist += parent_object.var_watchlist
+        # run the parent's current watchlist, not a copy of it: the parent can itself be attached to another object later
+        self.var_watchlist.append(parent_object._run_watchlist)
 
     def invert_normals(self):
         self._normal_scale = -1
-- 
2.43.0


From 1d3c6cede827100bc1836cb2bcc3c197f4aed2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:44 +0000
Subject: [PATCH 10/30] fix: normals of nested differences point out of the
 combined solid

---
 tinygfx/g3d/csg.py           | 3 +++
 tinygfx/g3d/world_objects.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/tinygfx/g3d/csg.py b/tinygfx/g3d/csg.py
index 9dad29f..cc50b48 100644
--- a/tinygfx/g3d/csg.py
+++ b/tinygfx/g3d/csg.py
@@ -166,6 +166,9 @@ class CSGSurface(Intersectable):
     def reset_normals(self):
         self._l_child.reset_normals()
         self._r_child.reset_normals()
+        # the normals of a subtracted child point into it
+        if self._operation == Operation.DIFFERENCE:
+            self._r_child.invert_normals()
 
     @property
     def surface_ids(self) -> tuple:
diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index 87f7596..186a762 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -321,7 +321,7 @@ class Intersectable(WorldObject, abc.ABC):
         self.var_watchlist.append(parent_object._run_watchlist)
 
     def invert_normals(self):
-        self._normal_scale = -1
+        self._normal_scale = -self._normal_scale
 
     def reset_normals(self):
         self._normal_scale = 1
-- 
2.43.0


From f2f774cbaaf46257740687590bb4d4e61656d1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:47 +0000
Subject: [PATCH 11/30] fix: bounding box of a union of separated objects
 encloses all of them

---
 tinygfx/g3d/csg.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tinygfx/g3d/csg.py b/tinygfx/g3d/csg.py
index cc50b48..cbf8acc 100644
--- a/tinygfx/g3d/csg.py
+++ b/tinygfx/g3d/csg.py
@@ -107,7 +107,11 @@ class CSGSurface(Intersectable):
             #         (self._operation == Operation.INTERSECT and np.any(np.all(np.isinf(new_spans), axis=0))):
             #     raise ValueError(f"CSG Child Surfaces {self._l_child} and {self._r_child} no longer intersect")
 
-            local_aobb = primitives.Cube(*new_spans[:2])
+            # the union of disjoint spans leaves gaps, the box has to reach up to the last (finite) span
+            max_corner = np.max(
+                np.where(np.isfinite(new_spans), new_spans, new_spans[0]), axis=0
+            )
+            local_aobb = primitives.Cube(new_spans[0], max_corner)
 
         else:
             # for a diff operation the bounding box must always be the bounding box of the left hand child
-- 
2.43.0


From db383277266e01d801cadcb713d5a286e41cc7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:16 +0000
Subject: [PATCH 12/30] fix: elliptical apertures are returned to the component
 factories

---
 pyrayt/components.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 059b69b..6a93629 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -41,12 +41,11 @@ def _create_aperture(aperture: Union[float, tuple], thickness):
 
     elif aperture[0] < 0 and aperture[1] < 0:
         # if two values were passed it's elliptical
-        aperture = cg.Cylinder(
+        return cg.Cylinder(
             radius=np.abs(aperture[0]) / 2,
             min_height=-thickness / 2,
             max_height=thickness / 2,
-        )
-        aperture.scale_y(aperture[1] / aperture[0])
+        ).scale_y(aperture[1] / aperture[0])
 
     else:
         raise TypeError(f"Could not deduce an aperture from {aperture}")
-- 
2.43.0


From de3b428b8207b5be9b2fcc8e7c3985b6be620c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:18 +0000
Subject: [PATCH 13/30] fix: biconvex_lens gives each side its own radius and
 accepts negative and infinite radii

---
 pyrayt/components.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 6a93629..b40fd14 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -180,17 +180,19 @@ def biconvex_lens(r1: float, r2: float, thickness: float, **kwargs) -> cg.Inters
 
     # create an aperture from the aperture arguments
     aperture_shape = _create_aperture(kwargs.get("aperture"), thickness)
-    left_side = cg.Sphere(r2).move_z(r1 - thickness / 2)
-    right_side = cg.Sphere(r1).move_z(-(r1 - thickness / 2))
 
     # assign materials from the kwargs
     material = kwargs.get("material")
     aperture_shape.material = material
-    left_side.material = material
-    right_side.material = material
-
-    # perform csg to get the final lens
-    lens = cg.csg.intersect(cg.csg.intersect(left_side, right_side), aperture_shape)
+    lens = aperture_shape
+
+    # perform csg to get the final lens, an infinite radius leaves the planar side of the aperture
+    for radius, direction in ((np.abs(r1), 1), (np.abs(r2), -1)):
+        if np.isfinite(radius):
+            side = cg.Sphere(radius, material=material).move_z(
+                direction * (radius - thickness / 2)
+            )
+            lens = cg.csg.intersect(side, lens)
 
     # now we need to rotate the lens so it's orientated in the YZ plane
     return lens
-- 
2.43.0


From 082e26e0e8de304f19bdfa4fe26fe1c6eee2ba06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:21 +0000
Subject: [PATCH 14/30] fix: plano_convex_lens accepts negative and infinite
 radii

---
 pyrayt/components.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index b40fd14..96ef98c 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -215,14 +215,18 @@ def plano_convex_lens(r: float, thickness: float, **kwargs) -> cg.csg.Intersecta
 
     # create an aperture from the aperture arguments
     aperture = _create_aperture(kwargs.get("aperture"), thickness)
-    right_side = cg.Sphere(r).move_z(-(r - thickness / 2))
 
     # assign materials from the kwargs
     material = kwargs.get("material")
     aperture.material = material
-    right_side.material = material
+
+    # an infinite radius makes the lens a planar window
+    r = np.abs(r)
+    if not np.isfinite(r):
+        return aperture
 
     # perform csg to get the final lens
+    right_side = cg.Sphere(r, material=material).move_z(-(r - thickness / 2))
     lens = cg.csg.intersect(right_side, aperture)
 
     # now we need to rotate the lens so it's orientated in the YZ plane
-- 
2.43.0


From 1b99b349db1bbeb0748fde995f085031b3d9f4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:23 +0000
Subject: [PATCH 15/30] fix: baffles extend along y and z as specified and
 accept circles and ellipses

---
 pyrayt/components.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 96ef98c..df9bf46 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -449,7 +449,24 @@ def baffle(aperture: Union[float, Tuple[float, float]]) -> cg.Intersectable:
     :return: a planar baffle centered at the origin, coplanar to the YZ Plane.
     """
 
-    return cg.XYPlane(aperture[0], aperture[1], material=matl.absorber).rotate_y(90)
+    return _planar_absorber(aperture).rotate_y(90).rotate_x(90)
+
+
+def _planar_absorber(aperture: Union[float, Tuple[float, float]]) -> cg.Intersectable:
+    """
+    Creates the absorbing surface of a baffle in the XY plane
+
+    :param aperture: Aperture specification for the surface
+    """
+    size = np.abs(aperture) * np.ones(2)
+    plane = cg.XYPlane(size[0], size[1], material=matl.absorber)
+    if np.all(np.asarray(aperture) > 0) and hasattr(aperture, "__len__"):
+        return plane
+
+    # circles and ellipses are cut out of the rectangle that encloses them
+    outline = _create_aperture(aperture, thickness=0.1)
+    outline.material = matl.absorber
+    return cg.csg.intersect(plane, outline)
 
 
 def aperture(
@@ -466,7 +483,7 @@ def aperture(
     :rtype: cg.Intersectable
     """
 
-    aperture_stop = baffle(size).rotate_y(-90)
+    aperture_stop = _planar_absorber(size)
     aperture = _create_aperture(aperture_size, thickness=0.1)
 
     return cg.csg.difference(aperture_stop, aperture).rotate_y(90).rotate_x(-90)
-- 
2.43.0


From 5b87190660fbf0cd9ee404e4723f2a93b3bcb49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:39 +0000
Subject: [PATCH 16/30] fix: plane_mirror spans x=-thickness to x=0 as
 documented

---
 pyrayt/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index df9bf46..568e787 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -264,7 +264,7 @@ def plane_mirror(thickness: float, **kwargs) -> cg.Intersectable:
     """
     off_axis = kwargs.get("off_axis")
     mirror = _create_aperture(kwargs.get("aperture"), thickness).move(
-        *off_axis, 0
+        *off_axis, -thickness / 2
     )  # move the mirror to it's off axis pt
     mirror.material = kwargs.get("material")
     return mirror
-- 
2.43.0


From 1854d091451487be783291b5caf9b8e188274bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:39 +0000
Subject: [PATCH 17/30] fix: flat cuboids (a plane mirror of zero thickness)
 are hit by rays

---
 tinygfx/g3d/primitives.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tinygfx/g3d/primitives.py b/tinygfx/g3d/primitives.py
index ef28092..ee2033e 100644
--- a/tinygfx/g3d/primitives.py
+++ b/tinygfx/g3d/primitives.py
@@ -575,7 +575,8 @@ class Cube(SurfacePrimitive):
         )  # second hit is the min value of the maximums
 
         # if the min is larger than the max the ray missed the cube and should be replaced with inf
-        cube_hits = np.where(cube_hits[0] < cube_hits[1], cube_hits, np.inf)
+        # (they are equal if the cube is flat, e.g. the box around a planar surface)
+        cube_hits = np.where(cube_hits[0] <= cube_hits[1], cube_hits, np.inf)
 
         # return the cube hits
         return cube_hits
-- 
2.43.0


From d29607c784f0d37fbe25f4285dc3533e8b5e007f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:42 +0000
Subject: [PATCH 18/30] fix: spherical_mirror with an infinite radius is a
 plane mirror

---
 pyrayt/components.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 568e787..9a1147d 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -294,6 +294,9 @@ def spherical_mirror(radius: float, thickness: float, **kwargs) -> cg.Intersecta
     material = kwargs.get("material")
     aperture = kwargs.get("aperture")
 
+    if not np.isfinite(radius):
+        return plane_mirror.__wrapped__(thickness, **kwargs)
+
     # need to calculate aperture thickness based on the off-axis value
     l = np.sqrt(off_axis[0] ** 2 + off_axis[1] ** 2)
     if hasattr(aperture, "__len__"):
-- 
2.43.0


From 95e8b5bf02ecce546cf442ddc2007e6acd9c4ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:46 +0000
Subject: [PATCH 19/30] fix: parabolic_mirror covers the whole of an elliptical
 aperture

---
 pyrayt/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 9a1147d..c7c8c7d 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -379,7 +379,7 @@ def parabolic_mirror(focus: float, thickness: float, **kwargs) -> cg.csg.Interse
     if hasattr(aperture, "__len__"):
         # if it's a rectangular aperture the dl is the norm of he rectangle
         furthest_point = np.linalg.norm(
-            np.abs(np.asarray(off_axis)) + np.asarray(aperture) / 2
+            np.abs(np.asarray(off_axis)) + np.abs(np.asarray(aperture)) / 2
         )
     else:
         # otherwise if it's circular it's just the radius
-- 
2.43.0


From b55fb71315d751aae8e0281443a52faf92d34c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:19 +0000
Subject: [PATCH 20/30] fix: renderers draw what is ahead of the camera, and
 draw() places the camera facing the components

---
 tinygfx/g3d/renderers.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index c623919..06601e5 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -78,9 +78,9 @@ class EdgeRender(object):
         ray_hit_index = np.arange(self._rays.shape[-1])
         for n, shape in enumerate(self._shapes):
             shape_hits, shape_surfaces = shape.intersect(self._rays)
-            nearest_hit_arg = np.argmin(
-                np.where(shape_hits > 0, shape_hits, np.inf), axis=0
-            )
+            # only surfaces in front of the camera are visible
+            shape_hits = np.where(shape_hits > 0, shape_hits, np.inf)
+            nearest_hit_arg = np.argmin(shape_hits, axis=0)
             nearest_hit = shape_hits[nearest_hit_arg, ray_hit_index]
             nearest_surface = shape_surfaces[nearest_hit_arg, ray_hit_index]
             new_minima = nearest_hit < hit_distances
@@ -194,9 +194,9 @@ class ShadedRenderer:
         ray_hit_index = np.arange(self._rays.shape[-1])
         for n, shape in enumerate(self._shapes):
             shape_hits, shape_surfaces = shape.intersect(self._rays)
-            nearest_hit_arg = np.argmin(
-                np.where(shape_hits > 0, shape_hits, np.inf), axis=0
-            )
+            # only surfaces in front of the camera are visible
+            shape_hits = np.where(shape_hits > 0, shape_hits, np.inf)
+            nearest_hit_arg = np.argmin(shape_hits, axis=0)
             nearest_hit = shape_hits[nearest_hit_arg, ray_hit_index]
             nearest_surface = shape_surfaces[nearest_hit_arg, ray_hit_index]
             new_minima = nearest_hit < hit_distances
@@ -284,7 +284,7 @@ def draw(
 
 def _draw_xy(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, mins):
     camera_origin = (maxes + mins) / 2
-    camera_origin[2] = 1.5 * maxes[2]
+    camera_origin[2] = maxes[2] + 1  # above every surface, facing down
     h_span, v_span = 1.5 * (maxes[:2] - mins[:2])  # the camera spans
     resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
     # make the camera and move it into position
@@ -318,7 +318,7 @@ def _draw_xy(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, min
 
 def _draw_xz(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, mins):
     camera_origin = (maxes + mins) / 2
-    camera_origin[1] = 1.5 * maxes[1]
+    camera_origin[1] = mins[1] - 1  # in front of every surface, facing +y
     h_span, v_span = 1.5 * (maxes[[0, 2]] - mins[[0, 2]])  # the camera spans
     resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
     # make the camera and move it into position
-- 
2.43.0


From 88803ee226d3ed17f3529d3e0ca16c35438c980f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:21 +0000
Subject: [PATCH 21/30] fix: EdgeRender.get_results returns the rendered image
 instead of an undefined attribute

---
 tinygfx/g3d/renderers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index 06601e5..8aeae48 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -54,11 +54,11 @@ class EdgeRender(object):
 
     def get_results(self):
         """
-        Returns a dataframe of the Ray Trace Results
+        Returns the rendered image
 
-        :return: pandas dataframe
+        :return: an array of RGBA values, None if nothing has been rendered
         """
-        return self._frame.data
+        return self._results
 
     def _st_initialize(self):
         self.reset()  # reset the renderer states/generation number
-- 
2.43.0


From fbf1eb56b88f9d1afe0d6f8d5deab4e21e070aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:24 +0000
Subject: [PATCH 22/30] fix: wavelength_to_rgb accepts a single wavelength as
 documented

---
 pyrayt/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyrayt/utils.py b/pyrayt/utils.py
index 4371ac8..fe8d6bc 100644
--- a/pyrayt/utils.py
+++ b/pyrayt/utils.py
@@ -14,6 +14,8 @@ def wavelength_to_rgb(wavelength: Tuple[float, np.ndarray], gamma=0.8) -> np.nda
     """
 
     wavelength = np.asarray(wavelength)  # convert the wavelength into a numpy array
+    single_wavelength = wavelength.ndim == 0
+    wavelength = np.atleast_1d(wavelength)
     color = np.empty((3, wavelength.shape[0]))  # an empty matrix to generate color
 
     # calculate the color for 380 -> 440 nm
@@ -99,7 +101,7 @@ def wavelength_to_rgb(wavelength: Tuple[float, np.ndarray], gamma=0.8) -> np.nda
         wavelength >= zone_min, zone, color
     )  # fill the color array at the appropriate spots
 
-    return color.T
+    return color.T[0] if single_wavelength else color.T
 
 
 def lensmakers_equation(r1: float, r2: float, n_lens: float, thickness: float) -> float:
-- 
2.43.0


From 186d826c79e738c191e4d590a739a3e5fa85efbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:28 +0000
Subject: [PATCH 23/30] fix: get_position and get_orientation return copies of
 the object's state

---
 tinygfx/g3d/world_objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index 186a762..2cd82ec 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -140,7 +140,7 @@ class WorldObject(CountedObject):
                 self._world_coordinate_transform, self._obj_origin
             )
             self._pos_valid = True
-        return self._world_origin
+        return copy.copy(self._world_origin)
 
     def get_orientation(self):
         # check if we need to update the direction vector
@@ -154,7 +154,7 @@ class WorldObject(CountedObject):
             else:
                 self._world_direction = world_dir / norm
 
-        return self._world_direction
+        return copy.copy(self._world_direction)
 
     def get_quaternion(self):
         # make a rotation object
-- 
2.43.0


From 5c39d3578a353c93a37b89afe1eb86ac0fb954d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:32 +0000
Subject: [PATCH 24/30] fix: Gooch shading accepts any number of lights

---
 tinygfx/g3d/materials/gooch.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tinygfx/g3d/materials/gooch.py b/tinygfx/g3d/materials/gooch.py
index 2b03e64..e4bb3af 100644
--- a/tinygfx/g3d/materials/gooch.py
+++ b/tinygfx/g3d/materials/gooch.py
@@ -46,12 +46,10 @@ class GoochMaterial(Material):
             ]
 
         else:
-            light_vectors = light_positions[:3, :, np.newaxis] - np.tile(
-                rays[0, :3], (light_positions.shape[-1], 1, 1)
-            )
+            light_vectors = light_positions[:3].T[:, :, np.newaxis] - rays[0, :3]
 
         # normalize the light vector
-        light_vectors /= np.linalg.norm(light_vectors, axis=1)
+        light_vectors /= np.linalg.norm(light_vectors, axis=1, keepdims=True)
         # take the dot product of each slice of the light vectors with the normal vector
         light_normal_dot = np.einsum("ijk,jk->ik", light_vectors, normals)
 
-- 
2.43.0


From f8b71e517851a1cb26c96ca6c9b20246d125b534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:06 +0000
Subject: [PATCH 25/30] fix: source ids and source colors refer to the ray
 count the results were traced with

---
 pyrayt/_pyrayt.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 21e257b..eeadce4 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -253,6 +253,7 @@ class RayTracer(object):
 
         self._ray_set = RaySet(0)
         self._next_ray_set = RaySet(0)
+        self._traced_rays_per_source = rays_per_source  # ray count of the last trace
 
         # flattened list of all surface IDS, rebuilt from the current components on every trace
         self._surface_lut = tuple()
@@ -348,7 +349,7 @@ class RayTracer(object):
         """
         Calculates the Source ID for every ray in the dataframe, adding it as a column
         """
-        ids = (self._frame.data["id"] / self._rays_per_source).astype(int)
+        ids = (self._frame.data["id"] / self._traced_rays_per_source).astype(int)
         self._frame.data["source_id"] = ids
 
     def _st_initialize(self):
@@ -360,6 +361,7 @@ class RayTracer(object):
             self._surface_lut += shape.surface_ids
 
         # make a ray set from the concatenated ray sets returned by the sources
+        self._traced_rays_per_source = self._rays_per_source
         self._ray_set = np.hstack(
             [source.generate_rays(self._rays_per_source) for source in self._sources]
         ).view(RaySet)
@@ -488,8 +490,8 @@ class RayTracer(object):
             for n, this_color in enumerate(colors):
                 color = np.where(
                     np.logical_and(
-                        self._frame.data["id"] >= n * self._rays_per_source,
-                        self._frame.data["id"] < (n + 1) * self._rays_per_source,
+                        self._frame.data["id"] >= n * self._traced_rays_per_source,
+                        self._frame.data["id"] < (n + 1) * self._traced_rays_per_source,
                     ),
                     np.atleast_2d(this_color).T,
                     color,
-- 
2.43.0


From ee8a064c8550dfbff9d1f5a089fc025bfd45fb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:09 +0000
Subject: [PATCH 26/30] fix: show refuses an unknown view instead of failing on
 an unbound variable

---
 pyrayt/_pyrayt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index eeadce4..4fb4afd 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -515,6 +515,8 @@ class RayTracer(object):
         elif view == "xz":
             ax0 = "x"
             ax1 = "z"
+        else:
+            raise ValueError(f"view must be 'xy' or 'xz', got {view!r}")
 
         x1 = ax0 + "1"
         y1 = ax1 + "1"
-- 
2.43.0


From 12b638ec8127cc1ba7c6e82ade7747094799abcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:49 +0000
Subject: [PATCH 27/30] fix: components that are thin or edge-on in the chosen
 view can be drawn

---
 tinygfx/g3d/renderers.py     | 18 ++++++++++++++----
 tinygfx/g3d/world_objects.py |  2 +-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index 8aeae48..0511bf1 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -282,11 +282,19 @@ def draw(
         _draw_xz(surfaces, axis, shaded, resolution, maxes, mins)
 
 
+def _camera_spans(extents, resolution):
+    # surfaces seen edge on have no extent in one direction, but are at least a pixel wide
+    spans = 1.5 * extents
+    return np.maximum(spans, np.max(spans) / resolution)
+
+
 def _draw_xy(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, mins):
     camera_origin = (maxes + mins) / 2
     camera_origin[2] = maxes[2] + 1  # above every surface, facing down
-    h_span, v_span = 1.5 * (maxes[:2] - mins[:2])  # the camera spans
-    resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
+    h_span, v_span = _camera_spans(maxes[:2] - mins[:2], resolution)
+    resolution = (
+        resolution if h_span > v_span else max(1, int(resolution * h_span / v_span))
+    )
     # make the camera and move it into position
     camera = OrthographicCamera(resolution, h_span, v_span / h_span)
     camera.rotate_y(90).rotate_z(90).move(*camera_origin[:3])
@@ -319,8 +327,10 @@ def _draw_xy(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, min
 def _draw_xz(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, mins):
     camera_origin = (maxes + mins) / 2
     camera_origin[1] = mins[1] - 1  # in front of every surface, facing +y
-    h_span, v_span = 1.5 * (maxes[[0, 2]] - mins[[0, 2]])  # the camera spans
-    resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
+    h_span, v_span = _camera_spans(maxes[[0, 2]] - mins[[0, 2]], resolution)
+    resolution = (
+        resolution if h_span > v_span else max(1, int(resolution * h_span / v_span))
+    )
     # make the camera and move it into position
     camera = OrthographicCamera(resolution, h_span, v_span / h_span)
     camera.rotate_z(90).move(*camera_origin[:3])
diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index 2cd82ec..2825dfd 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -512,7 +512,7 @@ class OrthographicCamera(WorldObject):
         self._h_pixels = h_pixel_count
         self._h_width = h_width
         self._v_width = aspect_ratio * h_width
-        self._v_pixels = int(aspect_ratio * self._h_pixels)
+        self._v_pixels = max(1, int(aspect_ratio * self._h_pixels))
 
     def get_resolution(self):
         return (self._h_pixels, self._v_pixels)
-- 
2.43.0


From 4c9869e43dec7fb16713a833815d8ad918ec1278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:23 +0000
Subject: [PATCH 28/30] fix: spherical_mirror refuses a radius of zero instead
 of failing on an unbound variable

---
 pyrayt/components.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index c7c8c7d..8d63f39 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -324,6 +324,8 @@ def spherical_mirror(radius: float, thickness: float, **kwargs) -> cg.Intersecta
     elif radius < 0:
         mirror_surface = cg.Sphere(abs(radius), material=material).move_z(radius)
         aperture.move_z(thickness - total_thickness / 2)
+    else:
+        raise ValueError(f"a spherical mirror cannot have a radius of {radius}")
     mirror = cg.csg.difference(aperture, mirror_surface)
     return mirror
 
-- 
2.43.0


From 281f908a323147a29332f37437b48a67f926d402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:26 +0000
Subject: [PATCH 29/30] fix: tutorial calls methods that exist

---
 docs/source/tutorial.rst | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docs/source/tutorial.rst b/docs/source/tutorial.rst
index 9cc7ff0..60f2cfc 100644
--- a/docs/source/tutorial.rst
+++ b/docs/source/tutorial.rst
@@ -63,7 +63,7 @@ value is a 4D :class:`~tinygfx.g3d.primitives.HomogeneousCoordinate`, with dimen
 
 	>>> lens.get_position()
 	Point([0., 0., 0., 1.])
-	>>> lens.get_position.x
+	>>> lens.get_position().x
 	0.0
 
 Rotation
@@ -160,7 +160,7 @@ Baffles are generic components that mimic a perfect absorber, any ray that inter
 .. prompt:: python >>> auto
 
 	>>> baffle = pyrayt.components.baffle((1,1))
-	>>> tracer.load_system([lens, baffle])
+	>>> tracer.load_components([lens, baffle])
 	>>> baffle.move_x(1)
 
 Now when we run the ray trace we get the results we'd expect. Unfortuately you still cannot see the baffle, even though the rays interact with it. This is because the draw() function itself is performing a ray trace, where each pixel value is the result of a ray projected into the scene! Since the baffle has no depth and is perpendicular to the viewing plane, it's impossible for a ray to intersect with it.
-- 
2.43.0


From 84e6f74e0a8bed43516b5d393089a197aaba1987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 30/30] fix: a refused scale or transform leaves the object as
 it was

---
 tinygfx/g3d/world_objects.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index 2825dfd..446b8c6 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -127,11 +127,16 @@ class WorldObject(CountedObject):
         [fn() for fn in self.var_watchlist]
 
     def _append_world_transform(self, new_transform):
-        self._world_coordinate_transform = np.matmul(
-            new_transform, self._world_coordinate_transform
-        )
+        previous_transform = self._world_coordinate_transform
+        self._world_coordinate_transform = np.matmul(new_transform, previous_transform)
         # update the functions in the watch list
-        self._run_watchlist()
+        try:
+            self._run_watchlist()
+        except (ValueError, linalg.LinAlgError):
+            # a transform that cannot be inverted is refused, the object keeps its pose
+            self._world_coordinate_transform = previous_transform
+            self._run_watchlist()
+            raise
 
     def get_position(self):
         # check if the position is valid, if not update it and return
-- 
2.43.0

