From fc169c2082b77052903c39e0ea231c60b3aa97e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:55 +0000
Subject: [PATCH 01/38] fix: Q_reflection refused every input

The shape of the array was compared to an integer instead of its number
of dimensions.
---
 marxs/math/polarization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/math/polarization.py b/marxs/math/polarization.py
index 7391b5f..6bfc724 100644
--- a/marxs/math/polarization.py
+++ b/marxs/math/polarization.py
@@ -82,7 +82,7 @@ def Q_reflection(delta_dir):
     q : np.array of shape (n, 4, 4)
         Array of parallel transport ray tracing matrices.
     '''
-    if delta_dir.shape != 2:
+    if delta_dir.ndim != 2:
         raise ValueError('delta_dir must have dimension (n, 4).')
     m = delta_dir[..., None, :] * delta_dir[..., :, None]
     return np.eye(4) - 2 / (np.linalg.norm(delta_dir, axis=1)**2)[:, None, None] * m
-- 
2.43.0


From 93f766286e2991c39d8eb57c91e72e9bc3f49f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:55 +0000
Subject: [PATCH 02/38] fix: parallel_transport ignored its keyword arguments

They are documented to be passed on to paralleltransport_matrix.
---
 marxs/math/polarization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/math/polarization.py b/marxs/math/polarization.py
index 6bfc724..836b11d 100644
--- a/marxs/math/polarization.py
+++ b/marxs/math/polarization.py
@@ -164,6 +164,6 @@ def parallel_transport(dir_old, dir_new, pol_old, **kwargs):
     pol : np.array of shape (m, 4)
         Parallel transported vectors.
     '''
-    pmat = paralleltransport_matrix(dir_old[:, :3], dir_new[:, :3])
+    pmat = paralleltransport_matrix(dir_old[:, :3], dir_new[:, :3], **kwargs)
     out = np.einsum('ijk,ik->ij', pmat, pol_old[:, :3])
     return e2h(out, 0)
-- 
2.43.0


From 7096e48632266e19dcdff5ba822b694b16e0bfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:42 +0000
Subject: [PATCH 03/38] fix: add_output_cols with dictionary column
 specifications

The initial value was removed from the caller's dictionary, so that it was
lost for the second photon list, and a column that existed already was
added again, which raised an error.
---
 marxs/base/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/marxs/base/base.py b/marxs/base/base.py
index f916b0b..20a8e54 100644
--- a/marxs/base/base.py
+++ b/marxs/base/base.py
@@ -269,9 +269,11 @@ class SimulationSequenceElement(MarxsElement):
             be used to set the column names, see description above.
         '''
         for n in self.output_columns + colnames:
-            if (n is not None) and (n not in photons.colnames):
-                if not isinstance(n, dict):
-                    n = {'name': n, 'value': np.nan}
+            if n is None:
+                continue
+            # copy, because the dictionary of the caller must not be modified
+            n = dict(n) if isinstance(n, dict) else {'name': n, 'value': np.nan}
+            if n['name'] not in photons.colnames:
                 val = n.pop('value', None)
                 newcol = Column(length=len(photons), **n)
                 if val is not None:
-- 
2.43.0


From e2a7f7aa3c2115adc57e43b2ad187112bdc93661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:22 +0000
Subject: [PATCH 04/38] fix: CCDRedistNormal failed when some photons miss the
 detector

The new energies were drawn for all photons, but assigned to those that
intersect.
---
 marxs/optics/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/optics/detector.py b/marxs/optics/detector.py
index 755c282..6cd012a 100644
--- a/marxs/optics/detector.py
+++ b/marxs/optics/detector.py
@@ -194,7 +194,7 @@ class CCDRedistNormal(FlatOpticalElement):
 
     def specific_process_photons(self, photons, intersect, interpos, intercoos):
         # Implicit unit of photon energy is keV, but here we need it written out.
-        phot_en = u.Quantity(photons["energy"])
+        phot_en = u.Quantity(photons["energy"][intersect])
         det_en = norm.rvs(
             loc=phot_en,
             scale=self.sig_ccd(phot_en).to(u.keV, equivalencies=u.spectral()),
-- 
2.43.0


From bdfe30c502a6ac362e13a4c790c075e644fdee94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:02 +0000
Subject: [PATCH 05/38] fix: EfficiencyFile failed at energies where no order
 has any efficiency

np.min of an empty selection raises a ValueError. The order is irrelevant then,
because the total probability is zero.
---
 marxs/optics/grating.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/optics/grating.py b/marxs/optics/grating.py
index 4b66c0d..73f3798 100644
--- a/marxs/optics/grating.py
+++ b/marxs/optics/grating.py
@@ -92,7 +92,7 @@ class EfficiencyFile(object):
         ind = np.empty(len(energies), dtype=int)
         for i, e in enumerate(energies):
             ind[i] = np.argmin(np.abs(self.energy - e))
-            orderind[i] = np.min(np.nonzero(self.cumprob[ind[i]] > np.random.rand()))
+            orderind[i] = np.argmax(self.cumprob[ind[i]] > np.random.rand())
         return self.orders[orderind], self.totalprob[ind]
 
 
-- 
2.43.0


From 36c4edabe0d0f952fece253a0f7708dd0d41699f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:31 +0000
Subject: [PATCH 06/38] fix: poisson_process never returned if less than one
 more photon is expected

---
 marxs/source/basesources.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marxs/source/basesources.py b/marxs/source/basesources.py
index df749a8..28be59a 100644
--- a/marxs/source/basesources.py
+++ b/marxs/source/basesources.py
@@ -69,10 +69,11 @@ def poisson_process(rate: (u.s * u.cm**2)**(-1)):
         # Make 10 % more numbers then we expect to need, because it's random
         times = expon.rvs(scale=1./fullrate.to(1 / u.s),
                           size=int((exposuretime * fullrate * 1.1).to(u.dimensionless_unscaled)))
-        # If we don't have enough numbers right now, add some more.
+        # If we don't have enough numbers right now, add some more
+        # (at least one, or the loop would never end).
         while (times.sum() * u.s) < exposuretime:
             times = np.hstack([times, expon.rvs(scale=1/fullrate.to(1 / u.s),
-                                                size=int(((exposuretime - times.sum() * u.s) * fullrate * 1.1).to(u.dimensionless_unscaled)))])
+                                                size=1 + int(((exposuretime - times.sum() * u.s) * fullrate * 1.1).to(u.dimensionless_unscaled)))])
         times = np.cumsum(times) * u.s
         return times[times < exposuretime]
     return poisson_rate
-- 
2.43.0


From c94e3ad3a8070c655680026ce9f5fc918157d6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:31 +0000
Subject: [PATCH 07/38] fix: LabPointSourceCone gave NaN for cones along the z
 axis

---
 marxs/source/labSource.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marxs/source/labSource.py b/marxs/source/labSource.py
index 42c5d46..1586d5f 100644
--- a/marxs/source/labSource.py
+++ b/marxs/source/labSource.py
@@ -119,6 +119,9 @@ class LabPointSourceCone(Source):
         # Now we rotate dir to align with the given direction: self.dir
         # To find axis of rotation: cross self.dir with z
         axis = np.cross(h2e(self.dir), [0, 0, 1])
+        if not np.any(axis):
+            # self.dir is parallel to z, any axis perpendicular to z will do.
+            axis = np.array([1., 0., 0.])
 
         angle = np.arccos(self.dir[2]) # Simplified
 
-- 
2.43.0


From 441fe94b0caa3f38d8b378ce645c2be14f507429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:31 +0000
Subject: [PATCH 08/38] fix: RandomArbitraryPdf could select a bin of zero
 probability

---
 marxs/math/random.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marxs/math/random.py b/marxs/math/random.py
index a26d1aa..8e4ef05 100644
--- a/marxs/math/random.py
+++ b/marxs/math/random.py
@@ -85,7 +85,8 @@ class RandomArbitraryPdf(object):
         # We need a reverse lookup to find the bin in the cdf so that we an use it
         # to map this back to the x values of the pdf
         # np.searchsorted is a binary search with O(log n).
-        index = np.searchsorted(self.cdf, choice)
+        # side='right', because choice = 0 must not select a bin with probability 0
+        index = np.searchsorted(self.cdf, choice, side='right')
         #if necessary, map the indices back to their original ordering
         if self.sort:
             index = self.sortindex[index]
-- 
2.43.0


From c5663fe9484a56fef95ad9c6be4615083fba6a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:17 +0000
Subject: [PATCH 09/38] fix: positions of radial sources used a flat
 approximation of the sphere

---
 marxs/source/basesources.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marxs/source/basesources.py b/marxs/source/basesources.py
index 28be59a..e7088eb 100644
--- a/marxs/source/basesources.py
+++ b/marxs/source/basesources.py
@@ -384,7 +384,9 @@ class RadialDistributionSource(AstroSource):
         n = len(photons)
         phi = np.random.rand(n) * 2. * np.pi * u.rad
         d = self.func(n)
-        relative_coords = SkyCoord(d * np.sin(phi), d * np.cos(phi),
+        # Point at distance d from the origin, which is seen at position angle phi
+        relative_coords = SkyCoord(np.arctan2(np.sin(d) * np.sin(phi), np.cos(d)),
+                                   np.arcsin(np.sin(d) * np.cos(phi)),
                                    frame=relative_frame)
         origin_coord = relative_coords.transform_to(self.coords)
         self.set_pos(photons, origin_coord)
-- 
2.43.0


From f22807ddcfdc29f720f2d1186d2051d928185db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:21 +0000
Subject: [PATCH 10/38] fix: Parallel.move_center keeps the elements in place
 when pos4d is not the identity

The inverse of the change has to be applied in the local coordinate system
of the container, not in the global one.
---
 marxs/simulator/simulator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/marxs/simulator/simulator.py b/marxs/simulator/simulator.py
index 7d034eb..1a98310 100644
--- a/marxs/simulator/simulator.py
+++ b/marxs/simulator/simulator.py
@@ -376,9 +376,11 @@ class Parallel(BaseContainer):
         change4d : np.array of shape (4,4)
             Homogeneous coordinate transformation matrix
         '''
-        self.geometry.pos4d = np.dot(change4d, self.pos4d)
-        inv = np.linalg.inv(change4d)
-        self.elem_pos = [np.dot(inv, p) for p in self.elem_pos]
+        old_pos4d = self.pos4d
+        self.geometry.pos4d = np.dot(change4d, old_pos4d)
+        # transformation from the old to the new local coordinate system
+        old2new = np.dot(np.linalg.inv(self.pos4d), old_pos4d)
+        self.elem_pos = [np.dot(old2new, p) for p in self.elem_pos]
         self.generate_elements()
 
     def generate_elements(self):
-- 
2.43.0


From 42eb7f4f23781ca3c9dac0b7e141f15690003d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:45 +0000
Subject: [PATCH 11/38] fix: elements_of_class descends into matching
 containers and passes stop_at_first on

A container that matched as sub-element was listed, but never searched,
and stop_at_first was only used on the top level.
---
 marxs/simulator/simulator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/marxs/simulator/simulator.py b/marxs/simulator/simulator.py
index 1a98310..f511b9b 100644
--- a/marxs/simulator/simulator.py
+++ b/marxs/simulator/simulator.py
@@ -94,10 +94,11 @@ class BaseContainer(SimulationSequenceElement):
                 return a
 
         for e in self.elements:
-            if compfunc(e, cls):
+            # containers check themselves and then descend, if required
+            if hasattr(e, 'elements_of_class'):
+                a += e.elements_of_class(cls, subclass_ok, stop_at_first)
+            elif compfunc(e, cls):
                 a += [e]
-            elif hasattr(e, 'elements_of_class'):
-                a += e.elements_of_class(cls, subclass_ok)
         return a
 
 
-- 
2.43.0


From 8ddb3f05c3936dc4770a3d3c9c73178da9117f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:32 +0000
Subject: [PATCH 12/38] fix: RowlandTorus.xyzw2parametric for points at theta =
 +-90 deg and tori with r > 2 R

The sign of rho - R is zero for theta = +-pi/2 and selects the wrong branch
on the innermost part of a self-intersecting torus.
---
 marxs/design/rowland.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index 1116e68..9efce05 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -266,9 +266,10 @@ class RowlandTorus(MarxsElement, Geometry):
 
         if not np.allclose(self.quartic(xyz, transform=False) / self.R**4., 0.):
             raise ValueError('Parametric representation is only defined for points on torus surface.')
-        # There are two branches and we can use the sign to distinguish between them
-        s = np.sign(np.sqrt(xyz[:,0]**2 + xyz[:, 2]**2) - self.R)
-        theta = np.arcsin(s * xyz[:, 1] / self.r) + (s < 0) * np.pi
+        # On the torus |xyz|^2 = R^2 + r^2 + 2 R r cos(theta). This also selects
+        # the right branch for tori with r > R that intersect themselves.
+        rcostheta = ((xyz**2).sum(axis=-1) - self.R**2 - self.r**2) / (2 * self.R)
+        theta = np.arctan2(xyz[:, 1], rcostheta)
 
         factor = self.R + self.r * np.cos(theta)
         phi = np.zeros_like(factor)
-- 
2.43.0


From 60ce10206c5655168ed4dcae8f4f16b5df9554e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:32 +0000
Subject: [PATCH 13/38] fix: RowlandTorus.xyzw2parametric with
 intersectvalid=False raised a TypeError

---
 marxs/design/rowland.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index 9efce05..178d470 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -276,7 +276,7 @@ class RowlandTorus(MarxsElement, Geometry):
         ind = factor != 0
         phi[ind] = np.arctan2(xyz[ind, 2] / factor[ind], xyz[ind, 0] / factor[ind])
         if not intersectvalid:
-            phi[~factor] = np.nan
+            phi[~ind] = np.nan
 
         return theta, phi
 
-- 
2.43.0


From d239569419f554c10653dc58dd9536321439295b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:07 +0000
Subject: [PATCH 14/38] fix: add_offset_double_rowland_channels for channels
 other than 1, 1m, 2, 2m

Any other channel reused the torus of whatever channel came before it (or
raised an UnboundLocalError), while the docs promise channels 3, 3m, ...
---
 marxs/design/rowland.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index 178d470..8cd6416 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -531,10 +531,10 @@ def add_offset_double_rowland_channels(geometry,
     for channel in geometry['pos_opt_ax']:
         shift_matrix = np.eye(4)
         shift_matrix[:, 3] = geometry['pos_opt_ax'][channel][:]
-        if channel in ['1', '2']:
-            base_rowland = 'rowland_central'
-        elif channel in ['1m', '2m']:
+        if 'm' in channel:
             base_rowland = 'rowland_central_m'
+        else:
+            base_rowland = 'rowland_central'
         namer = 'rowland_' + channel
         geometry[namer] = RowlandTorus(geometry[base_rowland].R,
                                        geometry[base_rowland].r,
-- 
2.43.0


From b54c1f641f9fc906ca577a4d586970b5a001da03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:14 +0000
Subject: [PATCH 15/38] fix: angle covered by an element in
 GratingArrayStructure.distribute_elements_on_arc

The angle in radian is size / radius; with another factor of 2 pi elements
overlap when an arc is densely filled.
---
 marxs/design/rowland.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index 8cd6416..ec699fe 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -870,7 +870,7 @@ class GratingArrayStructure(ElementsOnTorus):
             return self.phi
         # arc is most crowded on inner radius
         n = self.max_elements_on_arc(radius - self.d_element[0] / 2)
-        element_angle = self.d_element[1] / (2. * np.pi * radius)
+        element_angle = self.d_element[1] / radius
         # thickness of space between elements, distributed equally
         d_between = (anglediff(self.phi) - n * element_angle) / (n + 1)
         centerangles = d_between + 0.5 * element_angle + np.arange(n) * (d_between + element_angle)
-- 
2.43.0


From 9dfd317bd281d2d3f32c5efdd730d50daf061d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:42 +0000
Subject: [PATCH 16/38] fix: RectangularGrid places one element if both limits
 of a range are the same

That is what the docs promise, but np.arange gave an empty list.
---
 marxs/design/rowland.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index ec699fe..a7b7363 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -691,8 +691,8 @@ class RectangularGrid(ElementsOnTorus):
         width_y = n_y * self.d_element[0]
         width_z = n_z * self.d_element[1]
 
-        ypos = np.arange(0.5 * (self.y_range[0] - width_y + self.y_range[1] + self.d_element[0]), self.y_range[1], self.d_element[0])
-        zpos = np.arange(0.5 * (self.z_range[0] - width_z + self.z_range[1] + self.d_element[1]), self.z_range[1], self.d_element[1])
+        ypos = 0.5 * (self.y_range[0] - width_y + self.y_range[1] + self.d_element[0]) + np.arange(n_y) * self.d_element[0]
+        zpos = 0.5 * (self.z_range[0] - width_z + self.z_range[1] + self.d_element[1]) + np.arange(n_z) * self.d_element[1]
 
         ypos, zpos = np.meshgrid(ypos, zpos)
 
-- 
2.43.0


From b95b8998769fb86901d54cde6e7f2d719f48126b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:01 +0000
Subject: [PATCH 17/38] fix: GratingArrayStructure accepts a single number for
 phi

As documented; previously, it had to be a list with one entry.
---
 marxs/design/rowland.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index a7b7363..be845d8 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -866,8 +866,8 @@ class GratingArrayStructure(ElementsOnTorus):
             The phi angles for centers of the elements at ``radius``.
 
         '''
-        if len(self.phi) == 1:
-            return self.phi
+        if np.size(self.phi) == 1:
+            return np.atleast_1d(self.phi)
         # arc is most crowded on inner radius
         n = self.max_elements_on_arc(radius - self.d_element[0] / 2)
         element_angle = self.d_element[1] / radius
-- 
2.43.0


From 068ccfa1233d67c74df790b1d50c5211e9bfced5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:44 +0000
Subject: [PATCH 18/38] fix: CircularMeshGrid placed overlapping elements next
 to the inner radius

The two halves of a row overlap when the gap between them is smaller than
one element, e.g. in the central row for an inner radius of 0.
---
 marxs/design/rowland.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index be845d8..3892b92 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -737,17 +737,20 @@ class CircularMeshGrid(ElementsOnTorus):
                 z = np.array([0])
             else:
                 z_outer = np.sqrt(self.radius[1]**2 - y**2)
-                if np.abs(y) > self.radius[0]:
-                    n_z = int(np.ceil(2 * z_outer / self.d_element[1]))
-                    z_width = n_z * self.d_element[1]
-                    z = np.arange(- z_width / 2, z_outer, self.d_element[1])
-                else:
+                full_row = np.abs(y) > self.radius[0]
+                if not full_row:
                     z_inner = np.sqrt(self.radius[0]**2 - y**2)
                     z_mid = 0.5 * (z_inner + z_outer)
                     n_z = int(np.ceil((z_outer - z_inner) / self.d_element[1]))
                     z_width = n_z * self.d_element[1]
                     z = np.arange(z_mid - z_width / 2, z_outer, self.d_element[1])
                     z = np.hstack([-z, z])
+                    # Elements on both sides would overlap if the gap is too small
+                    full_row = z_mid - z_width / 2 < self.d_element[1] / 2
+                if full_row:
+                    n_z = int(np.ceil(2 * z_outer / self.d_element[1]))
+                    z_width = n_z * self.d_element[1]
+                    z = np.arange(- z_width / 2, z_outer, self.d_element[1])
 
             ypos.extend([y] * len(z))
             zpos.extend(z)
-- 
2.43.0


From fac4a0924c6ec6d97a7f3428379f788a9a61ca9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:47 +0000
Subject: [PATCH 19/38] fix: run_tolerances_for_energies2 respects subclass_ok
 when selecting the elements to be wiggled

---
 marxs/design/tolerancing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/tolerancing.py b/marxs/design/tolerancing.py
index 42050d5..dbbae22 100644
--- a/marxs/design/tolerancing.py
+++ b/marxs/design/tolerancing.py
@@ -442,7 +442,7 @@ def run_tolerances_for_energies2(source, energies, instrum, cls, wigglefunc,
                                       Sequence(elements=instrum.elements[:ind]),
                                       Sequence(elements=instrum.elements[ind:]),
                                       wigglefunc,
-                                      instrum.elements_of_class(cls),
+                                      instrum.elements_of_class(cls, subclass_ok),
                                       parameters,
                                       analyzefunc,
                                       reset,
-- 
2.43.0


From 475c4757e030f6ddc504c6b76d1ff195f37c949c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:47 +0000
Subject: [PATCH 20/38] fix: facet_table renamed the output columns of the
 plane passed in

---
 marxs/analysis/coords.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marxs/analysis/coords.py b/marxs/analysis/coords.py
index df61710..6566e24 100644
--- a/marxs/analysis/coords.py
+++ b/marxs/analysis/coords.py
@@ -1,4 +1,6 @@
 # Licensed under GPL version 3 - see LICENSE.rst
+from copy import copy
+
 import numpy as np
 from astropy.table import Table
 
@@ -72,6 +74,8 @@ def facet_table(container, project_plane=ProjectOntoPlane()):
             >>> from astropy import table
             >>> table.join(photons, facettab, join_type='left')  # doctest: +SKIP
     '''
+    # copy so that the output columns of the plane passed in do not change
+    project_plane = copy(project_plane)
     project_plane.loc_coos_name = ['facet_projx', 'facet_projy']
 
     facetpos = h2e(np.stack(container.elem_pos)[:, :, 3])
-- 
2.43.0


From de4ab594a0879e99214c19dccd9a355096c91220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:47 +0000
Subject: [PATCH 21/38] fix: identify_photon_in_subaperture accepted angles
 beyond max_ang (relative tolerance of isclose)

---
 marxs/analysis/gratings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/analysis/gratings.py b/marxs/analysis/gratings.py
index c895d80..3af9f68 100644
--- a/marxs/analysis/gratings.py
+++ b/marxs/analysis/gratings.py
@@ -381,8 +381,8 @@ def identify_photon_in_subaperture(angle, max_ang, ang_0=np.pi / 2):
         to the ``angle=0`` line, which is the most common sub-aperturing layout with
         subaperturing perpendicular to the dispersion direction as ``angle=0``.
     '''
-    indplus = np.isclose(np.mod(angle, 2 * np.pi), ang_0, atol=max_ang)
-    indminus = np.isclose(np.mod(angle, 2 * np.pi), 2 * np.pi - ang_0, atol=max_ang)
+    indplus = np.isclose(np.mod(angle, 2 * np.pi), ang_0, rtol=0, atol=max_ang)
+    indminus = np.isclose(np.mod(angle, 2 * np.pi), 2 * np.pi - ang_0, rtol=0, atol=max_ang)
     return indplus | indminus
 
 
-- 
2.43.0


From 991cb39d6664444796d00c4b5f3bd8f0c52df66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:47 +0000
Subject: [PATCH 22/38] fix: resolvingpower_from_photonlist gave no result for
 exactly 20 photons in an order

---
 marxs/analysis/gratings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/analysis/gratings.py b/marxs/analysis/gratings.py
index 3af9f68..639dbac 100644
--- a/marxs/analysis/gratings.py
+++ b/marxs/analysis/gratings.py
@@ -259,7 +259,7 @@ def resolvingpower_from_photonlist(photons, orders,
 
     for i, o in enumerate(orders):
         ind = (photons[ordercol] == o)
-        if ind.sum() > 20:
+        if ind.sum() >= 20:
             # There is a .value here to work around https://github.com/astropy/astropy/issues/13281
             meanpos, medianpos, stdpos = sigma_clipped_stats(photons[col][ind].value)
         else:
-- 
2.43.0


From b65b2312558f0c88d831ec0bdbf0c20d0edf0993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:47 +0000
Subject: [PATCH 23/38] fix: ColOrKeyTable: a new column replaces a keyword of
 the same name

---
 marxs/reduction/ogip.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 182bc09..e55794b 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -78,6 +78,9 @@ class ColOrKeyTable(QTable):
                 self.remove_column(item)
         else:
             super().__setitem__(item, value)
+            if isinstance(item, str):
+                # The keyword, if there was one, is now out of date
+                self.meta.pop(item, None)
 
 
 def _check_mandatory_keywords(tab, extra_keywords=[]):
-- 
2.43.0


From 96d8ee914e2e4f1765448e60ae0f050604b1ee16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:47 +0000
Subject: [PATCH 24/38] fix: RMF: DETCHANS is the number of channels, not the
 number of rows of the matrix

---
 marxs/reduction/ogip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index e55794b..ec689c4 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -231,7 +231,7 @@ class RMF:
         self.matrix = matrix
         self.ebounds = ebounds
         for m in [self.matrix, self.ebounds]:
-            m.meta['DETCHANS'] = len(m)
+            m.meta['DETCHANS'] = len(self.ebounds)
             if CHANTYPE is not None:
                 m.meta['CHANTYPE'] = CHANTYPE
             if HDUCLAS3 is not None:
-- 
2.43.0


From 3dfe063d7db79312042a1a4dbc84b5f89995de62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:47 +0000
Subject: [PATCH 25/38] fix: RMF.row finds the row for a wavelength

---
 marxs/reduction/ogip.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index ec689c4..2884387 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -319,9 +319,10 @@ class RMF:
         hdulist.writeto(rmffile, overwrite=overwrite, checksum=True)
 
     def row(self, energy):
-        with u.set_enabled_equivalencies(u.spectral()):
-            rowind = (energy >= self.matrix['ENERG_LO']) & \
-                (energy < self.matrix['ENERG_HI'])
+        # Convert first: A comparison in wavelength would have the opposite sign.
+        energy = energy.to(u.keV, equivalencies=u.spectral())
+        rowind = (energy >= self.matrix['ENERG_LO']) & \
+            (energy < self.matrix['ENERG_HI'])
         rows = rowind.nonzero()[0][0]
         return self.matrix[rows]
 
-- 
2.43.0


From 279f661f8afe8f89a8f1991073bb07d9de504963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:26 +0000
Subject: [PATCH 26/38] fix: RMF.rmf and full_rmf: use TLMIN, numbers in place
 of lists and padded rows

---
 marxs/reduction/ogip.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 2884387..871f8c2 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -347,11 +347,13 @@ class RMF:
         rmf = np.zeros(len(self.en_mid))
         row = self.row(energy)
         tlmin = self.matrix.meta['TLMIN{}'.format(self.matrix.colnames.index('F_CHAN') + 1)]
+        # With at most one group per row, these can be numbers
+        fchan = np.atleast_1d(row['F_CHAN'])
+        nchan = np.atleast_1d(row['N_CHAN'])
         for i in range(row['N_GRP']):
             # Python is 0 indexed, FITS is 1 indexed
-            chans = slice(row['F_CHAN'][i] - tlmin,
-                          row['F_CHAN'][i] + row['N_CHAN'][i] - tlmin)
-            matindex = np.cumsum(np.concatenate(([0], row['N_CHAN'])))
+            chans = slice(fchan[i] - tlmin, fchan[i] + nchan[i] - tlmin)
+            matindex = np.cumsum(np.concatenate(([0], nchan)))
             mat = slice(matindex[i], matindex[i + 1])
             rmf[chans] = row['MATRIX'][mat]
         return self.ebounds['E_MIN'], self.ebounds['E_MAX'], rmf
@@ -371,11 +373,17 @@ class RMF:
             rmf value in each bin
         '''
         row = self.row(energy)
-        ind = np.concatenate([np.arange(row['F_CHAN'][i] - 1,
-                                        row['F_CHAN'][i] + row['N_CHAN'][i]-1)
+        tlmin = self.matrix.meta['TLMIN{}'.format(self.matrix.colnames.index('F_CHAN') + 1)]
+        # With at most one group per row, these can be numbers
+        fchan = np.atleast_1d(row['F_CHAN'])
+        nchan = np.atleast_1d(row['N_CHAN'])
+        ind = np.concatenate([np.arange(0)] +
+                             [np.arange(fchan[i] - tlmin,
+                                        fchan[i] + nchan[i] - tlmin)
                               for i in range(row['N_GRP'])])
+        # A matrix with fixed row length is padded with zeros
         return self.ebounds['E_MIN'][ind], self.ebounds['E_MAX'][ind], \
-            np.asanyarray(row['MATRIX'])
+            np.asanyarray(row['MATRIX'])[:len(ind)]
 
     def rmf_angstrom(self, energy):
         en_lo, en_hi, rmf = self.rmf(energy)
-- 
2.43.0


From 5fc564e93b594df977af0c1c9b266304f290a0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:26 +0000
Subject: [PATCH 27/38] fix: RMF with a single row in fixed length format

---
 marxs/reduction/ogip.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 871f8c2..4d5f842 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -471,10 +471,13 @@ class RMF:
             fchan[i, :len(r['F_CHAN'])] = r['F_CHAN']
             nchan[i, :len(r['N_CHAN'])] = r['N_CHAN']
             matrix[i, :len(r['MATRIX'])] = r['MATRIX']
-        # if max(N_GRP) == 1 then we can squueze out the first dimension
+        # if max(N_GRP) == 1 then we can squueze out the second dimension
         # and write a number per row instead of an array.
-        m['F_CHAN'] = fchan.squeeze()
-        m['N_CHAN'] = nchan.squeeze()
+        if fchan.shape[1] == 1:
+            fchan = fchan[:, 0]
+            nchan = nchan[:, 0]
+        m['F_CHAN'] = fchan
+        m['N_CHAN'] = nchan
         m['MATRIX'] = matrix
 
     @staticmethod
-- 
2.43.0


From bb1f63f3edd5385f38f288c92de796779c5b3a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:43 +0000
Subject: [PATCH 28/38] fix: RMF.from_Gauss_sigma: tables in energy or in units
 other than Angstrom

---
 marxs/reduction/ogip.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 4d5f842..ba19043 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -512,8 +512,10 @@ class RMF:
         # That way, the rest of this class can be used even when Sherpa is not installed.
         from marxs.reduction.lsfparm import make_rmf
         if 'energy' in sigmatab.colnames and 'wave' not in sigmatab.colnames:
-            sigmatab['wave'] = sigmatab['energy'].to(u.Angstrom, equivalenicies=u.spectral())
-            sigmatab['sigma_wave'] = sigmatab['wave'] * sigmatab['sigma_energy'] / sigmatab['energy']
+            sigmatab['wave'] = sigmatab['energy'].to(u.Angstrom, equivalencies=u.spectral())
+            # In a Table (not a QTable) products of columns would loose the unit.
+            sigmatab['sigma_wave'] = u.Quantity(sigmatab['wave']) * \
+                (u.Quantity(sigmatab['sigma_energy']) / u.Quantity(sigmatab['energy'])).to(u.dimensionless_unscaled)
         sigmatab.sort('wave')
 
         lsfparm = Table({'NUM_WIDTHS': [1],
@@ -521,7 +523,7 @@ class RMF:
                          'WIDTHS': [[1.]],
                          'NUM_LAMBDAS': [len(sigmatab)],
                          'EE_FRACS': [np.ones((1, len(sigmatab)))],
-                         'LAMBDAS': [sigmatab['wave']],
+                         'LAMBDAS': [sigmatab['wave'].to(u.Angstrom).value],
                          'GAUSS1_PARMS': [np.stack([np.ones(len(sigmatab)),
                                            sigmatab['sigma_wave'].to(u.Angstrom).value,
                                            sigmatab['wave'].to(u.Angstrom).value
-- 
2.43.0


From d5fb58012918da64d393a1355762da60583d0381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:43 +0000
Subject: [PATCH 29/38] fix: OSIPBase.osip_tab calculated from osip_range:
 width is measured from the nominal energy

---
 marxs/reduction/osip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/reduction/osip.py b/marxs/reduction/osip.py
index 360a759..28e20da 100644
--- a/marxs/reduction/osip.py
+++ b/marxs/reduction/osip.py
@@ -81,7 +81,7 @@ class OSIPBase(ABC):
         osiprange = self.osip_range(chan_mid, order)
         osiprange = osiprange.to(u.eV, equivalencies=u.spectral())
         E = chan_mid.to(u.eV, equivalencies=u.spectral())
-        return E + osiprange * np.array([-1, 1])[:, np.newaxis]
+        return (osiprange - E) * np.array([-1, 1])[:, np.newaxis]
 
     @u.quantity_input(chan_mid=u.keV, equivalencies=u.spectral())
     def osip_range(self, chan_mid, order) -> u.eV:
-- 
2.43.0


From a2817b1887237d90639492acfcafb81f35918ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:43 +0000
Subject: [PATCH 30/38] fix: LissajousDither.pointing with dither in roll

---
 marxs/missions/chandra/dither.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/chandra/dither.py b/marxs/missions/chandra/dither.py
index 589a272..76db55f 100644
--- a/marxs/missions/chandra/dither.py
+++ b/marxs/missions/chandra/dither.py
@@ -84,9 +84,9 @@ class LissajousDither(FixedPointing):
         pointing_dir = np.zeros_like(dither.value)
 
         # common case for Chandra
-        if np.allclose(roll.to(u.rad).value, roll[0].to(u.rad).value):
+        constant_roll = np.allclose(roll.to(u.rad).value, roll[0].to(u.rad).value)
+        if constant_roll:
             mat = axangle2mat(e_nominal, -roll[0].to(u.rad).value, is_normalized=True)
-            constant_roll = True
 
         for i in range(len(time)):
             if not constant_roll:
-- 
2.43.0


From 00a0aa090ca0939ca1f6d00e840e7bfd4f7cbfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:43 +0000
Subject: [PATCH 31/38] fix: combine_disjoint_triangulations for more than two
 triangulations

---
 marxs/visualization/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/marxs/visualization/utils.py b/marxs/visualization/utils.py
index c905bd8..bfd3136 100644
--- a/marxs/visualization/utils.py
+++ b/marxs/visualization/utils.py
@@ -290,8 +290,7 @@ def combine_disjoint_triangulations(list_xyz, list_triangles):
 
     '''
     xyz = np.vstack(list_xyz)
-    n_offset = np.cumsum([a.shape[0] for a in list_xyz])
-    n_offset -= n_offset[0]
+    n_offset = np.cumsum([0] + [a.shape[0] for a in list_xyz[:-1]])
     triangles = np.vstack([list_triangles[i] + n_offset[i] for i in
                            range(len(n_offset))])
     return xyz, triangles
-- 
2.43.0


From 38f63a855da952f9752f8bd446876fac3c8ba896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:03 +0000
Subject: [PATCH 32/38] fix: LissajousDither.write_asol: pointing is an array
 in radian

---
 marxs/missions/chandra/dither.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/dither.py b/marxs/missions/chandra/dither.py
index 76db55f..406b66a 100644
--- a/marxs/missions/chandra/dither.py
+++ b/marxs/missions/chandra/dither.py
@@ -151,7 +151,7 @@ class LissajousDither(FixedPointing):
 
         '''
         time = np.arange(0, photons.meta['EXPOSURE'][0], timestep)
-        pointing = self.pointing(time).to(u.deg).value
+        pointing = np.rad2deg(self.pointing(time))
         asol = Table([time, pointing[:, 0], pointing[:, 1], pointing[:, 2]],
                      names=['time', 'ra', 'dec', 'roll'],
                      )
-- 
2.43.0


From 3ec61a334ea77d958b83605b1dea2d07c7402150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:20 +0000
Subject: [PATCH 33/38] fix: ACIS: DetOffsetX and DetOffsetY could not be given

---
 marxs/missions/chandra/det_acis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/chandra/det_acis.py b/marxs/missions/chandra/det_acis.py
index 19d940b..ee443ba 100644
--- a/marxs/missions/chandra/det_acis.py
+++ b/marxs/missions/chandra/det_acis.py
@@ -83,9 +83,9 @@ class ACIS(Parallel):
         # This stuff is Chandra specific, but applies to HRC, too.
         # Move to a more general class, once the HRC gets implemented.
         self.aimpoint = kwargs.pop('aimpoint')
-        self.detoffset = np.array([kwargs.pop(['DetOffsetX'], 0),
+        self.detoffset = np.array([kwargs.pop('DetOffsetX', 0),
                                     0,
-                                    kwargs.pop(['DetOffsetY'], 0)])
+                                    kwargs.pop('DetOffsetY', 0)])
         # Now the ACIS specific case
         kwargs['elem_pos'] = self.calculate_elempos()
         kwargs['elem_class'] = ACISChip
-- 
2.43.0


From a68b92f5b2577e04a4d58a5152a1a1da71a097c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:20 +0000
Subject: [PATCH 34/38] fix: add_evt_column_header failed for every header

---
 marxs/missions/chandra/fitsheaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/fitsheaders.py b/marxs/missions/chandra/fitsheaders.py
index f4d23b5..a5e31ac 100644
--- a/marxs/missions/chandra/fitsheaders.py
+++ b/marxs/missions/chandra/fitsheaders.py
@@ -87,7 +87,7 @@ DMKEYWORDS = [('MTYPE1', 'chip'), ('MFORM1', 'chipx,chipy'),
 def add_evt_column_header(header, data):
     '''Add CIAO keywords to header of an eventfile.'''
     # Clean out column related keywords that may not be valid any longer.
-    for k in header.iterkeys():
+    for k in list(header.keys()):
         if k[:5] in ['TCTYP', 'TCRVL', 'TCDLT', 'TCRPX', 'TLMIN', 'TLMAX']:
             del header[k]
     instr = header['INSTRUME'][0]
-- 
2.43.0


From 1586d76c189b8e91a8092e96875800eb14539be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:20 +0000
Subject: [PATCH 35/38] fix: add_evt_column_header: name of the projection is
 DEC--TAN

---
 marxs/missions/chandra/fitsheaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/fitsheaders.py b/marxs/missions/chandra/fitsheaders.py
index a5e31ac..1fc3224 100644
--- a/marxs/missions/chandra/fitsheaders.py
+++ b/marxs/missions/chandra/fitsheaders.py
@@ -112,7 +112,7 @@ def add_evt_column_header(header, data):
     header['TCDLT{0}'.format(indx)] = -PIXSIZE[instr]  # - because RA increases to left
     header['TCRPX{0}'.format(indx)] = odet[0]
     indy = colnamesup.index('Y') + 1
-    header['TCTYP{0}'.format(indy)] = 'DEC---TAN'
+    header['TCTYP{0}'.format(indy)] = 'DEC--TAN'
     header['TCRVL{0}'.format(indy)] = header['DEC_PNT']
     header['TCDLT{0}'.format(indy)] = PIXSIZE[instr]
     header['TCRPX{0}'.format(indy)] = odet[1]
-- 
2.43.0


From 4d58125c87f154f6a43dc41464e8b3c59eb41771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:20 +0000
Subject: [PATCH 36/38] fix: sort_columns failed for every table

---
 marxs/missions/chandra/fitsheaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/fitsheaders.py b/marxs/missions/chandra/fitsheaders.py
index 1fc3224..d467180 100644
--- a/marxs/missions/chandra/fitsheaders.py
+++ b/marxs/missions/chandra/fitsheaders.py
@@ -208,4 +208,4 @@ def sort_columns(photons):
     othercol = list(othercol)
     othercol.sort()
     ordered_cols.extend(othercol)
-    return photons(ordered_cols)
+    return photons[ordered_cols]
-- 
2.43.0


From 0453d598b39f51562defb4ed7304cbe4c9ee0cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:20 +0000
Subject: [PATCH 37/38] fix: complete_O did not set any keyword

---
 marxs/missions/chandra/fitsheaders.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marxs/missions/chandra/fitsheaders.py b/marxs/missions/chandra/fitsheaders.py
index d467180..9cd85e1 100644
--- a/marxs/missions/chandra/fitsheaders.py
+++ b/marxs/missions/chandra/fitsheaders.py
@@ -75,6 +75,7 @@ def complete_O(header):
          ('OBSERVER', ('MARXS', 'This is a simulation.')),
          ('FOC_LEN', (NOMINAL_FOCALLENGTH, 'Assumed focal length')),
          ]
+    update_header(header, h)
 
 
 DMKEYWORDS = [('MTYPE1', 'chip'), ('MFORM1', 'chipx,chipy'),
-- 
2.43.0


From 07fbf70bb0be63eb724700d684ad427cf6acaec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:20 +0000
Subject: [PATCH 38/38] fix: Chandra and ACIS keywords were never set, because
 containers are called

---
 marxs/missions/chandra/chandra_global.py | 4 ++--
 marxs/missions/chandra/det_acis.py       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/marxs/missions/chandra/chandra_global.py b/marxs/missions/chandra/chandra_global.py
index d25514a..aa76937 100644
--- a/marxs/missions/chandra/chandra_global.py
+++ b/marxs/missions/chandra/chandra_global.py
@@ -11,10 +11,10 @@ class Chandra(Sequence):
 
 
     '''
-    def process_photons(self, photons):
+    def __call__(self, photons):
         photons.meta['MISSION'] = ('AXAF', 'Mission')
         photons.meta['TELESCOP'] = ('CHANDRA', 'Telescope')
-        return super().process_photons(photons)
+        return super().__call__(photons)
 
     def write_evt(self, photons, filename):
         '''Write a Chandra event level 1 file.
diff --git a/marxs/missions/chandra/det_acis.py b/marxs/missions/chandra/det_acis.py
index ee443ba..68f8707 100644
--- a/marxs/missions/chandra/det_acis.py
+++ b/marxs/missions/chandra/det_acis.py
@@ -149,8 +149,8 @@ class ACIS(Parallel):
             pos4d.append(A)
         return pos4d
 
-    def process_photons(self, photons, *args, **kwargs):
-        photons = super().process_photons(photons, *args, **kwargs)
+    def __call__(self, photons, *args, **kwargs):
+        photons = super().__call__(photons, *args, **kwargs)
         photons.meta['SIM_X'] = self.aimpoint[0] - self.detoffset[0]
         photons.meta['SIM_Y'] = self.aimpoint[1] - self.detoffset[1]
         photons.meta['SIM_Z'] = self.aimpoint[2] - self.detoffset[2]
-- 
2.43.0

