From c8e50041deb9499345a566cc556b0e012422ced7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:18 +0000
Subject: [PATCH 001/104] fix: CCDRedistNormal redistributes only photons that
 hit the element

---
 marxs/optics/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/optics/detector.py b/marxs/optics/detector.py
index 755c282..6cd012a 100644
--- a/marxs/optics/detector.py
+++ b/marxs/optics/detector.py
@@ -194,7 +194,7 @@ class CCDRedistNormal(FlatOpticalElement):
 
     def specific_process_photons(self, photons, intersect, interpos, intercoos):
         # Implicit unit of photon energy is keV, but here we need it written out.
-        phot_en = u.Quantity(photons["energy"])
+        phot_en = u.Quantity(photons["energy"][intersect])
         det_en = norm.rvs(
             loc=phot_en,
             scale=self.sig_ccd(phot_en).to(u.keV, equivalencies=u.spectral()),
-- 
2.43.0


From d0871b9cc696f750ff58490d550f8c0739b08624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:18 +0000
Subject: [PATCH 002/104] fix: CCDRedistNormal does not modify the tab_width
 table of the caller

---
 marxs/optics/detector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/optics/detector.py b/marxs/optics/detector.py
index 6cd012a..9973c29 100644
--- a/marxs/optics/detector.py
+++ b/marxs/optics/detector.py
@@ -161,6 +161,8 @@ class CCDRedistNormal(FlatOpticalElement):
     def __init__(self, **kwargs):
         self.tab_width = kwargs.pop("tab_width")
         if 'sigma' not in self.tab_width.colnames:
+            # Work on a copy to leave the table passed in by the caller unchanged
+            self.tab_width = self.tab_width.copy()
             self.tab_width['sigma'] = self.tab_width['FWHM'] / self.fwhm2sig
         super().__init__(**kwargs)
 
-- 
2.43.0


From bb1d4207d7cf74b3419ffbaf7b9d9cef7dc5af96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:35 +0000
Subject: [PATCH 003/104] fix: L2Abs gave NaN probabilities for rounding errors
 at normal incidence

---
 marxs/missions/mitsnl/catgrating.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marxs/missions/mitsnl/catgrating.py b/marxs/missions/mitsnl/catgrating.py
index 414e64c..10c3fb5 100644
--- a/marxs/missions/mitsnl/catgrating.py
+++ b/marxs/missions/mitsnl/catgrating.py
@@ -242,7 +242,8 @@ class L2Abs(FlatOpticalElement):
 
         p3 = norm_vector(photons['dir'].data[intersect])
         ex, ey, en = self.geometry.get_local_euklid_bases(intercoos[intersect, :])
-        angle = np.arccos(np.abs(np.einsum("ij,ij->i", p3, en)))
+        # clip, because rounding errors can lead to products slightly larger than 1
+        angle = np.arccos(np.clip(np.abs(np.einsum("ij,ij->i", p3, en)), 0, 1))
 
         # fractional area NOT covered by the hexagon structure
         openfraction = (self.innerfree / self.period)**2
-- 
2.43.0


From b5985436ec9616d3d9555ddf52e1bc58a7572c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:35 +0000
Subject: [PATCH 004/104] fix: RadialMirrorScatter gave NaN directions for rays
 through the center

---
 marxs/optics/scatter.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/marxs/optics/scatter.py b/marxs/optics/scatter.py
index 573cf46..0421612 100644
--- a/marxs/optics/scatter.py
+++ b/marxs/optics/scatter.py
@@ -50,7 +50,15 @@ class RadialMirrorScatter(FlatOpticalElement):
         n = intersect.sum()
         center = self.pos4d[:-1, -1]
         radial = h2e(photons['pos'][intersect].data) - center
-        perpplane = np.cross(h2e(photons['dir'][intersect].data), radial)
+        pdir = h2e(photons['dir'][intersect].data)
+        perpplane = np.cross(pdir, radial)
+        # The plane of reflection is not defined for rays through the center.
+        # In this case, any plane that contains the ray will do.
+        ind = np.linalg.norm(perpplane, axis=1) == 0
+        if ind.any():
+            guessvec = np.eye(3)[np.argmin(np.abs(pdir[ind]), axis=1)]
+            perpplane[ind] = np.cross(pdir[ind], guessvec)
+            radial[ind] = np.cross(perpplane[ind], pdir[ind])
 
         # np.random.normal does not work with scale=0
         # so special case that here.
-- 
2.43.0


From 20a9848f99ea2388f7e118625e4197056c56afe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:54 +0000
Subject: [PATCH 005/104] fix: PerfectLens gave NaN probabilities for
 undeflected rays

---
 marxs/optics/mirror.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/marxs/optics/mirror.py b/marxs/optics/mirror.py
index 0426047..4cbe6c3 100644
--- a/marxs/optics/mirror.py
+++ b/marxs/optics/mirror.py
@@ -65,11 +65,16 @@ class PerfectLens(FlatOpticalElement):
             dir,
             photons["polarization"].data[intersect, :],
         )
+        # clip, because rounding errors can lead to products slightly larger than 1
         angle = np.arccos(
-            np.abs(
-                np.einsum(
-                    "ij,ij->i", h2e(dir), norm_vector(h2e(photons["dir"][intersect]))
-                )
+            np.clip(
+                np.abs(
+                    np.einsum(
+                        "ij,ij->i", h2e(dir), norm_vector(h2e(photons["dir"][intersect]))
+                    )
+                ),
+                0,
+                1,
             )
         )
         return {
-- 
2.43.0


From a71b5cadaeabb8dca17dd9abd014d19a7ca8eefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:36 +0000
Subject: [PATCH 006/104] fix: normal vectors of elliptical cylinders are
 perpendicular to the surface

---
 marxs/math/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marxs/math/geometry.py b/marxs/math/geometry.py
index 3780123..fcfdc9c 100644
--- a/marxs/math/geometry.py
+++ b/marxs/math/geometry.py
@@ -616,6 +616,8 @@ class Cylinder(Geometry):
         e_n = np.array([np.cos(phi), np.sin(phi), zeros, zeros]).T
 
         e_phi = np.einsum('...ij,...j', self.pos4d, e_phi)
-        e_n = np.einsum('...ij,...j', self.pos4d, e_n)
+        # Normal vectors transform with the inverse transpose (this matters for
+        # elliptical cylinders, where the zoom differs between x and y)
+        e_n[:, :3] = e_n[:, :3] @ np.linalg.inv(self.pos4d[:3, :3])
         # e_z is already in the local coordinate system
         return norm_vector(e_phi), e_z, norm_vector(e_n)
-- 
2.43.0


From 4538c20dc702b1f4f6652dd930cf1dccebd53b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:38 +0000
Subject: [PATCH 007/104] fix: Parallel.move_center keeps the elements in place
 if pos4d is rotated

---
 marxs/simulator/simulator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marxs/simulator/simulator.py b/marxs/simulator/simulator.py
index 7d034eb..612161e 100644
--- a/marxs/simulator/simulator.py
+++ b/marxs/simulator/simulator.py
@@ -376,8 +376,9 @@ class Parallel(BaseContainer):
         change4d : np.array of shape (4,4)
             Homogeneous coordinate transformation matrix
         '''
-        self.geometry.pos4d = np.dot(change4d, self.pos4d)
-        inv = np.linalg.inv(change4d)
+        old_pos4d = self.pos4d
+        self.geometry.pos4d = np.dot(change4d, old_pos4d)
+        inv = np.dot(np.linalg.inv(self.pos4d), old_pos4d)
         self.elem_pos = [np.dot(inv, p) for p in self.elem_pos]
         self.generate_elements()
 
-- 
2.43.0


From 8d88cb853a13b6cb4dd2efae67f0d33fd6e0dbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:38 +0000
Subject: [PATCH 008/104] fix: Parallel: uncertainty matrices are not shared
 between elements or objects

---
 marxs/simulator/simulator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marxs/simulator/simulator.py b/marxs/simulator/simulator.py
index 612161e..eee35cc 100644
--- a/marxs/simulator/simulator.py
+++ b/marxs/simulator/simulator.py
@@ -355,7 +355,9 @@ class Parallel(BaseContainer):
 
         if 'id_col' not in self.elem_args:
             self.elem_args['id_col'] = self.id_col
-        self.elem_uncertainty = [np.eye(4)] * len(self.elem_pos)
+        # Make copies, so that in-place edits only affect one matrix
+        self.uncertainty = np.array(self.uncertainty)
+        self.elem_uncertainty = [np.eye(4) for p in self.elem_pos]
         self.generate_elements()
 
     def move_center(self, change4d):
-- 
2.43.0


From 702934e1f21edae9f156f8fbbc3f059ff7181f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:38 +0000
Subject: [PATCH 009/104] fix: elements_of_class continues the search below
 matching elements unless stop_at_first

---
 marxs/simulator/simulator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marxs/simulator/simulator.py b/marxs/simulator/simulator.py
index eee35cc..239aec9 100644
--- a/marxs/simulator/simulator.py
+++ b/marxs/simulator/simulator.py
@@ -94,10 +94,10 @@ class BaseContainer(SimulationSequenceElement):
                 return a
 
         for e in self.elements:
-            if compfunc(e, cls):
+            if hasattr(e, 'elements_of_class'):
+                a += e.elements_of_class(cls, subclass_ok, stop_at_first)
+            elif compfunc(e, cls):
                 a += [e]
-            elif hasattr(e, 'elements_of_class'):
-                a += e.elements_of_class(cls, subclass_ok)
         return a
 
 
-- 
2.43.0


From 6d0ef255d71d41afd8c5fbfe2d271a71e2fdd7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:31 +0000
Subject: [PATCH 010/104] fix: PlaneWithHole does not write r_inner into the
 dictionary shared by all geometries

---
 marxs/math/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marxs/math/geometry.py b/marxs/math/geometry.py
index fcfdc9c..668c79e 100644
--- a/marxs/math/geometry.py
+++ b/marxs/math/geometry.py
@@ -288,8 +288,9 @@ class PlaneWithHole(FinitePlane):
     inner_factor = 0
 
     def __init__(self, kwargs):
-        self._geometry['r_inner'] = kwargs.pop('r_inner', 0.)
+        r_inner = kwargs.pop('r_inner', 0.)
         super().__init__(kwargs)
+        self._geometry['r_inner'] = r_inner
 
     def triangulate(self, display={}):
         '''Return a triangulation of the aperture hole embedded in a square.
-- 
2.43.0


From 21e6bb78efdfc1954649116f61fc9b304c030b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:11 +0000
Subject: [PATCH 011/104] fix: add_output_cols does not consume the column
 dictionaries passed in

---
 marxs/base/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marxs/base/base.py b/marxs/base/base.py
index f916b0b..c017e6d 100644
--- a/marxs/base/base.py
+++ b/marxs/base/base.py
@@ -269,9 +269,9 @@ class SimulationSequenceElement(MarxsElement):
             be used to set the column names, see description above.
         '''
         for n in self.output_columns + colnames:
-            if (n is not None) and (n not in photons.colnames):
-                if not isinstance(n, dict):
-                    n = {'name': n, 'value': np.nan}
+            # make a new dict, to leave the input unchanged
+            n = dict(n) if isinstance(n, dict) else {'name': n, 'value': np.nan}
+            if (n['name'] is not None) and (n['name'] not in photons.colnames):
                 val = n.pop('value', None)
                 newcol = Column(length=len(photons), **n)
                 if val is not None:
-- 
2.43.0


From 04b5f5a7abc82fedbdc0b5a91b27ce27e67129f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:20 +0000
Subject: [PATCH 012/104] fix: OrderSelector accepts probabilities that sum to
 1 within rounding errors

---
 marxs/optics/grating.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/marxs/optics/grating.py b/marxs/optics/grating.py
index 4b66c0d..3d41ffa 100644
--- a/marxs/optics/grating.py
+++ b/marxs/optics/grating.py
@@ -42,17 +42,19 @@ class OrderSelector(object):
             p = np.asanyarray(p)
             if len(p) != len(orderlist):
                 raise ValueError('Number of elements in orderlist and probabilities does not match.')
-            if p.sum() > 1.:
+            # allow for rounding errors in the sum
+            if p.sum() > 1. + 1e-10:
                 raise ValueError('Sum of all probabilities must be <= 1.')
             if np.any(p < 0):
                 raise ValueError('Probabilities cannot be negative')
             self.p = p
 
     def __call__(self, energy, *args):
-        p_sum = self.p.sum()
-        p = self.p / p_sum
+        p = self.p / self.p.sum()
+        # Rounding errors could push the sum above 1
+        p_sum = min(self.p.sum(), 1.)
         if np.isscalar(energy):
-            return np.random.choice(self.orderlist, p=p), self.p.sum()
+            return np.random.choice(self.orderlist, p=p), p_sum
         else:
             return np.random.choice(self.orderlist, size=len(energy), p=p), p_sum * np.ones_like(energy)
 
-- 
2.43.0


From acca46e5fe2b40a4eb71ad8982b4e680f2a6f725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:20 +0000
Subject: [PATCH 013/104] fix: EfficiencyFile failed for energies where all
 orders have zero probability

---
 marxs/optics/grating.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/marxs/optics/grating.py b/marxs/optics/grating.py
index 3d41ffa..7c50b2b 100644
--- a/marxs/optics/grating.py
+++ b/marxs/optics/grating.py
@@ -87,7 +87,12 @@ class EfficiencyFile(object):
         # Probability to end up in any order
         self.totalprob = np.sum(self.prob, axis=1)
         # Cumulative probability for orders, normalized to 1.
-        self.cumprob = np.cumsum(self.prob, axis=1) / self.totalprob[:, None]
+        # Dividing by the last element of the sum makes sure that the last number is
+        # exactly 1; energies where no photon passes are set to 1 for all orders.
+        self.cumprob = np.cumsum(self.prob, axis=1)
+        self.cumprob = np.divide(self.cumprob, self.cumprob[:, -1:],
+                                 out=np.ones_like(self.cumprob),
+                                 where=self.cumprob[:, -1:] > 0)
 
     def __call__(self, energies, *args):
         orderind = np.empty(len(energies), dtype=int)
-- 
2.43.0


From aff346767f68d0301d3a3173523e84b67be362b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:20 +0000
Subject: [PATCH 014/104] fix: InterpolateEfficiencyTable could select an order
 with zero probability due to rounding errors

---
 marxs/missions/mitsnl/catgrating.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marxs/missions/mitsnl/catgrating.py b/marxs/missions/mitsnl/catgrating.py
index 10c3fb5..4a6032a 100644
--- a/marxs/missions/mitsnl/catgrating.py
+++ b/marxs/missions/mitsnl/catgrating.py
@@ -138,7 +138,9 @@ class InterpolateEfficiencyTable(object):
         orders, interpprobs = self.probabilities(energies, pol, blaze)
         totalprob = np.sum(interpprobs, axis=0)
         # Cumulative probability for orders, normalized to 1.
-        cumprob = np.cumsum(interpprobs, axis=0) / totalprob
+        # Dividing by the last element of the sum makes sure that the last number is exactly 1.
+        cumprob = np.cumsum(interpprobs, axis=0)
+        cumprob = cumprob / cumprob[-1]
         ind_orders = np.argmax(cumprob > np.random.rand(len(energies)), axis=0)
 
         return orders[ind_orders], totalprob
-- 
2.43.0


From 5e57cf2f9c0e1966390f86815e60f665fa4d7d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:25 +0000
Subject: [PATCH 015/104] fix: RandomArbitraryPdf never selects bins with zero
 probability

---
 marxs/math/random.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marxs/math/random.py b/marxs/math/random.py
index a26d1aa..3f56aab 100644
--- a/marxs/math/random.py
+++ b/marxs/math/random.py
@@ -85,7 +85,11 @@ class RandomArbitraryPdf(object):
         # We need a reverse lookup to find the bin in the cdf so that we an use it
         # to map this back to the x values of the pdf
         # np.searchsorted is a binary search with O(log n).
-        index = np.searchsorted(self.cdf, choice)
+        # side='right' ensures that bins with probability 0 (and the first bin, where
+        # the lower edge is undefined) are never selected, even if choice is exactly 0.
+        index = np.searchsorted(self.cdf, choice, side='right')
+        # If rounding errors lead to choice == cdf[-1] use last bin with pdf > 0.
+        index = np.minimum(index, np.searchsorted(self.cdf, self.cdf[-1]))
         #if necessary, map the indices back to their original ordering
         if self.sort:
             index = self.sortindex[index]
-- 
2.43.0


From 6a9458929deb64bf904f52b5afb467a359d159a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:25 +0000
Subject: [PATCH 016/104] fix: poisson_process does not loop forever if a
 refill rounds to 0 photons

---
 marxs/source/basesources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/source/basesources.py b/marxs/source/basesources.py
index df749a8..981d657 100644
--- a/marxs/source/basesources.py
+++ b/marxs/source/basesources.py
@@ -72,7 +72,7 @@ def poisson_process(rate: (u.s * u.cm**2)**(-1)):
         # If we don't have enough numbers right now, add some more.
         while (times.sum() * u.s) < exposuretime:
             times = np.hstack([times, expon.rvs(scale=1/fullrate.to(1 / u.s),
-                                                size=int(((exposuretime - times.sum() * u.s) * fullrate * 1.1).to(u.dimensionless_unscaled)))])
+                                                size=max(1, int(((exposuretime - times.sum() * u.s) * fullrate * 1.1).to(u.dimensionless_unscaled))))])
         times = np.cumsum(times) * u.s
         return times[times < exposuretime]
     return poisson_rate
-- 
2.43.0


From 9afa8108fcbec4f5b68fc4ce918ceb1140b610b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:59 +0000
Subject: [PATCH 017/104] fix: SphericalDiskSource uses great-circle offsets,
 as documented

---
 marxs/source/basesources.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/marxs/source/basesources.py b/marxs/source/basesources.py
index 981d657..fddac9e 100644
--- a/marxs/source/basesources.py
+++ b/marxs/source/basesources.py
@@ -379,14 +379,11 @@ class RadialDistributionSource(AstroSource):
         '''
         photons = super().generate_photons(exposuretime)
 
-        relative_frame = SkyOffsetFrame(origin=self.coords)
         n = len(photons)
         phi = np.random.rand(n) * 2. * np.pi * u.rad
         d = self.func(n)
-        relative_coords = SkyCoord(d * np.sin(phi), d * np.cos(phi),
-                                   frame=relative_frame)
-        origin_coord = relative_coords.transform_to(self.coords)
-        self.set_pos(photons, origin_coord)
+        # Great-circle offset, valid for all d, not just in the small angle limit
+        self.set_pos(photons, self.coords.directional_offset_by(phi, d))
 
         return photons
 
-- 
2.43.0


From 7b42cbef8347b0996ce531a16b93cbebc7f74d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:59 +0000
Subject: [PATCH 018/104] fix: SymbolFSource placed photons at the wrong
 position for coords not in ICRS

---
 marxs/source/basesources.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marxs/source/basesources.py b/marxs/source/basesources.py
index fddac9e..b0f1ff0 100644
--- a/marxs/source/basesources.py
+++ b/marxs/source/basesources.py
@@ -515,6 +515,7 @@ class SymbolFSource(AstroSource):
         ra[elem == 2] += 0.8 * size
         dec[elem == 2] += 0.3 * size * np.random.random(np.sum(elem == 2))
 
-        self.set_pos(photons, SkyCoord(ra, dec, frame=self.coords))
+        # ra, dec are derived from the icrs coordinates above
+        self.set_pos(photons, SkyCoord(ra, dec, frame='icrs'))
 
         return photons
-- 
2.43.0


From 909804a89aec2145ecdc840c480f908c5382d0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:01 +0000
Subject: [PATCH 019/104] fix: JitterPointing takes reference_transform into
 account for the jitter axis

---
 marxs/source/pointing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/source/pointing.py b/marxs/source/pointing.py
index 8d26938..27b0d24 100644
--- a/marxs/source/pointing.py
+++ b/marxs/source/pointing.py
@@ -199,6 +199,8 @@ class JitterPointing(FixedPointing):
         n = len(photons)
         randang = np.random.rand(n) * 2. * np.pi
         ax = np.vstack([np.zeros(n), np.sin(randang), np.cos(randang)]).T
+        # rotation axis has to be perpendicular to the optical axis
+        ax = np.dot(ax, self.reference_transform[:3, :3].T)
         if self.jitter > 0:
             # For comparison it's often useful to run a model with jitter=0
             # but that would fail np.random.normal(scale=0)
-- 
2.43.0


From 4f9a6a33559f873ccafe80428d143ee0436bb06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:42 +0000
Subject: [PATCH 020/104] fix: MultiAperture assigns every photon to an
 aperture, despite rounding errors

---
 marxs/optics/aperture.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/optics/aperture.py b/marxs/optics/aperture.py
index 8a096f2..c316511 100644
--- a/marxs/optics/aperture.py
+++ b/marxs/optics/aperture.py
@@ -202,6 +202,8 @@ class MultiAperture(BaseAperture, BaseContainer):
         self.add_colpos(photons)
         areas = u.Quantity([e.area for e in self.elements])
         aperid = np.digitize(np.random.rand(len(photons)), np.cumsum(areas) / self.area)
+        # Due to rounding errors the cumulative sum might not reach 1. exactly
+        aperid = np.minimum(aperid, len(self.elements) - 1)
         np.random.shuffle(aperid)
 
         for i, elem in enumerate(self.elements):
-- 
2.43.0


From 832617a0c0e6cf6e814e286273a4e22adada86e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 021/104] fix: Q_reflection rejected every input

---
 marxs/math/polarization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/math/polarization.py b/marxs/math/polarization.py
index 7391b5f..6bfc724 100644
--- a/marxs/math/polarization.py
+++ b/marxs/math/polarization.py
@@ -82,7 +82,7 @@ def Q_reflection(delta_dir):
     q : np.array of shape (n, 4, 4)
         Array of parallel transport ray tracing matrices.
     '''
-    if delta_dir.shape != 2:
+    if delta_dir.ndim != 2:
         raise ValueError('delta_dir must have dimension (n, 4).')
     m = delta_dir[..., None, :] * delta_dir[..., :, None]
     return np.eye(4) - 2 / (np.linalg.norm(delta_dir, axis=1)**2)[:, None, None] * m
-- 
2.43.0


From d712e0630e442c6fda1cdcc9281db4d5dd611f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 022/104] fix: parallel_transport passes on keyword arguments
 as documented

---
 marxs/math/polarization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/math/polarization.py b/marxs/math/polarization.py
index 6bfc724..836b11d 100644
--- a/marxs/math/polarization.py
+++ b/marxs/math/polarization.py
@@ -164,6 +164,6 @@ def parallel_transport(dir_old, dir_new, pol_old, **kwargs):
     pol : np.array of shape (m, 4)
         Parallel transported vectors.
     '''
-    pmat = paralleltransport_matrix(dir_old[:, :3], dir_new[:, :3])
+    pmat = paralleltransport_matrix(dir_old[:, :3], dir_new[:, :3], **kwargs)
     out = np.einsum('ijk,ik->ij', pmat, pol_old[:, :3])
     return e2h(out, 0)
-- 
2.43.0


From 66b09d083490f8135d515ca79b5b7df2b2129bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:06 +0000
Subject: [PATCH 023/104] fix: RowlandTorus.xyzw2parametric returned the wrong
 theta at the top and inside of a torus

Points at a distance R from the symmetry axis (theta = +-pi/2) were given
theta=0, points on the inner branch for r > 2R were given theta on the outer
branch, and intersectvalid=False raised a TypeError.
---
 marxs/design/rowland.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index 1116e68..ad1fb16 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -266,16 +266,19 @@ class RowlandTorus(MarxsElement, Geometry):
 
         if not np.allclose(self.quartic(xyz, transform=False) / self.R**4., 0.):
             raise ValueError('Parametric representation is only defined for points on torus surface.')
-        # There are two branches and we can use the sign to distinguish between them
-        s = np.sign(np.sqrt(xyz[:,0]**2 + xyz[:, 2]**2) - self.R)
-        theta = np.arcsin(s * xyz[:, 1] / self.r) + (s < 0) * np.pi
+        # There are two branches: If r > R, then R + r cos(theta) can be negative.
+        # The point is on the branch where it is on the circle with radius r.
+        rho = np.sqrt(xyz[:, 0]**2 + xyz[:, 2]**2)
+        d_plus = np.abs((rho - self.R)**2 + xyz[:, 1]**2 - self.r**2)
+        d_minus = np.abs((rho + self.R)**2 + xyz[:, 1]**2 - self.r**2)
+        factor = np.where(d_plus <= d_minus, rho, -rho)
+        theta = np.arctan2(xyz[:, 1], factor - self.R)
 
-        factor = self.R + self.r * np.cos(theta)
         phi = np.zeros_like(factor)
-        ind = factor != 0
+        ind = ~np.isclose(factor / self.R, 0.)
         phi[ind] = np.arctan2(xyz[ind, 2] / factor[ind], xyz[ind, 0] / factor[ind])
         if not intersectvalid:
-            phi[~factor] = np.nan
+            phi[~ind] = np.nan
 
         return theta, phi
 
-- 
2.43.0


From cafa087532e1b80438d864993e3ad9709ca27f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:06 +0000
Subject: [PATCH 024/104] fix: RectangularGrid places one element if both
 limits of a range are the same

---
 marxs/design/rowland.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index ad1fb16..34f6881 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -690,11 +690,8 @@ class RectangularGrid(ElementsOnTorus):
         n_z = max(1, n_z)
 
         # n_y and n_z are rounded up, so they cover a slightly larger range than y/z_range
-        width_y = n_y * self.d_element[0]
-        width_z = n_z * self.d_element[1]
-
-        ypos = np.arange(0.5 * (self.y_range[0] - width_y + self.y_range[1] + self.d_element[0]), self.y_range[1], self.d_element[0])
-        zpos = np.arange(0.5 * (self.z_range[0] - width_z + self.z_range[1] + self.d_element[1]), self.z_range[1], self.d_element[1])
+        ypos = 0.5 * (self.y_range[0] + self.y_range[1]) + (np.arange(n_y) - 0.5 * (n_y - 1)) * self.d_element[0]
+        zpos = 0.5 * (self.z_range[0] + self.z_range[1]) + (np.arange(n_z) - 0.5 * (n_z - 1)) * self.d_element[1]
 
         ypos, zpos = np.meshgrid(ypos, zpos)
 
-- 
2.43.0


From 354fe71378188117f5e9c3ee0120bd760b5bc2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:06 +0000
Subject: [PATCH 025/104] fix: GratingArrayStructure accepts phi as a single
 number as documented

---
 marxs/design/rowland.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index 34f6881..b2e43ee 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -865,8 +865,8 @@ class GratingArrayStructure(ElementsOnTorus):
             The phi angles for centers of the elements at ``radius``.
 
         '''
-        if len(self.phi) == 1:
-            return self.phi
+        if np.size(self.phi) == 1:
+            return np.atleast_1d(self.phi)
         # arc is most crowded on inner radius
         n = self.max_elements_on_arc(radius - self.d_element[0] / 2)
         element_angle = self.d_element[1] / (2. * np.pi * radius)
-- 
2.43.0


From dd0fadfc3e2f6d4c042a23b4d43e198058b973bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:13 +0000
Subject: [PATCH 026/104] fix: add_offset_double_rowland_channels used the
 wrong torus for channels other than 1, 2

---
 marxs/design/rowland.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index b2e43ee..b887560 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -533,10 +533,10 @@ def add_offset_double_rowland_channels(geometry,
     for channel in geometry['pos_opt_ax']:
         shift_matrix = np.eye(4)
         shift_matrix[:, 3] = geometry['pos_opt_ax'][channel][:]
-        if channel in ['1', '2']:
-            base_rowland = 'rowland_central'
-        elif channel in ['1m', '2m']:
+        if 'm' in channel:
             base_rowland = 'rowland_central_m'
+        else:
+            base_rowland = 'rowland_central'
         namer = 'rowland_' + channel
         geometry[namer] = RowlandTorus(geometry[base_rowland].R,
                                        geometry[base_rowland].r,
-- 
2.43.0


From e1f301061dd97390267ba45a2e307c43b856d59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:59 +0000
Subject: [PATCH 027/104] fix: RowlandTorus.xyz_from_radiusangle accepts arrays
 as documented

---
 marxs/design/rowland.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index b887560..9f5f633 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -359,13 +359,15 @@ class RowlandTorus(MarxsElement, Geometry):
         xyz : np.array of shape (n, 3)
             Euclidean coordinates in the global coordinate system.
         '''
-        y = radius * np.cos(angle)
-        z = radius * np.sin(angle)
+        y = np.atleast_1d(radius * np.cos(angle))
+        z = np.atleast_1d(radius * np.sin(angle))
         # Use np.mean for backwards compatibility.
         # This used to take a bracketing interval instead of a first guess.
-        out = self.solve_quartic(np.array([np.mean(start), y, z, 1]),
-                               np.array([1, 0, 0, 0]),
-                               transform=False)
+        # solve_quartic is not vectorized, so need to pass in one point at a time.
+        out = np.vstack([self.solve_quartic(np.array([np.mean(start), y[i], z[i], 1]),
+                                            np.array([1, 0, 0, 0]),
+                                            transform=False)
+                         for i in range(len(y))])
         return h2e(np.einsum('...ij,...j', self.pos4d, out))
 
 
-- 
2.43.0


From 2b646d3a7981c66a6528945d34be91233ac4e0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:00 +0000
Subject: [PATCH 028/104] fix: ElementsOnTorus ignored the position keywords

---
 marxs/design/rowland.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index 9f5f633..d2f1d4f 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -20,6 +20,7 @@ import transforms3d
 
 from ..optics.base import OpticalElement
 from ..base import MarxsElement
+from ..base.base import _parse_position_keywords
 from ..optics import FlatDetector
 from ..math.utils import e2h, h2e, anglediff
 from ..simulator import ParallelCalculated
@@ -606,7 +607,13 @@ class ElementsOnTorus(ParallelCalculated, OpticalElement):
             kwargs['parallel_spec'] = self.rowland.pos4d @ np.array([0, 1, 0, 0])
         kwargs['pos_spec'] = self.elempos
 
+        # OpticalElement replaces the geometry set in Parallel, so apply the
+        # position keywords once all that is done.
+        pos4d = _parse_position_keywords(kwargs)
         super().__init__(**kwargs)
+        if not np.all(pos4d == self.pos4d):
+            self.geometry.pos4d = pos4d
+            self.generate_elements()
 
     def elemposyz(self):
         '''Specify the element position in the yz plane
-- 
2.43.0


From 45da7f416ae2123fe44c9b596159b3710260d54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:33 +0000
Subject: [PATCH 029/104] fix: PerfectLynx and Lynx could not be initialized

---
 marxs/missions/lynx/lynx.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/marxs/missions/lynx/lynx.py b/marxs/missions/lynx/lynx.py
index d6f76fc..401288f 100644
--- a/marxs/missions/lynx/lynx.py
+++ b/marxs/missions/lynx/lynx.py
@@ -65,7 +65,6 @@ conf = {'metashellgeometry': Table.read(get_pkg_data_filename('data/metashellgeo
                                      'pixsize': 0.016}},
         'gas_kwargs': {'parallel_spec': np.array([0., 1., 0., 0.]),
                        'normal_spec': np.array([0, 0, 0, 1]),
-                       'x_range': [7e3, 1e4],
                        'elem_class': CATL1L2Stack,
                        'elem_args': {'d': 2e-4,
                                      'order_selector': ralfgrating.order_selector_Si,
@@ -133,7 +132,7 @@ class LynxGAS(CircularMeshGrid):
 
 class RowlandDetArray(design.rowland.RectangularGrid):
     def __init__(self, conf):
-        super(RowlandDetArray, self).__init__(conf['rowland'], **conf['det_kwargs'],
+        super(RowlandDetArray, self).__init__(rowland=conf['rowland'], **conf['det_kwargs'],
                                               guess_distance=25.)
 
 
-- 
2.43.0


From febd2e61c5f330a13ef488f0bd1bda2ac3661e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:38 +0000
Subject: [PATCH 030/104] fix: RMF.rmf and full_rmf handle TLMIN, padded and
 empty rows

---
 marxs/reduction/ogip.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 182bc09..f861450 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -322,6 +322,17 @@ class RMF:
         rows = rowind.nonzero()[0][0]
         return self.matrix[rows]
 
+    def _row_channels(self, row):
+        '''Channel indices (counting from 0) and matrix elements of a row.'''
+        tlmin = self.matrix.meta.get('TLMIN{}'.format(self.matrix.colnames.index('F_CHAN') + 1), 1)
+        n_grp = row['N_GRP']
+        # Fixed-length columns can be scalar or padded
+        f_chan = np.atleast_1d(row['F_CHAN'])[:n_grp]
+        n_chan = np.atleast_1d(row['N_CHAN'])[:n_grp]
+        ind = [np.arange(f - tlmin, f - tlmin + n) for f, n in zip(f_chan, n_chan)]
+        ind = np.concatenate([np.zeros(0, dtype=int)] + ind)
+        return ind, np.atleast_1d(row['MATRIX'])[:len(ind)]
+
     @property
     def en_mid(self):
         return 0.5 * (self.ebounds['E_MIN'] + self.ebounds['E_MAX'])
@@ -341,15 +352,8 @@ class RMF:
             rmf value in each bin
         '''
         rmf = np.zeros(len(self.en_mid))
-        row = self.row(energy)
-        tlmin = self.matrix.meta['TLMIN{}'.format(self.matrix.colnames.index('F_CHAN') + 1)]
-        for i in range(row['N_GRP']):
-            # Python is 0 indexed, FITS is 1 indexed
-            chans = slice(row['F_CHAN'][i] - tlmin,
-                          row['F_CHAN'][i] + row['N_CHAN'][i] - tlmin)
-            matindex = np.cumsum(np.concatenate(([0], row['N_CHAN'])))
-            mat = slice(matindex[i], matindex[i + 1])
-            rmf[chans] = row['MATRIX'][mat]
+        ind, mat = self._row_channels(self.row(energy))
+        rmf[ind] = mat
         return self.ebounds['E_MIN'], self.ebounds['E_MAX'], rmf
 
     def rmf(self, energy):
@@ -366,12 +370,8 @@ class RMF:
         rmf : array
             rmf value in each bin
         '''
-        row = self.row(energy)
-        ind = np.concatenate([np.arange(row['F_CHAN'][i] - 1,
-                                        row['F_CHAN'][i] + row['N_CHAN'][i]-1)
-                              for i in range(row['N_GRP'])])
-        return self.ebounds['E_MIN'][ind], self.ebounds['E_MAX'][ind], \
-            np.asanyarray(row['MATRIX'])
+        ind, mat = self._row_channels(self.row(energy))
+        return self.ebounds['E_MIN'][ind], self.ebounds['E_MAX'][ind], mat
 
     def rmf_angstrom(self, energy):
         en_lo, en_hi, rmf = self.rmf(energy)
-- 
2.43.0


From 6980f38e0a2fd4b78a50b3d2a75b474049eb8b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:38 +0000
Subject: [PATCH 031/104] fix: DETCHANS of an RMF matrix is the number of
 channels

---
 marxs/reduction/ogip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index f861450..5f2557a 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -228,7 +228,7 @@ class RMF:
         self.matrix = matrix
         self.ebounds = ebounds
         for m in [self.matrix, self.ebounds]:
-            m.meta['DETCHANS'] = len(m)
+            m.meta['DETCHANS'] = len(self.ebounds)
             if CHANTYPE is not None:
                 m.meta['CHANTYPE'] = CHANTYPE
             if HDUCLAS3 is not None:
-- 
2.43.0


From 2553f24d93f3009eaf87331bc5a449f9df81ad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:38 +0000
Subject: [PATCH 032/104] fix: RMF with a single energy or empty rows can be
 written

---
 marxs/reduction/ogip.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 5f2557a..9dfc36d 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -445,15 +445,15 @@ class RMF:
         m = self.matrix
         # int16 is recommended in OGIP, but too small for e.g. Arcus
         # So, determine smallest inttype that works
-        maxvalf = np.concatenate(m['F_CHAN']).max()
-        maxvaln = np.concatenate(m['N_CHAN']).max()
+        maxvalf = np.concatenate(m['F_CHAN']).max(initial=0)
+        maxvaln = np.concatenate(m['N_CHAN']).max(initial=0)
         maxval = max(maxvalf, maxvaln)
         for inttype in [np.int16, np.int32, np.int64]:
             if inttype(maxval) == maxval:
                 break
-        fchan = np.zeros((len(m), np.max(m['N_GRP'])), dtype=inttype)
+        fchan = np.zeros((len(m), max(1, np.max(m['N_GRP']))), dtype=inttype)
         nchan = np.zeros_like(fchan)
-        matrix = np.zeros((len(m), max([sum(r) for r in m['N_CHAN']])),
+        matrix = np.zeros((len(m), max([1] + [sum(r) for r in m['N_CHAN']])),
                           dtype=np.float32)
         for i, r in enumerate(m):
             fchan[i, :len(r['F_CHAN'])] = r['F_CHAN']
@@ -461,8 +461,10 @@ class RMF:
             matrix[i, :len(r['MATRIX'])] = r['MATRIX']
         # if max(N_GRP) == 1 then we can squueze out the first dimension
         # and write a number per row instead of an array.
-        m['F_CHAN'] = fchan.squeeze()
-        m['N_CHAN'] = nchan.squeeze()
+        if fchan.shape[1] == 1:
+            fchan, nchan = fchan[:, 0], nchan[:, 0]
+        m['F_CHAN'] = fchan
+        m['N_CHAN'] = nchan
         m['MATRIX'] = matrix
 
     @staticmethod
-- 
2.43.0


From 820442cea113702372af88762916f12cc99c2bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:38 +0000
Subject: [PATCH 033/104] fix: RMF.from_Gauss_sigma works for tables in energy
 and leaves the input unchanged

---
 marxs/reduction/ogip.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 9dfc36d..e0edf4d 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -498,8 +498,10 @@ class RMF:
         # This module requires sherpa, so we import it down here.
         # That way, the rest of this class can be used even when Sherpa is not installed.
         from marxs.reduction.lsfparm import make_rmf
+        # Work on a copy to leave the table passed in by the caller unchanged
+        sigmatab = sigmatab.copy()
         if 'energy' in sigmatab.colnames and 'wave' not in sigmatab.colnames:
-            sigmatab['wave'] = sigmatab['energy'].to(u.Angstrom, equivalenicies=u.spectral())
+            sigmatab['wave'] = sigmatab['energy'].to(u.Angstrom, equivalencies=u.spectral())
             sigmatab['sigma_wave'] = sigmatab['wave'] * sigmatab['sigma_energy'] / sigmatab['energy']
         sigmatab.sort('wave')
 
-- 
2.43.0


From 250296caed38f45664eccdc26e41d5a49f18a6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:31 +0000
Subject: [PATCH 034/104] fix: ColOrKeyTable returns the new column if a key of
 the same name existed

---
 marxs/reduction/ogip.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index e0edf4d..5f92bba 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -78,6 +78,9 @@ class ColOrKeyTable(QTable):
                 self.remove_column(item)
         else:
             super().__setitem__(item, value)
+            if isinstance(item, str):
+                # The column replaces a key with the same name
+                self.meta.pop(item, None)
 
 
 def _check_mandatory_keywords(tab, extra_keywords=[]):
-- 
2.43.0


From 21b67e20d59a3a4a6aec5c1101b9eff46ff355bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:21 +0000
Subject: [PATCH 035/104] fix: RMF.row finds the correct row for wavelengths

---
 marxs/reduction/ogip.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 5f92bba..1a2663f 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -319,9 +319,10 @@ class RMF:
         hdulist.writeto(rmffile, overwrite=overwrite, checksum=True)
 
     def row(self, energy):
-        with u.set_enabled_equivalencies(u.spectral()):
-            rowind = (energy >= self.matrix['ENERG_LO']) & \
-                (energy < self.matrix['ENERG_HI'])
+        # Comparing in wavelength would invert the sense of < and >
+        energy = energy.to(u.keV, equivalencies=u.spectral())
+        rowind = (energy >= self.matrix['ENERG_LO']) & \
+            (energy < self.matrix['ENERG_HI'])
         rows = rowind.nonzero()[0][0]
         return self.matrix[rows]
 
-- 
2.43.0


From 8bdac72a1cc22ea3acb2f45e17ab62cf3dc4f3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:54 +0000
Subject: [PATCH 036/104] fix: RMF.from_Gauss_sigma converts wavelengths to
 Angstrom

---
 marxs/reduction/ogip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 1a2663f..277e10b 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -514,7 +514,7 @@ class RMF:
                          'WIDTHS': [[1.]],
                          'NUM_LAMBDAS': [len(sigmatab)],
                          'EE_FRACS': [np.ones((1, len(sigmatab)))],
-                         'LAMBDAS': [sigmatab['wave']],
+                         'LAMBDAS': [sigmatab['wave'].to(u.Angstrom).value],
                          'GAUSS1_PARMS': [np.stack([np.ones(len(sigmatab)),
                                            sigmatab['sigma_wave'].to(u.Angstrom).value,
                                            sigmatab['wave'].to(u.Angstrom).value
-- 
2.43.0


From 8a961b6a1cad8e63194a3b23ab51884fbcf21b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:34 +0000
Subject: [PATCH 037/104] fix: OSIPBase.osip_tab returns the width of the
 region

---
 marxs/reduction/osip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/reduction/osip.py b/marxs/reduction/osip.py
index 360a759..28e20da 100644
--- a/marxs/reduction/osip.py
+++ b/marxs/reduction/osip.py
@@ -81,7 +81,7 @@ class OSIPBase(ABC):
         osiprange = self.osip_range(chan_mid, order)
         osiprange = osiprange.to(u.eV, equivalencies=u.spectral())
         E = chan_mid.to(u.eV, equivalencies=u.spectral())
-        return E + osiprange * np.array([-1, 1])[:, np.newaxis]
+        return (osiprange - E) * np.array([-1, 1])[:, np.newaxis]
 
     @u.quantity_input(chan_mid=u.keV, equivalencies=u.spectral())
     def osip_range(self, chan_mid, order) -> u.eV:
-- 
2.43.0


From 3883c3baefd6a803d7263302f409b3289dd4ad36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:34 +0000
Subject: [PATCH 038/104] fix: Plot of summed ARFs does not require the
 optional column BIN_LO

---
 marxs/reduction/osip.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marxs/reduction/osip.py b/marxs/reduction/osip.py
index 28e20da..a8f6248 100644
--- a/marxs/reduction/osip.py
+++ b/marxs/reduction/osip.py
@@ -321,7 +321,8 @@ class OSIPBase(ABC):
             # Interpolate on common wavelength grid. Good enough for plotting.
             # Interp requires sorted input
             # but ARFs are reverse-sorted in wavelength
-            specresp += np.interp(wavegrid, arf['BIN_LO'][::-1],
+            bin_lo = arf['ENERG_HI'].to(u.Angstrom, equivalencies=u.spectral())
+            specresp += np.interp(wavegrid, bin_lo[::-1],
                                   arf['SPECRESP'][::-1])
 
         fig, ax = plt.subplots()
-- 
2.43.0


From 000d805bacb79ae46d3ebfc5fbd3eede02ef138e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:48 +0000
Subject: [PATCH 039/104] fix: CCDRedistNormal.cdf accepts wavelengths

---
 marxs/optics/detector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/optics/detector.py b/marxs/optics/detector.py
index 9973c29..80c7e8c 100644
--- a/marxs/optics/detector.py
+++ b/marxs/optics/detector.py
@@ -187,6 +187,8 @@ class CCDRedistNormal(FlatOpticalElement):
     @u.quantity_input(x=u.keV, loc=u.keV, equivalencies=u.spectral())
     def cdf(self, x, loc):
         scale = self.sig_ccd(loc)
+        x = x.to(u.keV, equivalencies=u.spectral())
+        loc = loc.to(u.keV, equivalencies=u.spectral())
         return norm().cdf(((x - loc) / scale).decompose())
 
     @u.quantity_input(loc=u.keV, equivalencies=u.spectral())
-- 
2.43.0


From 3539bd0013e0b535eb1637e8d12fd71347c5bcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:48 +0000
Subject: [PATCH 040/104] fix: ARF with the same value in all rows can be
 written and read

---
 marxs/reduction/ogip.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 277e10b..5218e58 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -118,7 +118,14 @@ class ARF(ColOrKeyTable):
                           'HDUCLAS2': 'SPECRESP',
                           })
         _check_mandatory_keywords(self)
-        super().write(*args, **kwargs, format='fits')
+        # Required columns with only one value are stored as key in the table
+        # but must be columns in the file.
+        out = QTable(self)
+        n_rows = len(self) if self.colnames else 1
+        for col, dtype, ndim in self.required_cols:
+            if col in out.meta:
+                out[col] = u.Quantity(np.ones(n_rows) * out.meta.pop(col))
+        out.write(*args, **kwargs, format='fits')
 
     @classmethod
     def read(cls, *args, **kwargs):
-- 
2.43.0


From 04b950b3db51ef24d3d9b0fd7c7141aff651b615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:02 +0000
Subject: [PATCH 041/104] fix: Repeated assignment to a column that became a
 key

---
 marxs/reduction/ogip.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 5218e58..11f8a06 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -48,7 +48,8 @@ class ColOrKeyColumn(Column):
         super().__setitem__(index, value)
         if np.all(self.data == self.data[0]):
             self._parent_table().meta[self.name] = self.data[0]
-            self._parent_table().remove_column(self.name)
+            if self.name in self._parent_table().colnames:
+                self._parent_table().remove_column(self.name)
         else:
             if self.name not in self._parent_table().colnames:
                 self._parent_table().columns[self.name] = self
-- 
2.43.0


From ad52a21e2251ea6830ae885aec8f6d0d72d6a56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:11 +0000
Subject: [PATCH 042/104] fix: OSIP factor has the shape of the input energies
 for orders on opposite sides

---
 marxs/reduction/osip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/reduction/osip.py b/marxs/reduction/osip.py
index a8f6248..09ef639 100644
--- a/marxs/reduction/osip.py
+++ b/marxs/reduction/osip.py
@@ -137,7 +137,7 @@ class OSIPBase(ABC):
         '''
 
         if np.sign(o_nominal) != np.sign(o_true):
-            return 0.
+            return np.zeros(chan_mid_nominal.shape)
 
         osiprange = self.osip_range(chan_mid_nominal, o_nominal)
         Etrue = chan_mid_nominal.to(u.eV, equivalencies=u.spectral()) * \
-- 
2.43.0


From be70258c6696fb2de16f0128926bd9abfb0c177a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:32 +0000
Subject: [PATCH 043/104] fix: run_tolerances_for_energies2 modifies subclasses
 if requested

---
 marxs/design/tolerancing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/tolerancing.py b/marxs/design/tolerancing.py
index 42050d5..dbbae22 100644
--- a/marxs/design/tolerancing.py
+++ b/marxs/design/tolerancing.py
@@ -442,7 +442,7 @@ def run_tolerances_for_energies2(source, energies, instrum, cls, wigglefunc,
                                       Sequence(elements=instrum.elements[:ind]),
                                       Sequence(elements=instrum.elements[ind:]),
                                       wigglefunc,
-                                      instrum.elements_of_class(cls),
+                                      instrum.elements_of_class(cls, subclass_ok),
                                       parameters,
                                       analyzefunc,
                                       reset,
-- 
2.43.0


From 4a45004c458569a5f205cfe544b61e7ea059242d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:32 +0000
Subject: [PATCH 044/104] fix: moveelem moves all layers of a FlatStack

---
 marxs/design/tolerancing.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/marxs/design/tolerancing.py b/marxs/design/tolerancing.py
index dbbae22..d92aa83 100644
--- a/marxs/design/tolerancing.py
+++ b/marxs/design/tolerancing.py
@@ -10,6 +10,7 @@ from astropy.table import Table
 from astropy import table
 import astropy.units as u
 from marxs.simulator import Sequence
+from marxs.optics.base import FlatStack
 from marxs.design.uncertainties import generate_facet_uncertainty as genfacun
 
 __all__ = ['oneormoreelements',
@@ -130,6 +131,10 @@ def moveelem(e, dx=0, dy=0, dz=0, rx=0., ry=0., rz=0.):
                            euler.euler2mat(rx, ry, rz, 'sxyz'),
                            np.ones(3))
     e.geometry.pos4d = move @ e.geometry.pos4d_orig
+    # All layers of a stack are in the same place
+    if isinstance(e, FlatStack):
+        for layer in e.elements:
+            moveelem(layer, dx=dx, dy=dy, dz=dz, rx=rx, ry=ry, rz=rz)
 
 
 @oneormoreelements
-- 
2.43.0


From f510b77647eb1691cfc28a5867934b4b7ad17260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:32 +0000
Subject: [PATCH 045/104] fix: resolving power is calculated for 20 photons as
 documented

---
 marxs/analysis/gratings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/analysis/gratings.py b/marxs/analysis/gratings.py
index c895d80..c0000c9 100644
--- a/marxs/analysis/gratings.py
+++ b/marxs/analysis/gratings.py
@@ -259,7 +259,7 @@ def resolvingpower_from_photonlist(photons, orders,
 
     for i, o in enumerate(orders):
         ind = (photons[ordercol] == o)
-        if ind.sum() > 20:
+        if ind.sum() >= 20:
             # There is a .value here to work around https://github.com/astropy/astropy/issues/13281
             meanpos, medianpos, stdpos = sigma_clipped_stats(photons[col][ind].value)
         else:
-- 
2.43.0


From f0b8748db0b0e5bb22102e8ef5d6e2cd67939b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:32 +0000
Subject: [PATCH 046/104] fix: facet_table does not modify the plane passed in

---
 marxs/analysis/coords.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marxs/analysis/coords.py b/marxs/analysis/coords.py
index df61710..5192fff 100644
--- a/marxs/analysis/coords.py
+++ b/marxs/analysis/coords.py
@@ -1,4 +1,6 @@
 # Licensed under GPL version 3 - see LICENSE.rst
+from copy import copy
+
 import numpy as np
 from astropy.table import Table
 
@@ -72,6 +74,8 @@ def facet_table(container, project_plane=ProjectOntoPlane()):
             >>> from astropy import table
             >>> table.join(photons, facettab, join_type='left')  # doctest: +SKIP
     '''
+    # Do not change the object that was passed in (or the default)
+    project_plane = copy(project_plane)
     project_plane.loc_coos_name = ['facet_projx', 'facet_projy']
 
     facetpos = h2e(np.stack(container.elem_pos)[:, :, 3])
-- 
2.43.0


From e8c38cf5a3b25eaaecd515daf877b41fa82d3829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:29 +0000
Subject: [PATCH 047/104] fix: average resolving power is dimensionless for
 effective areas with units

---
 marxs/analysis/gratings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/analysis/gratings.py b/marxs/analysis/gratings.py
index c0000c9..7761a29 100644
--- a/marxs/analysis/gratings.py
+++ b/marxs/analysis/gratings.py
@@ -208,7 +208,7 @@ def average_R_Aeff(r, aeff, axis=None):
     '''
     aeff_avg = aeff.sum(axis=axis)
     res_avg = np.ma.average(np.ma.masked_invalid(r),
-                            weights=aeff, axis=axis)
+                            weights=getattr(aeff, 'value', aeff), axis=axis)
     return res_avg, aeff_avg
 
 
-- 
2.43.0


From dbf48cf5b2407b8083ba25dda0583e50e8f55064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:29 +0000
Subject: [PATCH 048/104] fix: position of order 0 can be determined for
 columns with units

---
 marxs/analysis/gratings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/analysis/gratings.py b/marxs/analysis/gratings.py
index 7761a29..074be8d 100644
--- a/marxs/analysis/gratings.py
+++ b/marxs/analysis/gratings.py
@@ -252,7 +252,7 @@ def resolvingpower_from_photonlist(photons, orders,
         ind = (photons[ordercol] == 0)
         if ind.sum() < 20:
             raise AnalysisError('Too few photons in list to determine position of order 0 automatically.')
-        zeropos, medzeropos, stdzero = sigma_clipped_stats(photons[col][ind])
+        zeropos, medzeropos, stdzero = sigma_clipped_stats(photons[col][ind].value)
 
     pos = np.zeros_like(orders, dtype=float)
     std = np.zeros_like(orders, dtype=float)
-- 
2.43.0


From 5b5695033ce2a617d85bf0f8440641fabe4e4605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:39 +0000
Subject: [PATCH 049/104] fix: width of RadialMirrorScatter can be changed to a
 quantity as documented

---
 marxs/optics/scatter.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/marxs/optics/scatter.py b/marxs/optics/scatter.py
index 0421612..da7b165 100644
--- a/marxs/optics/scatter.py
+++ b/marxs/optics/scatter.py
@@ -60,18 +60,23 @@ class RadialMirrorScatter(FlatOpticalElement):
             perpplane[ind] = np.cross(pdir[ind], guessvec)
             radial[ind] = np.cross(perpplane[ind], pdir[ind])
 
+        # Those attributes may have been set to a quantity later,
+        # e.g. with marxs.design.tolerancing.varyattribute
+        inplanescatter = u.Quantity(self.inplanescatter, u.rad).value
+        perpplanescatter = u.Quantity(self.perpplanescatter, u.rad).value
+
         # np.random.normal does not work with scale=0
         # so special case that here.
-        if self.inplanescatter != 0:
-            inplaneangle = np.random.normal(loc=0., scale=self.inplanescatter, size=n)
+        if inplanescatter != 0:
+            inplaneangle = np.random.normal(loc=0., scale=inplanescatter, size=n)
             rot = axangle2mat(perpplane, inplaneangle)
             outdir = e2h(np.einsum('...ij,...i->...j', rot, h2e(photons['dir'][intersect])), 0)
         else:
             inplaneangle = np.zeros(n)
             outdir = photons['dir'][intersect]
 
-        if self.perpplanescatter !=0:
-            perpangle = np.random.normal(loc=0., scale=self.perpplanescatter, size=n)
+        if perpplanescatter != 0:
+            perpangle = np.random.normal(loc=0., scale=perpplanescatter, size=n)
             rot = axangle2mat(radial, perpangle)
             outdir = e2h(np.einsum('...ij,...i->...j', rot, h2e(outdir)), 0)
         else:
-- 
2.43.0


From e3efdb7f6f30b849e200b2d09a3fa0c8d5884b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:39 +0000
Subject: [PATCH 050/104] fix: absorbed photons do not influence the position
 of order 0 for user defined detectors

---
 marxs/analysis/gratings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/analysis/gratings.py b/marxs/analysis/gratings.py
index 074be8d..7e45e73 100644
--- a/marxs/analysis/gratings.py
+++ b/marxs/analysis/gratings.py
@@ -107,6 +107,8 @@ def resolvingpower_per_order(gratings, photons, orders, detector=None,
         # Find position of order 0.
         pg = photons.copy()
         pg = det(pg)
+        # Remove photons that miss a mirror etc.
+        pg = pg[pg['probability'] > 0.]
         zeropos, temp1, temp2 = sigma_clipped_stats(pg[col])
 
     for i, order in enumerate(orders):
-- 
2.43.0


From 18d645450d695a450b34d2f8bc0bc64158ebdd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:02 +0000
Subject: [PATCH 051/104] fix: reflected polarization of mirrors with a Fresnel
 function uses amplitudes

---
 marxs/optics/multiLayerMirror.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/marxs/optics/multiLayerMirror.py b/marxs/optics/multiLayerMirror.py
index 90fa46c..0d49375 100644
--- a/marxs/optics/multiLayerMirror.py
+++ b/marxs/optics/multiLayerMirror.py
@@ -72,9 +72,10 @@ class FlatBrewsterMirror(FlatOpticalElement):
         fresnel_refl_s, fresnel_refl_p = self.fresnel(photons, intersect,
                                                       intersection, local)
         # Calculate new intensity ~ (E_x)^2 + (E_y)^2
-        Es2 = fresnel_refl_s * p_v_s ** 2
-        Ep2 = fresnel_refl_p * p_v_p ** 2
-        intensity = Es2 + Ep2
+        # The Fresnel coefficients are probabilities, the amplitudes are sqrt(R)
+        Es = np.sqrt(fresnel_refl_s) * p_v_s
+        Ep = np.sqrt(fresnel_refl_p) * p_v_p
+        intensity = Es**2 + Ep**2
         # Sometimes, the numerics in the square make probabilities > 1
         # So, we clip, but raise an error is it's >> 1
         if np.any(intensity > 1.001):
@@ -83,8 +84,8 @@ class FlatBrewsterMirror(FlatOpticalElement):
         # parallel transport of polarization vector
         # v_s stays the same by definition
         new_v_p = np.cross(h2e(new_beam_dir), v_s)
-        new_pol = norm_vector(-Es2[:, np.newaxis] * v_s +
-                              Ep2[:, np.newaxis] * new_v_p)
+        new_pol = norm_vector(-Es[:, np.newaxis] * v_s +
+                              Ep[:, np.newaxis] * new_v_p)
 
         return {'dir': new_beam_dir,
                 'probability': np.clip(intensity, 0, 1),
-- 
2.43.0


From c85d2cca051caf3dfd142f932ab8c19d7f363246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:01 +0000
Subject: [PATCH 052/104] fix: LabPointSourceCone for cones along the z axis

---
 marxs/source/labSource.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marxs/source/labSource.py b/marxs/source/labSource.py
index 42c5d46..11f87af 100644
--- a/marxs/source/labSource.py
+++ b/marxs/source/labSource.py
@@ -119,8 +119,12 @@ class LabPointSourceCone(Source):
         # Now we rotate dir to align with the given direction: self.dir
         # To find axis of rotation: cross self.dir with z
         axis = np.cross(h2e(self.dir), [0, 0, 1])
+        if np.allclose(axis, 0, atol=1e-12):
+            # Cone axis is parallel or anti-parallel to z, so any axis
+            # perpendicular to z can be used.
+            axis = np.array([1., 0., 0.])
 
-        angle = np.arccos(self.dir[2]) # Simplified
+        angle = np.arccos(np.clip(self.dir[2], -1, 1)) # Simplified
 
         rotationMatrix = transforms3d.axangles.axangle2aff(axis, -angle)
 
-- 
2.43.0


From 4ab1f6359585a1236cd549bce17299acdb8aa3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:01 +0000
Subject: [PATCH 053/104] fix: normalize the directions of FarLabPointSource

---
 marxs/source/labSource.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/marxs/source/labSource.py b/marxs/source/labSource.py
index 11f87af..f778e23 100644
--- a/marxs/source/labSource.py
+++ b/marxs/source/labSource.py
@@ -7,7 +7,7 @@ import transforms3d
 from ..optics.base import FlatOpticalElement
 from .basesources import Source
 from ..math.polarization import polarization_vectors
-from ..math.utils import h2e, e2h
+from ..math.utils import h2e, e2h, norm_vector
 
 
 class FarLabPointSource(Source, FlatOpticalElement):
@@ -52,8 +52,9 @@ class FarLabPointSource(Source, FlatOpticalElement):
                         pos[2, :] - self.sourcePos[2],
                         np.zeros(n)])
         photons['pos'] = pos.T
-        photons['dir'] = dir.T
-        photons['polarization'] = polarization_vectors(dir.T, photons['polangle'])
+        dir = norm_vector(dir.T)
+        photons['dir'] = dir
+        photons['polarization'] = polarization_vectors(dir, photons['polangle'])
         return photons
 
 
-- 
2.43.0


From d2a9e31ea589a7b847e7518f39cb2f20376b168c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:31 +0000
Subject: [PATCH 054/104] fix: the axis of a Rod is its x-axis

---
 marxs/missions/arcus/boom.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/marxs/missions/arcus/boom.py b/marxs/missions/arcus/boom.py
index f8a8204..6cf36e0 100644
--- a/marxs/missions/arcus/boom.py
+++ b/marxs/missions/arcus/boom.py
@@ -8,6 +8,27 @@ from marxs.simulator import Parallel
 from marxs.math.geometry import Cylinder
 
 
+class RodGeometry(Cylinder):
+    '''A `Cylinder` where the cylinder axis is the x-axis of the rod.'''
+
+    def _cylinder(self):
+        '''`Cylinder` with the shape of this rod, i.e. the axis is along z.'''
+        return Cylinder({'pos4d': self.pos4d[:, [1, 2, 0, 3]],
+                         'phi_lim': self.coos_limits[0]})
+
+    def intersect(self, dir, pos, transform=True):
+        if not transform:
+            dir = np.dot(self.pos4d, dir.T).T
+            pos = np.dot(self.pos4d, pos.T).T
+        return self._cylinder().intersect(dir, pos)
+
+    def parametric_surface(self, *args, **kwargs):
+        return self._cylinder().parametric_surface(*args, **kwargs)
+
+    def get_local_euklid_bases(self, interpos_local):
+        return self._cylinder().get_local_euklid_bases(interpos_local)
+
+
 class Rod(OpticalElement):
     '''X-axis of the rod is the cylinder axis (x-zoom gives half-length)
     y zoom and z zoom have to be the same (no elliptical cylinders)
@@ -15,7 +36,7 @@ class Rod(OpticalElement):
     outcol = 'hitrod'
     display = {'shape': 'cylinder', 'color': 'black'}
 
-    default_geometry = Cylinder
+    default_geometry = RodGeometry
 
     def process_photons(self, photons, intersect, interpos, intercoos):
         if self.outcol not in photons.colnames:
-- 
2.43.0


From 3424f8690ed5d97d1800cb8996e90eff0befa6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:31 +0000
Subject: [PATCH 055/104] fix: bend_gratings works for gratings without
 sub-elements

---
 marxs/design/bendgratings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/bendgratings.py b/marxs/design/bendgratings.py
index d30ca19..ea37a07 100644
--- a/marxs/design/bendgratings.py
+++ b/marxs/design/bendgratings.py
@@ -48,7 +48,7 @@ def bend_gratings(gratings, radius):
         c._geometry = e.geometry._geometry
         e.geometry = c
         e.display['shape'] = 'surface'
-        for e1 in e.elements:
+        for e1 in getattr(e, 'elements', []):
             # can't be the same geometry, because groove_angle is part of _geometry and that's different
             # Maybe need to get that out again and make the geometry strictly the geometry
             # But for now, make a new cylinder of each of them
-- 
2.43.0


From 9fd08b71b8d69d1351df36107392fe99c11b0dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:31 +0000
Subject: [PATCH 056/104] fix: NumericalChirpFinder uses the energy it is set
 up with

---
 marxs/design/bendgratings.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marxs/design/bendgratings.py b/marxs/design/bendgratings.py
index ea37a07..4eefee0 100644
--- a/marxs/design/bendgratings.py
+++ b/marxs/design/bendgratings.py
@@ -126,6 +126,7 @@ class NumericalChirpFinder():
         self.photon['pos'] = self.pos
         self.photon['dir'] = self.dir
         self.photon['probability'] = 1
+        self.photon['energy'] = self.energy
 
     def run_photon(self):
         self.reset_photon()
-- 
2.43.0


From 5864a4c35902c54418cf66874cdd4c73369e5bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:31 +0000
Subject: [PATCH 057/104] fix: chirping gratings again keeps the current
 order_selector

---
 marxs/design/bendgratings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/design/bendgratings.py b/marxs/design/bendgratings.py
index 4eefee0..9a6ebda 100644
--- a/marxs/design/bendgratings.py
+++ b/marxs/design/bendgratings.py
@@ -192,3 +192,5 @@ def chirp_gratings(gratings, optimizer, d,
         # see https://stackoverflow.com/questions/972/adding-a-method-to-an-existing-object-instance
         grat._d = func.__get__(grat)
         grat.order_selector = grat.original_orderselector
+        # order_selector might be changed before the grating is chirped again
+        del grat.original_orderselector
-- 
2.43.0


From 1c149b210515ebe65a264d08c106152d865625cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:31 +0000
Subject: [PATCH 058/104] fix: chirp_gratings for any number of positions on
 the grating

---
 marxs/design/bendgratings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/bendgratings.py b/marxs/design/bendgratings.py
index 9a6ebda..a2f6b38 100644
--- a/marxs/design/bendgratings.py
+++ b/marxs/design/bendgratings.py
@@ -176,7 +176,7 @@ def chirp_gratings(gratings, optimizer, d,
     '''
     for grat in gratings:
         corr = optimizer(grat, uarray, varray)
-        corr = np.tile(corr[:, 0], (3, 1)).T
+        corr = np.tile(corr[:, 0], (len(uarray), 1)).T
         ly = np.linalg.norm(grat.geometry['v_y'])
         lz = np.linalg.norm(grat.geometry['v_z'])
         grat.fitted_d_corr = corr
-- 
2.43.0


From 91a58d8c7536896e98daf9f63ed11ce56f12a188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:31 +0000
Subject: [PATCH 059/104] fix: BendNumericalChirpFinder uses the limits of the
 geometry

---
 marxs/design/bendgratings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/bendgratings.py b/marxs/design/bendgratings.py
index a2f6b38..a18d3b8 100644
--- a/marxs/design/bendgratings.py
+++ b/marxs/design/bendgratings.py
@@ -156,7 +156,7 @@ class NumericalChirpFinder():
 class BendNumericalChirpFinder(NumericalChirpFinder):
     def posongrat(self):
         trans, rot, zoom, shear = decompose44(self.grat.geometry.pos4d)
-        p_lim = self.grat.geometry.phi_limits
+        p_lim = self.grat.geometry.coos_limits[0]
         p_center = np.mean(p_lim)
         # Not accounting for 2 pi wrap and crazy stuff
         p_half = (p_lim[1] - p_lim[0]) / 2
-- 
2.43.0


From da4fd01ae4a191118d3f2bbe639bae85dc1b3e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:49 +0000
Subject: [PATCH 060/104] fix: SPOs add the id column even if no photon hits
 any of them

---
 marxs/missions/athena/spo.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/marxs/missions/athena/spo.py b/marxs/missions/athena/spo.py
index 2fb21a5..20586af 100644
--- a/marxs/missions/athena/spo.py
+++ b/marxs/missions/athena/spo.py
@@ -84,6 +84,13 @@ class SPOChannelMirror(Parallel):
         kwargs['id_col'] = 'xou'
         super().__init__(**kwargs)
 
+    def __call__(self, photons, *args, **kwargs):
+        # Elements that come after the mirror need this column, even if all
+        # photons miss the mirror
+        if self.id_col not in photons.colnames:
+            photons[self.id_col] = -1
+        return super().__call__(photons, *args, **kwargs)
+
 
 geometricthroughput = GlobalEnergyFilter(filterfunc=lambda e: 0.92609,
                                          name='SPOgeometricthrougput')
-- 
2.43.0


From b87c5ecc5245ac0784f97aecf4d69cd9643b8162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:50 +0000
Subject: [PATCH 061/104] fix: Lynx shells are identified by their serial
 number

---
 marxs/missions/lynx/mirror.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marxs/missions/lynx/mirror.py b/marxs/missions/lynx/mirror.py
index 68879a7..04d740f 100644
--- a/marxs/missions/lynx/mirror.py
+++ b/marxs/missions/lynx/mirror.py
@@ -21,6 +21,10 @@ class MetaShellAperture(optics.MultiAperture):
         kwargs['elements'] = elements
         kwargs['id_col'] = 'shell'
         super().__init__(**kwargs)
+        # MultiAperture numbers apertures consecutively, but the effective area
+        # for each shell is looked up by serial number.
+        for elem, shell in zip(self.elements, metashellgeometry):
+            elem.id_num = shell['Metashell Serial Number']
         disp = {'color': (0.0, 0.75, 0.75),
                 'opacity': 0.3,
                 'shape': 'triangulation',
-- 
2.43.0


From bbd1f2ddbdabf51c1c30589e980993189402243d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:20 +0000
Subject: [PATCH 062/104] fix: NumericalChirpFinder can find corrections of any
 size

---
 marxs/design/bendgratings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/bendgratings.py b/marxs/design/bendgratings.py
index a18d3b8..27abb2d 100644
--- a/marxs/design/bendgratings.py
+++ b/marxs/design/bendgratings.py
@@ -145,7 +145,7 @@ class NumericalChirpFinder():
             for k, v in enumerate(varray):
                 self.set_uv([u, v])
                 corr[j, k] = minimize_scalar(self.optimize_func,
-                                             bracket=(.99, 1., 1.01)).x
+                                             bracket=(.99, 1.01)).x
         return corr
 
     def __call__(self, grat, *args, **kwargs):
-- 
2.43.0


From 8e732c7a3c207ff6d5e2760cb3651cc55db73826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:47 +0000
Subject: [PATCH 063/104] fix: LissajousDither works with dither in roll

---
 marxs/missions/chandra/dither.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/chandra/dither.py b/marxs/missions/chandra/dither.py
index 589a272..4de88de 100644
--- a/marxs/missions/chandra/dither.py
+++ b/marxs/missions/chandra/dither.py
@@ -84,9 +84,9 @@ class LissajousDither(FixedPointing):
         pointing_dir = np.zeros_like(dither.value)
 
         # common case for Chandra
-        if np.allclose(roll.to(u.rad).value, roll[0].to(u.rad).value):
+        constant_roll = np.allclose(roll.to(u.rad).value, roll[:1].to(u.rad).value)
+        if constant_roll and len(roll) > 0:
             mat = axangle2mat(e_nominal, -roll[0].to(u.rad).value, is_normalized=True)
-            constant_roll = True
 
         for i in range(len(time)):
             if not constant_roll:
-- 
2.43.0


From 6b9deaba11e3243d9d063522e55d043cbc86af98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:47 +0000
Subject: [PATCH 064/104] fix: LissajousDither applies the reference_transform

---
 marxs/missions/chandra/dither.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/dither.py b/marxs/missions/chandra/dither.py
index 4de88de..62c57f1 100644
--- a/marxs/missions/chandra/dither.py
+++ b/marxs/missions/chandra/dither.py
@@ -129,7 +129,7 @@ class LissajousDither(FixedPointing):
 
             photons_dir[i, :3] = np.dot(mat3d.T, photons_dir[i, :3])
 
-        return photons_dir
+        return np.einsum('...ij,...j->...i', self.reference_transform, photons_dir)
 
     def write_asol(self, photons, asolfile, timestep=0.256):
         '''Write an aspect solution (asol) file
-- 
2.43.0


From 63c14445b6196d4a31a1896c44e6f310d4450b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:47 +0000
Subject: [PATCH 065/104] fix: writing of asol files, pointing returns plain
 numbers in radian

---
 marxs/missions/chandra/dither.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/dither.py b/marxs/missions/chandra/dither.py
index 62c57f1..9d42e50 100644
--- a/marxs/missions/chandra/dither.py
+++ b/marxs/missions/chandra/dither.py
@@ -151,7 +151,7 @@ class LissajousDither(FixedPointing):
 
         '''
         time = np.arange(0, photons.meta['EXPOSURE'][0], timestep)
-        pointing = self.pointing(time).to(u.deg).value
+        pointing = np.rad2deg(self.pointing(time))
         asol = Table([time, pointing[:, 0], pointing[:, 1], pointing[:, 2]],
                      names=['time', 'ra', 'dec', 'roll'],
                      )
-- 
2.43.0


From 8361c60820a056a64b74ebfac6b41212780053a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:47 +0000
Subject: [PATCH 066/104] fix: ACIS accepts DetOffsetX, DetOffsetY and other
 keywords

---
 marxs/missions/chandra/det_acis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/chandra/det_acis.py b/marxs/missions/chandra/det_acis.py
index 19d940b..ee443ba 100644
--- a/marxs/missions/chandra/det_acis.py
+++ b/marxs/missions/chandra/det_acis.py
@@ -83,9 +83,9 @@ class ACIS(Parallel):
         # This stuff is Chandra specific, but applies to HRC, too.
         # Move to a more general class, once the HRC gets implemented.
         self.aimpoint = kwargs.pop('aimpoint')
-        self.detoffset = np.array([kwargs.pop(['DetOffsetX'], 0),
+        self.detoffset = np.array([kwargs.pop('DetOffsetX', 0),
                                     0,
-                                    kwargs.pop(['DetOffsetY'], 0)])
+                                    kwargs.pop('DetOffsetY', 0)])
         # Now the ACIS specific case
         kwargs['elem_pos'] = self.calculate_elempos()
         kwargs['elem_class'] = ACISChip
-- 
2.43.0


From 2996febc5a1ff286eb5cb9b6e11a94649d801dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:47 +0000
Subject: [PATCH 067/104] fix: ACIS keeps the list of chips when elements are
 generated again

---
 marxs/missions/chandra/det_acis.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/chandra/det_acis.py b/marxs/missions/chandra/det_acis.py
index ee443ba..7512834 100644
--- a/marxs/missions/chandra/det_acis.py
+++ b/marxs/missions/chandra/det_acis.py
@@ -92,9 +92,12 @@ class ACIS(Parallel):
         # Use 0.024 because that's more consistent with 1024 pix
         kwargs['elem_args'] = {'pixsize': 0.024 } # {'pixsize': 0.023985 }
 
-        super().__init__(**kwargs)
         self.chips = chips
-        self.elements = [self.elements[i] for i in chips]
+        super().__init__(**kwargs)
+
+    def generate_elements(self):
+        super().generate_elements()
+        self.elements = [self.elements[i] for i in self.chips]
 
     def get_corners(self):
         '''Get the coordinates of the ACIS pixel corners.
-- 
2.43.0


From 23c1f3e31af2ccbe3feeed00ef1d0216509b22d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:47 +0000
Subject: [PATCH 068/104] fix: header cleaning for Chandra event files

---
 marxs/missions/chandra/fitsheaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/fitsheaders.py b/marxs/missions/chandra/fitsheaders.py
index f4d23b5..1356a1b 100644
--- a/marxs/missions/chandra/fitsheaders.py
+++ b/marxs/missions/chandra/fitsheaders.py
@@ -87,7 +87,7 @@ DMKEYWORDS = [('MTYPE1', 'chip'), ('MFORM1', 'chipx,chipy'),
 def add_evt_column_header(header, data):
     '''Add CIAO keywords to header of an eventfile.'''
     # Clean out column related keywords that may not be valid any longer.
-    for k in header.iterkeys():
+    for k in list(header):
         if k[:5] in ['TCTYP', 'TCRVL', 'TCDLT', 'TCRPX', 'TLMIN', 'TLMAX']:
             del header[k]
     instr = header['INSTRUME'][0]
-- 
2.43.0


From e5f9cb4084831ebc7d6c74d15f1776eb6a2eee07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:47 +0000
Subject: [PATCH 069/104] fix: observation info is added to Chandra headers

---
 marxs/missions/chandra/fitsheaders.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marxs/missions/chandra/fitsheaders.py b/marxs/missions/chandra/fitsheaders.py
index 1356a1b..2951996 100644
--- a/marxs/missions/chandra/fitsheaders.py
+++ b/marxs/missions/chandra/fitsheaders.py
@@ -75,6 +75,7 @@ def complete_O(header):
          ('OBSERVER', ('MARXS', 'This is a simulation.')),
          ('FOC_LEN', (NOMINAL_FOCALLENGTH, 'Assumed focal length')),
          ]
+    update_header(header, h)
 
 
 DMKEYWORDS = [('MTYPE1', 'chip'), ('MFORM1', 'chipx,chipy'),
-- 
2.43.0


From e750b9e9f6e245164b9abc8221f56c0ebc859578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:47 +0000
Subject: [PATCH 070/104] fix: sort_columns returns the table with sorted
 columns

---
 marxs/missions/chandra/fitsheaders.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/chandra/fitsheaders.py b/marxs/missions/chandra/fitsheaders.py
index 2951996..82a86c0 100644
--- a/marxs/missions/chandra/fitsheaders.py
+++ b/marxs/missions/chandra/fitsheaders.py
@@ -192,7 +192,7 @@ def sort_columns(photons):
             endxy_ordered.append(endxy.pop(index))
             endxy_l.pop(index)   # Keep endxy_l to have the same order as endxy
 
-    endxy_ordered.extend(endxy)  # Add additional cols not part of the required order.
+    endxy_ordered.extend(sorted(endxy))  # Add additional cols not part of the required order.
 
     ordered_cols = []
     for c in endxy_ordered:
@@ -209,4 +209,4 @@ def sort_columns(photons):
     othercol = list(othercol)
     othercol.sort()
     ordered_cols.extend(othercol)
-    return photons(ordered_cols)
+    return photons[ordered_cols]
-- 
2.43.0


From 92cc013550e5c230a8269fdd777e943965264511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:33 +0000
Subject: [PATCH 071/104] fix: ACIS adds its information to the header

---
 marxs/missions/chandra/det_acis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/chandra/det_acis.py b/marxs/missions/chandra/det_acis.py
index 7512834..35e020a 100644
--- a/marxs/missions/chandra/det_acis.py
+++ b/marxs/missions/chandra/det_acis.py
@@ -152,8 +152,8 @@ class ACIS(Parallel):
             pos4d.append(A)
         return pos4d
 
-    def process_photons(self, photons, *args, **kwargs):
-        photons = super().process_photons(photons, *args, **kwargs)
+    def __call__(self, photons, *args, **kwargs):
+        photons = super().__call__(photons, *args, **kwargs)
         photons.meta['SIM_X'] = self.aimpoint[0] - self.detoffset[0]
         photons.meta['SIM_Y'] = self.aimpoint[1] - self.detoffset[1]
         photons.meta['SIM_Z'] = self.aimpoint[2] - self.detoffset[2]
-- 
2.43.0


From 6c6e0bb18b766a59634cf4cf3dad2a78e25a5c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:33 +0000
Subject: [PATCH 072/104] fix: Chandra adds its name to the header

---
 marxs/missions/chandra/chandra_global.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/chandra/chandra_global.py b/marxs/missions/chandra/chandra_global.py
index d25514a..aa76937 100644
--- a/marxs/missions/chandra/chandra_global.py
+++ b/marxs/missions/chandra/chandra_global.py
@@ -11,10 +11,10 @@ class Chandra(Sequence):
 
 
     '''
-    def process_photons(self, photons):
+    def __call__(self, photons):
         photons.meta['MISSION'] = ('AXAF', 'Mission')
         photons.meta['TELESCOP'] = ('CHANDRA', 'Telescope')
-        return super().process_photons(photons)
+        return super().__call__(photons)
 
     def write_evt(self, photons, filename):
         '''Write a Chandra event level 1 file.
-- 
2.43.0


From 47510cecf4aa8aa70a31f485c4e1cc7aa20501f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:22 +0000
Subject: [PATCH 073/104] fix: combine_disjoint_triangulations with parts of
 different size

---
 marxs/visualization/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/visualization/utils.py b/marxs/visualization/utils.py
index c905bd8..e15a8e7 100644
--- a/marxs/visualization/utils.py
+++ b/marxs/visualization/utils.py
@@ -291,7 +291,7 @@ def combine_disjoint_triangulations(list_xyz, list_triangles):
     '''
     xyz = np.vstack(list_xyz)
     n_offset = np.cumsum([a.shape[0] for a in list_xyz])
-    n_offset -= n_offset[0]
+    n_offset = np.concatenate([[0], n_offset[:-1]])
     triangles = np.vstack([list_triangles[i] + n_offset[i] for i in
                            range(len(n_offset))])
     return xyz, triangles
-- 
2.43.0


From 13e70ef9f58a8b6decdf76f03a60c3bd74a30d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:22 +0000
Subject: [PATCH 074/104] fix: name errors in plotting elements with the
 threejs backend

---
 marxs/visualization/threejs.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/marxs/visualization/threejs.py b/marxs/visualization/threejs.py
index 43dc549..4fba6ac 100644
--- a/marxs/visualization/threejs.py
+++ b/marxs/visualization/threejs.py
@@ -88,7 +88,10 @@ def materialspec(display, material):
         String that can be pasted into javasript files.
     '''
     matdict = materialdict(display, material)
-    spec = ['{0} : {1}'.format(k, matdict[v]) for k in matdict]
+    if 'color' in matdict:
+        # In javascript code, a color is a hexadecimal number, not a string
+        matdict['color'] = matdict['color'].replace('#', '0x')
+    spec = ['{0} : {1}'.format(k, matdict[k]) for k in matdict]
     return ', '.join(spec)
 
 def _format_plot_rays_input(data, scalar, cmap, prop):
@@ -171,16 +174,17 @@ doc_plot='''
 '''
 
 @format_doc(doc_plot)
-def plot_object(obj, display, outfile, **kwargs):
+def plot_object(obj, display=None, outfile=None, **kwargs):
     '''Plot any MARXS object with three.js as backend.
 
     This method will inspect the object that is passed in and select the
     correct plotting method for its shape. Javascript code to generate the correct
     represenation in three.js is added to the open file ``outfile``.
     '''
-    if 'outfile' not in kwargs:
+    if outfile is None:
         raise TypeError('Required argument "outfile" missing.')
-    out = plot_object_general(plot_registry, obj, display=display,outfile=outfile, **kwargs)
+    out = utils.plot_object_general(plot_registry, obj, display=display,
+                                    outfile=outfile, **kwargs)
     return out
 
 
@@ -192,29 +196,29 @@ def container(obj, display, outfile):
     (if it is a container). We need to flatten the list here to avoid
     arbitrarily deep recursion.
     '''
-    return [plot_obj(e, e.display, outfile) for e in obj.elements]
+    return [plot_object(e, outfile=outfile) for e in obj.elements]
 
 @format_doc(doc_plot)
-def box(obs, display, outfile):
+def box(obj, display, outfile):
     '''Output three.js commands to include a box-shaped optical element.'''
     matrixstring = ', '.join([str(i) for i in obj.pos4d.flatten()])
     if not ('side' in display):
         display['side'] = 'THREE.DoubleSide'
-    materialspec = materialspec(display, 'MeshStandardMaterial')
+    material = materialspec(display, 'MeshStandardMaterial')
     outfile.write('''
     var geometry = new THREE.BoxGeometry( 2, 2, 2 );
-    var material = new THREE.MeshStandardMaterial( {{ {materialspec} }} );
+    var material = new THREE.MeshStandardMaterial( {{ {material} }} );
     var mesh = new THREE.Mesh( geometry, material );
     mesh.matrixAutoUpdate = false;
     mesh.matrix.set({matrix});
-    scene.add( mesh );'''.format(materialspec=materialspec,
+    scene.add( mesh );'''.format(material=material,
                                  matrix=matrixstring))
 
 @format_doc(doc_plot)
 def triangulation(obj, display, outfile):
     '''Output commands for a plane with an inner hole.'''
     xyz, triangles = obj.geometry.triangulate(display)
-    materialspec = materialspec(display, 'MeshStandardMaterial')
+    material = materialspec(display, 'MeshStandardMaterial')
     outfile.write('// {}\n'.format(obj.name))
     outfile.write('var geometry = new THREE.BufferGeometry(); \n')
     outfile.write('var vertices = new Float32Array([')
@@ -232,10 +236,10 @@ def triangulation(obj, display, outfile):
     geometry.setIndex(new THREE.BufferAttribute( faces, 1 ) );
     ''')
 
-    outfile.write('''var material = new THREE.MeshStandardMaterial({{ {materialspec} }});
+    outfile.write('''var material = new THREE.MeshStandardMaterial({{ {material} }});
         var mesh = new THREE.Mesh( geometry, material );
         scene.add( mesh );
-        '''.format(materialspec=materialspec))
+        '''.format(material=material))
 
 @format_doc(doc_plot)
 def torus(obj, display, outfile):
@@ -247,7 +251,7 @@ def torus(obj, display, outfile):
     '''
     theta = display.get('coo1', [0, 2 * np.pi])
     phi = display.get('coo2', [0, 2 * np.pi])
-    materialspec = materialspec(obj.display, 'MeshStandardMaterial')
+    material = materialspec(display, 'MeshStandardMaterial')
     torusparameters = '{0}, {1}, {2}, {3}, {4}, {5}, {6}, {7}'.format(obj.R, obj.r,
                                                                       int(np.rad2deg(theta[1])),
                                                                       int(np.rad2deg(phi[1])),
@@ -260,11 +264,11 @@ def torus(obj, display, outfile):
 
     outfile.write('''
     var geometry = new THREE.ModifiedTorusBufferGeometry({torusparameters});
-    var material = new THREE.MeshStandardMaterial({{ {materialspec} }});
+    var material = new THREE.MeshStandardMaterial({{ {material} }});
     var mesh = new THREE.Mesh( geometry, material );
     mesh.matrixAutoUpdate = false;
     mesh.matrix.set({matrix});
-    scene.add( mesh );'''.format(materialspec=materialspec,
+    scene.add( mesh );'''.format(material=material,
                                  torusparameters=torusparameters,
                                  matrix=matrixstring))
 
-- 
2.43.0


From b878871fb81133b9a4ce5c6efbf087ea37e64af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:22 +0000
Subject: [PATCH 075/104] fix: plot_rays in the threejs backend

---
 marxs/visualization/threejs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marxs/visualization/threejs.py b/marxs/visualization/threejs.py
index 4fba6ac..f0e341a 100644
--- a/marxs/visualization/threejs.py
+++ b/marxs/visualization/threejs.py
@@ -40,6 +40,7 @@ listofproperties = {'Material': ['id', 'name', 'opacity', 'transparent', 'blendi
 def array2string(array):
     '''Flatten array and return string representation for insertion into js.'''
     return np.array2string(array.flatten(), max_line_width=1000, separator=',',
+                           threshold=np.inf,
                            formatter={'float_kind': '{0:.1f}'.format})
 
 def materialdict(display, material):
@@ -114,6 +115,8 @@ def _format_plot_rays_input(data, scalar, cmap, prop):
     normalizer = plt.Normalize()
     s_rgb = cmap(normalizer(s))
 
+    # Do not change the dictionary that is passed in
+    prop = dict(prop)
     if 'vertexColors' not in prop:
         prop['vertexColors'] = 2 # 2 = 'THREE.VertexColors'
 
@@ -142,7 +145,7 @@ def plot_rays(data, outfile, scalar=None, cmap=None,
         If ``None`` the default matplotlib colormap will be used, otherwise the colormap
         can be specified in this keyword.
     '''
-    data, s_rgb, prop, n = _format_plot_rays_input(data, scalar, cmap, prob)
+    data, s_rgb, prop, n = _format_plot_rays_input(data, scalar, cmap, prop)
     material = materialspec(prop, 'LineBasicMaterial')
 
     for i in range(n):
-- 
2.43.0


From 3d48ec11fa3542722e3e7496031d47b536b68ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:22 +0000
Subject: [PATCH 076/104] fix: vertexColors for rays in threejsjson

---
 marxs/visualization/threejsjson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/visualization/threejsjson.py b/marxs/visualization/threejsjson.py
index 51fd38b..337daf9 100644
--- a/marxs/visualization/threejsjson.py
+++ b/marxs/visualization/threejsjson.py
@@ -182,7 +182,7 @@ def plot_rays(data, scalar=None, prop={}, name='Photon list', cmap=None):
         If ``None`` the default matplotlib colormap will be used, otherwise the colormap
         can be specified in this keyword.
     '''
-    data, s_rgb, prob, n = threejs._format_plot_rays_input(data, scalar, cmap, prop)
+    data, s_rgb, prop, n = threejs._format_plot_rays_input(data, scalar, cmap, prop)
 
     out = {}
     out['n'] = n
-- 
2.43.0


From 4155aa24bc50258c5d61643c8aba482ff84a6cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:22 +0000
Subject: [PATCH 077/104] fix: name error when plotting containers in
 threejsjson

---
 marxs/visualization/threejsjson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/visualization/threejsjson.py b/marxs/visualization/threejsjson.py
index 337daf9..3643e38 100644
--- a/marxs/visualization/threejsjson.py
+++ b/marxs/visualization/threejsjson.py
@@ -88,7 +88,7 @@ def container(obj, display=None,  **kwargs):
     '''
     out = []
     for elem in obj.elements:
-        elemout = plot_obj(elem, elem.display)
+        elemout = plot_object(elem)
         if isinstance(elemout, list):
             out.extend(elemout)
         elif (elemout is None):
-- 
2.43.0


From cc0d8213e79735b3f9ba96c45301f53a250933c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:22 +0000
Subject: [PATCH 078/104] fix: write metadata of photon list in threejsjson

---
 marxs/visualization/threejsjson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/visualization/threejsjson.py b/marxs/visualization/threejsjson.py
index 3643e38..656cc6a 100644
--- a/marxs/visualization/threejsjson.py
+++ b/marxs/visualization/threejsjson.py
@@ -219,7 +219,7 @@ def write(fileobject, data, photons=None):
              'elements': data}
 
     if photons is not None:
-        data['runinfo'] = photons.meta()
+        jdata['runinfo'] = dict(photons.meta)
 
     if HAS_JSONSCHEMA:
         path =  os.path.abspath(os.path.dirname(__file__))
-- 
2.43.0


From 3dd04d12e12f5c91093b61d5f119671147937f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:22 +0000
Subject: [PATCH 079/104] fix: x3d plotting functions return the scene

---
 marxs/visualization/x3d.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marxs/visualization/x3d.py b/marxs/visualization/x3d.py
index 24c4cd1..bb63ef6 100644
--- a/marxs/visualization/x3d.py
+++ b/marxs/visualization/x3d.py
@@ -246,6 +246,7 @@ def indexed_triangle_set(xyz, index, display, *, scene):
                      geometry=x3d.IndexedTriangleSet(coord=x3d.Coordinate(point=_format_points(xyz)),
                                                      index=[int(i) for i in index.reshape(-1, 3).flatten()],
                                                      solid=False, colorPerVertex=False)))
+    return scene
 
 
 @empty_scene
@@ -279,6 +280,7 @@ def surface(obj, display, *, scene):
                                         x3d.Coordinate(point=_format_points(xyz.reshape((-1, 3)))),
                                         coordIndex=list(coordIndex),
                                         solid=False, colorPerVertex=False)))
+    return scene
 
 
 @empty_scene
@@ -345,6 +347,7 @@ def box(obj, display, *, scene):
         ),
     )
     scene.children.append(shape)
+    return scene
 
 @empty_scene
 @format_doc(doc_plot)
-- 
2.43.0


From 5a169741a91f35f9dc3c9619ee49afc9137a9396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:22 +0000
Subject: [PATCH 080/104] fix: x3d.plot_rays with a scalar for each node

---
 marxs/visualization/x3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/visualization/x3d.py b/marxs/visualization/x3d.py
index bb63ef6..557d97b 100644
--- a/marxs/visualization/x3d.py
+++ b/marxs/visualization/x3d.py
@@ -426,7 +426,7 @@ def plot_rays(
         pass
     elif scalar.shape == (n, N):
         warn('Color Per Vertex does not yet work in the X3D library used. Using only color for first node in each ray.')
-        scalar = scalar[0, :]
+        scalar = scalar[:, 0]
     else:
         raise ValueError('Scalar quantity for each point must have shape ({0},) or ({0}, {1})'.format(n, N))
 
-- 
2.43.0


From 94e54e8177021448e0a141ecd7053567d9544260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:00 +0000
Subject: [PATCH 081/104] fix: interpolation of LSFPARM tables with several
 extraction widths

---
 marxs/reduction/lsfparm.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/marxs/reduction/lsfparm.py b/marxs/reduction/lsfparm.py
index 7bd0223..597ac4f 100644
--- a/marxs/reduction/lsfparm.py
+++ b/marxs/reduction/lsfparm.py
@@ -239,6 +239,21 @@ class interp1d_2dsignature(interpolate.interp1d):
         return super().__call__(y)
 
 
+class interp2d_spline(interpolate.RectBivariateSpline):
+    '''2D interpolation on the grid of WIDTHS and LAMBDAS
+
+    This replaces `scipy.interpolate.interp2d`, which has been removed
+    from scipy. ``z`` has the shape ``(len(x), len(y))``.
+    '''
+    def __init__(self, x, y, z, kind='cubic', **kwargs):
+        k = {'linear': 1, 'cubic': 3, 'quintic': 5}[kind]
+        super().__init__(x, y, z, kx=min(k, len(x) - 1),
+                         ky=min(k, len(y) - 1), **kwargs)
+
+    def __call__(self, x, y):
+        return super().__call__(x, y)[0]
+
+
 def CALDB_interp(row, kind='cubic', **kwargs):
     '''Get interpolating functions from values in LSFPARM
 
@@ -248,12 +263,13 @@ def CALDB_interp(row, kind='cubic', **kwargs):
         Table row from CALDB LSFPARM file
     **kwargs
         All other keywords arguments are passed to
-        `scipy.interpolate.interp1d` or `scipy.interpolate.interp2d`.
+        `scipy.interpolate.interp1d` or
+        `scipy.interpolate.RectBivariateSpline`.
     '''
     interpolators = {}
 
     if row['NUM_WIDTHS'] > 1:
-        interp = interpolate.interp2d
+        interp = interp2d_spline
     else:
         interp = interp1d_2dsignature
 
-- 
2.43.0


From 7d6e712293842bfa27affe0d84874b9d1a0043ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:00 +0000
Subject: [PATCH 082/104] fix: DATE and HDUCLASS in LSFPARM tables are strings

---
 marxs/reduction/lsfparm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/reduction/lsfparm.py b/marxs/reduction/lsfparm.py
index 597ac4f..b1ea0b5 100644
--- a/marxs/reduction/lsfparm.py
+++ b/marxs/reduction/lsfparm.py
@@ -183,9 +183,9 @@ def empty_lsfparmtable(widths, waves, model, extname, order):
     tab.meta['RAND_TG'] = '0.0'   # make this a parameter
     tab.meta['LONGSTRN'] = 'OGIP 1.0'
     tab.meta['CREATOR'] = 'lsfparm.py'  # update
-    tab.meta['DATE'] = str(datetime.datetime.now()).replace(' ', 'T')[:19],
+    tab.meta['DATE'] = str(datetime.datetime.now()).replace(' ', 'T')[:19]
     tab.meta['CONTENT'] = 'CDB_' + tab.meta['EXTNAME'] + '_LSFPARM'
-    tab.meta['HDUCLASS'] = 'ASC',
+    tab.meta['HDUCLASS'] = 'ASC'
     tab.meta['HDUCLAS1'] = 'PARAMETERS'
     tab.meta['HDUCLAS2'] = 'PSF'
     tab.meta['HDUCLAS3'] = 'LSF'
-- 
2.43.0


From d0f35486137ada0a88e3fbd7cbbc73e624d1e539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:35 +0000
Subject: [PATCH 083/104] fix: TagVersion writes ORIGIN and CREATOR

---
 marxs/base/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/base/base.py b/marxs/base/base.py
index c017e6d..91fba7f 100644
--- a/marxs/base/base.py
+++ b/marxs/base/base.py
@@ -121,6 +121,8 @@ class TagVersion(MarxsElement):
                  **kwargs):
         super().__init__(name=kwargs.pop('name', self.__class__))
 
+        kwargs['ORIGIN'] = ORIGIN
+        kwargs['CREATOR'] = CREATOR
         kwargs['MARXSVER'] = (ver.group('version'), 'MARXS code version')
         if not ver.group('gittag') is None:
             kwargs['MARXSGIT'] = (ver.group('gittag'),
-- 
2.43.0


From cff205bb26e7236ec7cef856a611f16d3cd06764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:35 +0000
Subject: [PATCH 084/104] fix: check_energy_consistent for photon lists without
 photons

---
 marxs/base/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/base/base.py b/marxs/base/base.py
index 91fba7f..e66b187 100644
--- a/marxs/base/base.py
+++ b/marxs/base/base.py
@@ -189,7 +189,7 @@ def check_energy_consistent(photons):
 
     If there is no energy colum, then this also passes.
     '''
-    if 'energy' in photons.colnames:
+    if 'energy' in photons.colnames and len(photons) > 0:
         assert np.allclose(photons['energy'], photons['energy'][0])
 
 
-- 
2.43.0


From c1d809a7e89ed9c24fd7ab0ce304dd937d68c73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:59 +0000
Subject: [PATCH 085/104] fix: WCS type of the declination in Chandra event
 files

---
 marxs/missions/chandra/fitsheaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/fitsheaders.py b/marxs/missions/chandra/fitsheaders.py
index 82a86c0..811173b 100644
--- a/marxs/missions/chandra/fitsheaders.py
+++ b/marxs/missions/chandra/fitsheaders.py
@@ -113,7 +113,7 @@ def add_evt_column_header(header, data):
     header['TCDLT{0}'.format(indx)] = -PIXSIZE[instr]  # - because RA increases to left
     header['TCRPX{0}'.format(indx)] = odet[0]
     indy = colnamesup.index('Y') + 1
-    header['TCTYP{0}'.format(indy)] = 'DEC---TAN'
+    header['TCTYP{0}'.format(indy)] = 'DEC--TAN'
     header['TCRVL{0}'.format(indy)] = header['DEC_PNT']
     header['TCDLT{0}'.format(indy)] = PIXSIZE[instr]
     header['TCRPX{0}'.format(indy)] = odet[1]
-- 
2.43.0


From 8a16613e8527f790b8f7e88f8de84c7123bd9577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:59 +0000
Subject: [PATCH 086/104] fix: WCS is written to Chandra event files

---
 marxs/missions/chandra/chandra_global.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/chandra_global.py b/marxs/missions/chandra/chandra_global.py
index aa76937..67ae1fa 100644
--- a/marxs/missions/chandra/chandra_global.py
+++ b/marxs/missions/chandra/chandra_global.py
@@ -1,6 +1,6 @@
 # Licensed under GPL version 3 - see LICENSE.rst
 
-import numpy as np
+from astropy.io import fits
 
 from .fitsheaders import complete_header
 from ...simulator import Sequence
@@ -36,4 +36,9 @@ class Chandra(Sequence):
         photons.rename_column('dec', 'marxs_dec')
         complete_header(photons.meta, photons, 'EVT1', ['OGIP', 'EVENTS', 'ALL'])
         photons.write(filename, format='fits')
+        # astropy does not copy column specific keywords from the meta data
+        with fits.open(filename, mode='update') as hdulist:
+            for k in photons.meta:
+                if k[:5] in ['TCTYP', 'TCRVL', 'TCDLT', 'TCRPX']:
+                    hdulist[1].header[k] = photons.meta[k]
         # add_GTIs(filename)
-- 
2.43.0


From b134bfa6dd685507dcc0cbc1c2efa85c6bc2df9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:13 +0000
Subject: [PATCH 087/104] fix: displayed range and position of a torus in the
 three.js backends

---
 marxs/visualization/threejs.py     | 30 +++++++++++++++++++-----------
 marxs/visualization/threejsjson.py |  9 ++-------
 2 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/marxs/visualization/threejs.py b/marxs/visualization/threejs.py
index f0e341a..5a50810 100644
--- a/marxs/visualization/threejs.py
+++ b/marxs/visualization/threejs.py
@@ -244,6 +244,22 @@ def triangulation(obj, display, outfile):
         scene.add( mesh );
         '''.format(material=material))
 
+def torusparameters(obj, display):
+    '''Parameters of a ModifiedTorusBufferGeometry for a Rowland torus.
+
+    In three.js the first angle runs around the axis of the torus (that is
+    ``phi`` in MARXS) and the second one around the tube (``theta`` in MARXS).
+    Each range is given as length and starting value.
+    '''
+    theta = display.get('coo1', [0, 2 * np.pi])
+    phi = display.get('coo2', [0, 2 * np.pi])
+    d_theta = float(theta[-1] - theta[0])
+    d_phi = float(phi[-1] - phi[0])
+    return (obj.R, obj.r,
+            max(int(np.rad2deg(d_theta)), 1), max(int(np.rad2deg(d_phi)), 1),
+            d_phi, float(phi[0]), d_theta, float(theta[0]))
+
+
 @format_doc(doc_plot)
 def torus(obj, display, outfile):
     '''Output commands to display (part of) a torus.
@@ -252,27 +268,19 @@ def torus(obj, display, outfile):
     in the ``display`` dictionary. There entries should be a list of value if less then
     the full torus (ranging from 0 to 2 pi in each coordinate) is desired for the plot.
     '''
-    theta = display.get('coo1', [0, 2 * np.pi])
-    phi = display.get('coo2', [0, 2 * np.pi])
     material = materialspec(display, 'MeshStandardMaterial')
-    torusparameters = '{0}, {1}, {2}, {3}, {4}, {5}, {6}, {7}'.format(obj.R, obj.r,
-                                                                      int(np.rad2deg(theta[1])),
-                                                                      int(np.rad2deg(phi[1])),
-                                                                      theta[1],
-                                                                      theta[0],
-                                                                      phi[1],
-                                                                      phi[0])
+    parameters = ', '.join([str(p) for p in torusparameters(obj, display)])
     rot = np.array([[1,0,0,0],[0,0,1,0],[0,1,0,0],[0,0,0,1.]])
     matrixstring = ', '.join([str(i) for i in np.dot(obj.pos4d, rot).flatten()])
 
     outfile.write('''
-    var geometry = new THREE.ModifiedTorusBufferGeometry({torusparameters});
+    var geometry = new THREE.ModifiedTorusBufferGeometry({parameters});
     var material = new THREE.MeshStandardMaterial({{ {material} }});
     var mesh = new THREE.Mesh( geometry, material );
     mesh.matrixAutoUpdate = false;
     mesh.matrix.set({matrix});
     scene.add( mesh );'''.format(material=material,
-                                 torusparameters=torusparameters,
+                                 parameters=parameters,
                                  matrix=matrixstring))
 
 plot_registry = {'triangulation': triangulation,
diff --git a/marxs/visualization/threejsjson.py b/marxs/visualization/threejsjson.py
index 656cc6a..7471d67 100644
--- a/marxs/visualization/threejsjson.py
+++ b/marxs/visualization/threejsjson.py
@@ -139,19 +139,14 @@ def torus(obj, display, theta0=0., thetaarc=2*np.pi, phi0=0., phiarc=np.pi * 2):
     in the ``display`` dictionary. There entries should be a list of value if less then
     the full torus (ranging from 0 to 2 pi in each coordinate) is desired for the plot.
     '''
-    theta = display.get('coo1', [0, 2 * np.pi])
-    phi = display.get('coo2', [0, 2 * np.pi])
-
     out = {}
     out['n'] = 1
     out['name'] = str(obj.name)
     out['material'] = 'MeshStandardMaterial'
     out['materialproperties'] = threejs.materialdict(display, out['material'])
     out['geometry'] = 'ModifiedTorusBufferGeometry'
-    out['geometrypars'] = (obj.R, obj.r,
-                           int(np.rad2deg(theta[1])), int(np.rad2deg(phi[1])),
-                           theta[1], theta[0], phi[1], phi[0])
-    out['pos4d'] = [obj.pos4d.flatten().tolist()]
+    out['geometrypars'] = threejs.torusparameters(obj, display)
+    out['pos4d'] = [obj.pos4d.T.flatten().tolist()]
 
     if not ('side' in display):
         out['materialproperties']['side'] = 2
-- 
2.43.0


From e86dc9b6c324ba925d0c9d5ef83e8fcde93c4036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:31 +0000
Subject: [PATCH 088/104] fix: plotting with threejs does not change the
 display settings

---
 marxs/visualization/threejs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marxs/visualization/threejs.py b/marxs/visualization/threejs.py
index 5a50810..9802b4b 100644
--- a/marxs/visualization/threejs.py
+++ b/marxs/visualization/threejs.py
@@ -205,9 +205,9 @@ def container(obj, display, outfile):
 def box(obj, display, outfile):
     '''Output three.js commands to include a box-shaped optical element.'''
     matrixstring = ', '.join([str(i) for i in obj.pos4d.flatten()])
-    if not ('side' in display):
-        display['side'] = 'THREE.DoubleSide'
-    material = materialspec(display, 'MeshStandardMaterial')
+    # Do not change the display settings of the object itself
+    material = materialspec({'side': 'THREE.DoubleSide', **display},
+                            'MeshStandardMaterial')
     outfile.write('''
     var geometry = new THREE.BoxGeometry( 2, 2, 2 );
     var material = new THREE.MeshStandardMaterial( {{ {material} }} );
-- 
2.43.0


From b9ab46fd831c4e9e179f0f3ae547c7ee84b24b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:17 +0000
Subject: [PATCH 089/104] fix: Arcus: use the configuration passed in, not the
 default, for the circular detector, mkarf and tg_resolve

---
 marxs/missions/arcus/analyze_grid.py | 3 ++-
 marxs/missions/arcus/arcus.py        | 6 +++---
 marxs/missions/arcus/arfrmf.py       | 2 +-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/marxs/missions/arcus/analyze_grid.py b/marxs/missions/arcus/analyze_grid.py
index 1ee3a18..e66388d 100644
--- a/marxs/missions/arcus/analyze_grid.py
+++ b/marxs/missions/arcus/analyze_grid.py
@@ -213,7 +213,8 @@ def tg_resolve_events_circdet(evt, defaultconf):
     # effective_grating_period = np.mean(facets['period']) * facets['period'].unit
 
 
-    ang_r0 = zeropos('circ_phi', evt.meta['CHANNEL']) * u.rad
+    ang_r0 = zeropos('circ_phi', evt.meta['CHANNEL'],
+                     conf=defaultconf) * u.rad
     evt['tg_r'] = (-(ang_r0 - evt['circ_phi']) / 2).to(u.degree)
     l = 2 * defaultconf['rowland_central'].r * u.mm * np.cos(ang_r0 - evt['circ_phi'])
     dy = defaultconf['pos_opt_ax'][evt.meta['CHANNEL']][1] * u.mm - evt['circ_y']
diff --git a/marxs/missions/arcus/arcus.py b/marxs/missions/arcus/arcus.py
index d903aa0..ffd87eb 100644
--- a/marxs/missions/arcus/arcus.py
+++ b/marxs/missions/arcus/arcus.py
@@ -434,10 +434,10 @@ class PerfectArcus(Sequence):
         # rotate such that phi=0 is at the bottom
         rot = transforms3d.axangles.axangle2mat(np.array([0, 1, 0]), np.pi)
         circdet = CircularDetector(orientation=xyz2zxy[:3, :3] @ rot,
-                                   zoom=[defaultconf['rowland_detector'].r,
-                                         defaultconf['rowland_detector'].r,
+                                   zoom=[conf['rowland_detector'].r,
+                                         conf['rowland_detector'].r,
                                          20],
-                                   position=[0, 0, np.sqrt(defaultconf['rowland_detector'].r**2 - conf['d']**2)],
+                                   position=[0, 0, np.sqrt(conf['rowland_detector'].r**2 - conf['d']**2)],
                                    )
         circdet.display['opacity'] = 0.1
         circdet.detpix_name = ['circpix_x', 'circpix_y']
diff --git a/marxs/missions/arcus/arfrmf.py b/marxs/missions/arcus/arfrmf.py
index de04cb4..8d67351 100644
--- a/marxs/missions/arcus/arfrmf.py
+++ b/marxs/missions/arcus/arfrmf.py
@@ -203,7 +203,7 @@ def mkarf(channel_edges, order,
     specresp_sim = mirr_grat(en_mid, order)
     all_onccd = np.zeros(len(specresp_filtqe))
     for chan in channels:
-        if chan not in defaultconf['pos_opt_ax'].keys():
+        if chan not in conf['pos_opt_ax'].keys():
             raise ValueError(f'channel {chan} not defined in Arcus')
         specresp_onccd = onccd(en_mid, order, chan)
         all_onccd += specresp_onccd
-- 
2.43.0


From 8184bf0e3e71bc49fa0a2aba6b8c168b5896ee62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:40 +0000
Subject: [PATCH 090/104] fix: PerfectLensSegment reads the reflectivity table
 in the unit it is given in

---
 marxs/missions/lynx/mirror.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marxs/missions/lynx/mirror.py b/marxs/missions/lynx/mirror.py
index 04d740f..b84f6ac 100644
--- a/marxs/missions/lynx/mirror.py
+++ b/marxs/missions/lynx/mirror.py
@@ -1,4 +1,5 @@
 # Licensed under GPL version 3 - see LICENSE.rst
+import astropy.units as u
 import numpy as np
 from copy import deepcopy
 from scipy.interpolate import interp1d, RectBivariateSpline
@@ -93,7 +94,7 @@ class PerfectLensSegment(optics.PerfectLens):
         refl =  Table.read(get_pkg_data_filename(f"data/{conf['mirrorcoating']}"),
                            format='ascii.ecsv')
         self.reflectivity_interpolator = RectBivariateSpline(
-            refl["energy"],
+            refl["energy"].to(u.keV),
             [np.deg2rad(float(c)) for c in refl.colnames[1:]],
             np.stack([refl[c] for c in refl.columns[1:]]).T,
         )
-- 
2.43.0


From 8e833e38f539d87b824300d749d43ef45d059174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:40 +0000
Subject: [PATCH 091/104] fix: MetaShellEfficiency uses the row of each
 metashell, whatever the order of the serial numbers

---
 marxs/missions/lynx/mirror.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/lynx/mirror.py b/marxs/missions/lynx/mirror.py
index b84f6ac..f6bb431 100644
--- a/marxs/missions/lynx/mirror.py
+++ b/marxs/missions/lynx/mirror.py
@@ -66,8 +66,8 @@ class MetaShellEfficiency(SimulationSequenceElement):
         # factor 100 is to transform cm^2 to mm^2
         ageom = np.pi * (data['r_outer']**2 - data['r_inner']**2)
         self.relative_eff = aeff * 100 / ageom[:, None]
-        self.shells = [(i, interp1d(eff['energy'], self.relative_eff[i - 1, :]))
-                       for i in data['Metashell Serial Number']]
+        self.shells = [(i, interp1d(eff['energy'], self.relative_eff[j, :]))
+                       for j, i in enumerate(data['Metashell Serial Number'])]
 
     def __call__(self, photons):
         for i, func in self.shells:
-- 
2.43.0


From eb9d0d4038dba9479273efe76c779508bda65059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:40 +0000
Subject: [PATCH 092/104] fix: Lynx applies the chirp to the class of gratings
 that it uses

---
 marxs/missions/lynx/lynx.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/marxs/missions/lynx/lynx.py b/marxs/missions/lynx/lynx.py
index 401288f..45a808b 100644
--- a/marxs/missions/lynx/lynx.py
+++ b/marxs/missions/lynx/lynx.py
@@ -25,9 +25,10 @@ from marxs import optics, simulator, design, analysis
 from marxs.design.rowland import (design_tilted_torus, RowlandTorus,
                                   CircularMeshGrid)
 from marxs.math.geometry import Cylinder
-from marxs.optics import FlatDetector, CATGrating
+from marxs.optics import FlatDetector
 from marxs.simulator import Propagator
-from marxs.missions.mitsnl.catgrating import CATL1L2Stack, catsupportbars, l1_order_selector
+from marxs.missions.mitsnl.catgrating import (CATL1L2Stack, NonParallelCATGrating,
+                                               catsupportbars, l1_order_selector)
 from marxs.design import tolerancing as tol
 from marxs.design.bendgratings import NumericalChirpFinder, chirp_gratings
 
@@ -196,7 +197,7 @@ class PerfectLynx(simulator.Sequence):
                                           postprocess_steps=self.post_process(),
                                           **kwargs)
         if ('chirp_energy' in conf) and ('chirp_order' in conf):
-            gratings = self.elements_of_class(CATGrating, subclass_ok=False)
+            gratings = self.elements_of_class(NonParallelCATGrating, subclass_ok=False)
             opt = NumericalChirpFinder(detcirc,
                                        order=conf['chirp_order'],
                                        energy=conf['chirp_energy'],
-- 
2.43.0


From 93da41538992137bfbd514c8b55b4ce2563d4f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:40 +0000
Subject: [PATCH 093/104] fix: Lynx CCDs are placed around the dispersed
 spectrum and do not overwrite the grating number

---
 marxs/missions/lynx/lynx.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/lynx/lynx.py b/marxs/missions/lynx/lynx.py
index 45a808b..10826df 100644
--- a/marxs/missions/lynx/lynx.py
+++ b/marxs/missions/lynx/lynx.py
@@ -133,8 +133,14 @@ class LynxGAS(CircularMeshGrid):
 
 class RowlandDetArray(design.rowland.RectangularGrid):
     def __init__(self, conf):
-        super(RowlandDetArray, self).__init__(rowland=conf['rowland'], **conf['det_kwargs'],
-                                              guess_distance=25.)
+        # y_range is given with respect to the focal point, but the grid is
+        # measured from the center of the torus.
+        y_offset = conf['rowland'].geometry['center'][1]
+        det_kwargs = dict(conf['det_kwargs'])
+        det_kwargs['y_range'] = np.array(det_kwargs['y_range']) - y_offset
+        super(RowlandDetArray, self).__init__(rowland=conf['rowland'], **det_kwargs,
+                                              guess_distance=-25.,
+                                              id_col='CCD_ID')
 
 
 # Place an additional detector on the Rowland circle.
-- 
2.43.0


From be4b0873075c794969baee5ffba0737552acc6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:40 +0000
Subject: [PATCH 094/104] fix: AXIS CCDs are on the branch of the Rowland
 circle that contains the focus

---
 marxs/missions/AXIS/AXIS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/AXIS/AXIS.py b/marxs/missions/AXIS/AXIS.py
index dfe05b5..9673eb7 100644
--- a/marxs/missions/AXIS/AXIS.py
+++ b/marxs/missions/AXIS/AXIS.py
@@ -120,7 +120,7 @@ class RowlandDetArray(design.rowland.RectangularGrid):
                          d_element=conf['det_kwargs']['d_element'],
                          elem_args=conf['det_kwargs']['elem_args'],
                          elem_class=conf['det_kwargs']['elem_class'],
-                         guess_distance=25.,
+                         guess_distance=-25.,
                          id_col='CCD_ID')
 
 
-- 
2.43.0


From 388634ee044cdec654c2f5a175e90059e2f283fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:40 +0000
Subject: [PATCH 095/104] fix: AXIS imaging detector has separate names for
 pixels and coordinates

---
 marxs/missions/AXIS/AXIS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/AXIS/AXIS.py b/marxs/missions/AXIS/AXIS.py
index 9673eb7..22aa8e1 100644
--- a/marxs/missions/AXIS/AXIS.py
+++ b/marxs/missions/AXIS/AXIS.py
@@ -127,7 +127,7 @@ class RowlandDetArray(design.rowland.RectangularGrid):
 imaging = FlatDetector(zoom=[1, 15, 15], pixsize=0.008)
 # zero-order detector based on https://axis.astro.umd.edu/images/proposal.pdf
 imaging.loc_coos_name = ['imaging_x', 'imaging_y']
-imaging.detpix_name = ['imaging_x', 'imaging_y']
+imaging.detpix_name = ['imagingpix_x', 'imagingpix_y']
 
 
 # Place an additional detector on the Rowland circle.
-- 
2.43.0


From 17bf0c569a981f5d4f6a14e08c8626ea32c70222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:40 +0000
Subject: [PATCH 096/104] fix: plot_wiggle labels the second set of axes of any
 type

---
 marxs/design/tolerancing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/tolerancing.py b/marxs/design/tolerancing.py
index d92aa83..1cfc9df 100644
--- a/marxs/design/tolerancing.py
+++ b/marxs/design/tolerancing.py
@@ -617,7 +617,7 @@ class WigglePlotter():
             case None if self.y2label is not None:
                axt = ax.twinx()
                axlist.append(axt)
-            case matplotlib.axes.SubplotBase():
+            case matplotlib.axes.Axes():
                 axlist.append(axt)
 
         for key, g in zip(t_wave.groups.keys, t_wave.groups):
-- 
2.43.0


From ee74ca3b80a384a13214a0c194c0a528b26e895f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:40 +0000
Subject: [PATCH 097/104] fix: load_and_plot does not overwrite the color given
 by the user

---
 marxs/design/tolerancing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/tolerancing.py b/marxs/design/tolerancing.py
index 1cfc9df..a08a8f0 100644
--- a/marxs/design/tolerancing.py
+++ b/marxs/design/tolerancing.py
@@ -686,7 +686,7 @@ class WigglePlotter():
 
         tab = Table.read(filename)
 
-        if 'axis_facecolor' not in kwargs:
+        if 'axes_facecolor' not in kwargs:
             for n, c in self.bg_colors.items():
                 if n in filename:
                     kwargs['axes_facecolor'] = c
-- 
2.43.0


From f07a2ae2cd400342016614773ec909d4bdd3c5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:40 +0000
Subject: [PATCH 098/104] fix: RegularGrid places the gratings of mirrored
 channels between mirror and focus

---
 marxs/missions/arcus/ralfgrating.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/marxs/missions/arcus/ralfgrating.py b/marxs/missions/arcus/ralfgrating.py
index b9f8e77..c0c42c8 100644
--- a/marxs/missions/arcus/ralfgrating.py
+++ b/marxs/missions/arcus/ralfgrating.py
@@ -138,12 +138,11 @@ class RegularGrid(Sequence):
 
         for chan in channels:
             sig = 1 if '1' in chan else -1
-            is_m = -1 if 'm' in chan else +1
             gratinggrid['rowland'] = conf['rowland_' + chan]
             b = blazematm if 'm' in chan else blazemat
             gratinggrid['elem_args']['orientation'] = b
             gratinggrid['normal_spec'] = conf['pos_opt_ax'][chan].copy()
-            gratinggrid['guess_distance'] = is_m * (conf['rowland_central'].r + conf['rowland_central'].R)
+            gratinggrid['guess_distance'] = (conf['rowland_central'].r + conf['rowland_central'].R)
 
             y_range = [-grid_width_y, grid_width_y]
             z_range = [sig * (rmid - grid_width_z),
-- 
2.43.0


From 48a466aa83ae9ffe42f19629c3dcbd91f3539580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:41 +0000
Subject: [PATCH 099/104] fix: complete_header default values have the
 documented types

---
 marxs/missions/chandra/fitsheaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/fitsheaders.py b/marxs/missions/chandra/fitsheaders.py
index 811173b..4c9759e 100644
--- a/marxs/missions/chandra/fitsheaders.py
+++ b/marxs/missions/chandra/fitsheaders.py
@@ -120,7 +120,7 @@ def add_evt_column_header(header, data):
     header['RADECSYS'] = ('ICRS', 'WCS system')
 
 
-def complete_header(header, data=None, content=['UNKNOWN'], hduclass='UNKNOWN'):
+def complete_header(header, data=None, content='UNKNOWN', hduclass=['UNKNOWN']):
     '''Complete fits header for Chandra fits files.
 
     This method add the common keywords that are required for all CXC fit files.
-- 
2.43.0


From 91d3592a3f7b1aeeee1cc55ff8260b7f435627f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:52 +0000
Subject: [PATCH 100/104] fix: MarxMirror does not square the probability of
 the incoming photons

---
 marxs/optics/marx.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/marxs/optics/marx.py b/marxs/optics/marx.py
index 0cd9cc4..ceaa28e 100644
--- a/marxs/optics/marx.py
+++ b/marxs/optics/marx.py
@@ -185,17 +185,16 @@ class MarxMirror(OpticalElement, BaseAperture):
     def __call__(self, photons_in, verbose=0):
         self.add_colpos(photons_in)
         new_photons = self._process_photons_in_c(photons_in, verbose)
+        # This also takes over the columns that are not set in C, such as
+        # the probability.
         photons = join(new_photons, photons_in, keys='tag',
                        uniq_col_name='{col_name}{table_name}',
                        table_names=['', '_beforemirror'])
-        # Probability column needs special treatment, because the probability
-        # is not just replaced with the new number, it's multiplicative.
-        # First, match tag in to tag after join (which may have fewer photons)
+        photons['probability'][photons['unreflected'] | photons['mirror_vblocked']] = 0
+        # Match tag in to tag after join (which may have fewer photons)
         insorted = np.argsort(photons_in['tag'])
         ypos = np.searchsorted(photons_in['tag'][insorted], photons['tag'])
         indices = insorted[ypos]
-        photons['probability'] *= photons_in['probability'][indices]
-        photons['probability'][photons['unreflected'] | photons['mirror_vblocked']] = 0
         pol = parallel_transport(photons_in['dir'][insorted], photons['dir'],
                                  photons_in['polarization'][insorted])
         photons['polarization'] = pol
-- 
2.43.0


From fbd47a74e65693c13be55aef5a5af4595adcc584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:52 +0000
Subject: [PATCH 101/104] fix: MarxMirror uses the global incoming directions
 for the polarization

---
 marxs/optics/marx.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/marxs/optics/marx.py b/marxs/optics/marx.py
index ceaa28e..4fb0aab 100644
--- a/marxs/optics/marx.py
+++ b/marxs/optics/marx.py
@@ -184,7 +184,10 @@ class MarxMirror(OpticalElement, BaseAperture):
 
     def __call__(self, photons_in, verbose=0):
         self.add_colpos(photons_in)
-        new_photons = self._process_photons_in_c(photons_in, verbose)
+        if 'tag' not in photons_in.colnames:
+            photons_in.add_column(Column(name='tag', data=np.arange(len(photons_in))))
+        # Work on a copy, because the input is transformed to local coordinates
+        new_photons = self._process_photons_in_c(photons_in.copy(), verbose)
         # This also takes over the columns that are not set in C, such as
         # the probability.
         photons = join(new_photons, photons_in, keys='tag',
@@ -195,8 +198,8 @@ class MarxMirror(OpticalElement, BaseAperture):
         insorted = np.argsort(photons_in['tag'])
         ypos = np.searchsorted(photons_in['tag'][insorted], photons['tag'])
         indices = insorted[ypos]
-        pol = parallel_transport(photons_in['dir'][insorted], photons['dir'],
-                                 photons_in['polarization'][insorted])
+        pol = parallel_transport(photons_in['dir'][indices], photons['dir'],
+                                 photons_in['polarization'][indices])
         photons['polarization'] = pol
         return photons
 
-- 
2.43.0


From 19ae11dffcb79e8decac18e89ac5ce54470f7629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:40 +0000
Subject: [PATCH 102/104] fix: plot rays with an invalid scalar and keep the
 colors of all others

---
 marxs/visualization/threejs.py |  4 +++-
 marxs/visualization/x3d.py     | 12 ++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/marxs/visualization/threejs.py b/marxs/visualization/threejs.py
index 9802b4b..6cf8cda 100644
--- a/marxs/visualization/threejs.py
+++ b/marxs/visualization/threejs.py
@@ -113,7 +113,9 @@ def _format_plot_rays_input(data, scalar, cmap, prop):
     import matplotlib.pyplot as plt
     cmap = plt.get_cmap(cmap)
     normalizer = plt.Normalize()
-    s_rgb = cmap(normalizer(s))
+    # Mask invalid values (e.g. the order of a ray that missed all gratings), so that
+    # they do not change the color of all other rays.
+    s_rgb = cmap(normalizer(np.ma.masked_invalid(s)))
 
     # Do not change the dictionary that is passed in
     prop = dict(prop)
diff --git a/marxs/visualization/x3d.py b/marxs/visualization/x3d.py
index 557d97b..997005b 100644
--- a/marxs/visualization/x3d.py
+++ b/marxs/visualization/x3d.py
@@ -430,19 +430,19 @@ def plot_rays(
     else:
         raise ValueError('Scalar quantity for each point must have shape ({0},) or ({0}, {1})'.format(n, N))
 
-    scalar = Normalize(**normalize_kwargs)(scalar)
-    scalarset = set(scalar)
+    # Invalid values (e.g. the order of a ray that missed all gratings) are masked,
+    # so that they are plotted, but do not change the color of all other rays.
+    scalar = Normalize(**normalize_kwargs)(np.ma.masked_invalid(scalar))
+    colors = np.round(cmap(scalar), conf.color_precision)
     # If scalar is a float quantity it makes smaller X3D file to bin and have e.g. no more than 100 colors.
     # Not hard to implement, but punt for now since I don't know if that optimization is needed in
     # practice.
-    for s in scalarset:
-        color = cmap(s)
-        color = tuple(np.round(color, conf.color_precision))
+    for color in np.unique(colors, axis=0):
         # color is RGBA, but I have not figured out the alpha in X3D, so just drop that
         # and use RGB
         # Also, round to two digits to reduce X3D filesize
         # color = x3d.Color(tuple(np.round(color[:3], 2)))
-        ind = scalar == s
+        ind = np.all(colors == color, axis=-1)
 
         lines = x3d.Shape(
             appearance=x3d.Appearance(
-- 
2.43.0


From d5302ed8ad6f5c5690d04230d7f7b49537426168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:05 +0000
Subject: [PATCH 103/104] fix: plotting does not change the color in the
 display settings

---
 marxs/visualization/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marxs/visualization/utils.py b/marxs/visualization/utils.py
index e15a8e7..e3469fb 100644
--- a/marxs/visualization/utils.py
+++ b/marxs/visualization/utils.py
@@ -5,6 +5,7 @@ The functions here are not intended to be called directly by the
 user. Instead, they refractor common tasks that are used in several
 visualization backends.
 '''
+import copy
 import warnings
 import numpy as np
 
@@ -121,7 +122,8 @@ def plot_object_general(plot_registry, obj, display=None, **kwargs):
         if s == 'None':
             return None
         elif s in plot_registry:
-            # turn into valid color tuple
+            # turn into valid color tuple, but keep the settings of the object
+            display = copy.copy(display)
             display['color'] = get_color(display)
             return plot_registry[s](obj, display,  **kwargs)
     else:
-- 
2.43.0


From d60470c07c3e1c1f057c5891ca9e0d25c5ebe26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:12 +0000
Subject: [PATCH 104/104] fix: mayavi plots go to the figure that is passed in

---
 marxs/visualization/mayavi.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/marxs/visualization/mayavi.py b/marxs/visualization/mayavi.py
index 2d2de75..f548716 100644
--- a/marxs/visualization/mayavi.py
+++ b/marxs/visualization/mayavi.py
@@ -59,7 +59,8 @@ def triangulation(obj, display, viewer=None):
 
     xyz, triangles = obj.geometry.triangulate(display)
     t = mlab.triangular_mesh(xyz[:, 0], xyz[:, 1], xyz[:, 2],
-                             triangles, color=display['color'])
+                             triangles, color=display['color'],
+                             figure=viewer)
     return t
 
 
@@ -102,7 +103,8 @@ def box(obj, display, viewer=None):
                  (7,3,2), (7,6,2), (7,3,1), (7,5,1), (7,6,4), (7,5,4)]
     corners = utils.halfbox_corners(obj, display)
     b = mlab.triangular_mesh(corners[:, 0], corners[:, 1], corners[:, 2],
-                             triangles, color=display['color'])
+                             triangles, color=display['color'],
+                             figure=viewer)
     return b
 
 
@@ -122,7 +124,8 @@ def cylinder(obj, display, viewer=None):
     c = mlab.plot3d([x0[0], x1[0]], [x0[1], x1[1]], [x0[2], x1[2]],
                     color=display['color'],
                     tube_radius=np.linalg.norm(obj.geometry['v_y']),
-                    tube_sides=display.get('tube_sides', 20))
+                    tube_sides=display.get('tube_sides', 20),
+                    figure=viewer)
     return c
 
 
@@ -244,5 +247,6 @@ def plot_object(obj, display=None, viewer=None, **kwargs):
         prop = out.module_manager.children[0].actor.property
         for n in prop.trait_names():
             if n in display:
-                setattr(prop, n, display[n])
+                setattr(prop, n, utils.get_color(display) if n == 'color'
+                        else display[n])
     return out
-- 
2.43.0

