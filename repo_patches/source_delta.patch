From 1fb34f572c5ce4996906147ad3ef59425699ef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:20 +0000
Subject: [PATCH 01/23] fix: angle between coincident or antipodal points is no
 longer NaN

Rounding can push the cosine just past +-1, and arccos then returns NaN:
get_angle_between() of a point with itself, a facula at the sub-observer point
(np.percentile then raised) and StarSpot.surface_fraction() at disk center.
---
 vspec_vsm/helpers.py | 2 +-
 vspec_vsm/spots.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index 1c76705..3310aa8 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -100,7 +100,7 @@ def get_angle_between(
     mu = (np.sin(lat1) * np.sin(lat2)
           + np.cos(lat1) * np.cos(lat2)
           * np.cos(lon1-lon2))
-    return np.arccos(mu)
+    return np.arccos(np.clip(mu, -1, 1))
 
 def proj_ortho(
     lat0: u.Quantity,
diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 4ae976b..d8b2fe3 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -244,7 +244,7 @@ class StarSpot:
         cos_c0 = (np.sin(sub_obs_coords['lat']) * np.sin(self.coords['lat'])
                   + np.cos(sub_obs_coords['lat']) * np.cos(self.coords['lat'])
                   * np.cos(sub_obs_coords['lon']-self.coords['lon']))
-        c0 = np.arccos(cos_c0)
+        c0 = np.arccos(np.clip(cos_c0, -1, 1))
         c = np.linspace(-90, 90, n_points)*u.deg
         a = self.angular_radius(star_rad).to(u.deg)
         rad = a**2 - (c-c0)**2
-- 
2.43.0


From 7b49ba0fb6f13e2ba9a772a3e4083aa1f658700e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:20 +0000
Subject: [PATCH 02/23] fix: proj_ortho honours the central longitude when
 centered on a pole

With lat0 = +-90 deg, lon0 was ignored, so the projection (and with it the
position of a transiting planet on the surface) jumped by lon0 at the pole.
---
 vspec_vsm/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index 3310aa8..e681f95 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -180,10 +180,10 @@ def proj_ortho(
     c = np.pi/2 - lats
     if b == 0:  # centered on north pole
         a = c
-        C = np.where(c <= np.pi/2, np.pi-lons, np.nan)
+        C = np.where(c <= np.pi/2, np.pi-(lons-lon0), np.nan)
     elif b == np.pi:  # centered on south pole
         a = c
-        C = np.where(c >= np.pi/2, lons, np.nan)
+        C = np.where(c >= np.pi/2, lons-lon0, np.nan)
     else:  # centered elsewhere
         mu = (np.sin(lat0) * np.sin(lats)
               + np.cos(lat0) * np.cos(lats)
-- 
2.43.0


From ddfb2662a76f9e3603235af578d856d3590caf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:20 +0000
Subject: [PATCH 03/23] fix: circle overlap fraction stays in [0,1] near
 tangency

At (or within rounding of) internal and external contact the fraction came out
as NaN or slightly outside [0,1].
---
 vspec_vsm/helpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index e681f95..a395810 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -273,13 +273,15 @@ def calc_circ_fraction_inside_unit_circle(x, y, r):
     d2 = (d**2 + r**2 - R**2) / (2*d)
 
     def area(_R, _d):
+        # rounding may leave |_d| slightly larger than _R near tangency
+        _d = np.clip(_d, -_R, _R)
         return _R**2 * np.arccos(_d/_R) - _d * np.sqrt(_R**2 - _d**2)
     A1 = area(R, d1)
     A2 = area(r, d2)
     area_of_intersection = A1+A2
 
     area_of_circle = np.pi*r**2
-    return area_of_intersection/area_of_circle
+    return np.clip(area_of_intersection/area_of_circle, 0.0, 1.0)
 
 def clip_teff(teff: u.Quantity):
     """
-- 
2.43.0


From b4fdf9d4b09d837141b41c6f4f074e9d1dddef3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:20 +0000
Subject: [PATCH 04/23] fix: a spot added to a collection is moved to the
 collection's grid

add_spot() replaced the spot's gridmaker but not the distances computed on its
old grid, so mapping a spot made with different grid parameters raised or used
the wrong pixels.
---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index d8b2fe3..3ba084b 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -390,7 +390,7 @@ class SpotCollection:
         if isinstance(spot, StarSpot):
             spot = [spot]
         for s in spot:
-            s.gridmaker = self.gridmaker
+            s.set_gridmaker(self.gridmaker)
         self.spots += tuple(spot)
 
     def clean_spotlist(self):
-- 
2.43.0


From 34f11ac3e023019b9e9ea3be84e66cc003772de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:20 +0000
Subject: [PATCH 05/23] fix: a facula with a rectangular grid can be added to a
 spiral-grid star

Comparing the two grids raised TypeError.
---
 vspec_vsm/faculae.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vspec_vsm/faculae.py b/vspec_vsm/faculae.py
index 8ea1a62..f8493f3 100644
--- a/vspec_vsm/faculae.py
+++ b/vspec_vsm/faculae.py
@@ -380,8 +380,7 @@ class FaculaCollection:
             facula = (facula,)
         for fac in facula:
             fac: Facula
-            if not fac.gridmaker == self.gridmaker:
-                fac.gridmaker = self.gridmaker
+            fac.gridmaker = self.gridmaker
         self.faculae += tuple(facula)
 
     def clean_faclist(self) -> None:
-- 
2.43.0


From ed2389b72386a7bd6ff9819423897776281bae2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:20 +0000
Subject: [PATCH 06/23] fix: a decaying spot's area never becomes negative

The decayed area was compared with the maximum area rather than with the area
that is left.
---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 3ba084b..bcae39b 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -311,7 +311,7 @@ class StarSpot:
                     self.area_current = self.area_max - area_decay
         else:
             area_decay = time * self.decay_rate
-            if area_decay > self.area_max:
+            if area_decay > self.area_current:
                 self.area_current = 0*MSH
             else:
                 self.area_current = self.area_current - area_decay
-- 
2.43.0


From 064a71fe0877ef8d679c7e289a5f022718e59dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:20 +0000
Subject: [PATCH 07/23] fix: sign of the initial area in the time-averaged spot
 area

The integral of an exponential growing from init_area to dist_area_mean is
(dist_area_mean - init_area)/growth_rate.
---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index bcae39b..0f91c71 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -672,7 +672,7 @@ class SpotGenerator:
             return self.dist_area_mean
         else:
             integrated_area = (self.dist_area_mean / self.growth_rate) \
-                + (self.init_area / self.growth_rate) \
+                - (self.init_area / self.growth_rate) \
                 + (self.dist_area_mean**2/2/self.decay_rate)
             return integrated_area / self.mean_lifetime
 
-- 
2.43.0


From 50b9da025a13f39ba47ef22e7f0000e15fa64dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:20 +0000
Subject: [PATCH 08/23] fix: time-averaged facula area

The radius, not the area, changes as exp(+-2t/lifetime), so the area averages
to pi r0^2 (1-e^-4)/4 over a facula's life. The old value made the equilibrium
coverage 1.76 times smaller than requested.
---
 vspec_vsm/faculae.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/faculae.py b/vspec_vsm/faculae.py
index f8493f3..84158eb 100644
--- a/vspec_vsm/faculae.py
+++ b/vspec_vsm/faculae.py
@@ -614,11 +614,11 @@ class FaculaGenerator:
         The time-averaged area of a typical facula.
 
         .. math::
-            \\bar{A} = \\frac{ \\pi r_0 ^2 (1-e^{-2}) }{2}
+            \\bar{A} = \\frac{ \\pi r_0 ^2 (1-e^{-4}) }{4}
 
         :type: astropy.units.Quantity
         """
-        return 0.5 * np.pi * (1-np.e**-2) * self.dist_r_peak**2
+        return 0.25 * np.pi * (1-np.e**-4) * self.dist_r_peak**2
 
     def get_n_faculae_expected(self, time: u.Quantity, rad_star: u.Quantity) -> float:
         """
-- 
2.43.0


From f8b7063388d2c502b23eb461a70cdc08496efc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:20 +0000
Subject: [PATCH 09/23] fix: flare energy pdf and cdf

pdf() always raised UnitConversionError: a density per energy is not
dimensionless. Below min_energy, cdf() was negative.
---
 vspec_vsm/flares.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vspec_vsm/flares.py b/vspec_vsm/flares.py
index 62eace0..3882bf7 100644
--- a/vspec_vsm/flares.py
+++ b/vspec_vsm/flares.py
@@ -323,9 +323,11 @@ class FlareGenerator:
         Returns
         -------
         pdf : float or np.ndarray
-            The probability density of energy
+            The probability density of energy, per ``energy_unit``.
         """
-        return (-self.alpha * energy**(self.alpha-1)/self.min_energy**self.alpha).to_value(u.dimensionless_unscaled)
+        ratio = (energy/self.min_energy).to_value(u.dimensionless_unscaled)
+        density = -self.alpha * ratio**(self.alpha-1)/self.min_energy.to_value(self.energy_unit)
+        return np.where(ratio < 1, 0, density)[()]
 
     def cdf(self, energy: u.Quantity):
         """
@@ -341,7 +343,8 @@ class FlareGenerator:
         cdf : float or np.ndarray
             The cumulative density of energy
         """
-        return 1 - (energy/self.min_energy).to_value(u.dimensionless_unscaled)**self.alpha
+        ratio = (energy/self.min_energy).to_value(u.dimensionless_unscaled)
+        return np.maximum(1 - ratio**self.alpha, 0)
 
     def quantile_func(self, X: np.ndarray):
         """
-- 
2.43.0


From bb667ea2665bcfc60733e90fe352e13a52e66be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:20 +0000
Subject: [PATCH 10/23] fix: flare integral over periods shorter than 20
 minutes

Fewer than two samples were taken, so every flare integrated to zero.
---
 vspec_vsm/flares.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vspec_vsm/flares.py b/vspec_vsm/flares.py
index 3882bf7..68c24de 100644
--- a/vspec_vsm/flares.py
+++ b/vspec_vsm/flares.py
@@ -683,6 +683,7 @@ class FlareCollection:
         flare_timeareas = []
         time_resolution = 10*u.min
         N_steps = int(((tfinish-tstart)/time_resolution).to(u.Unit('')).value)
+        N_steps = max(N_steps, 2)  # both ends, however short the period
         time = np.linspace(tstart, tfinish, N_steps)
         for flare in visible_flares:
             timearea = flare.get_timearea(time)
-- 
2.43.0


From 4f2b0c28cb1e61f96398c0e28ee51bf2e36187e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:20 +0000
Subject: [PATCH 11/23] fix: granulation coverage of a star with zero mean
 granulation

The amplitude is stored under 'scale'; looking up 'amp' raised KeyError.
---
 vspec_vsm/star.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index 32bb960..88b4e12 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -776,7 +776,7 @@ class Star:
         if self.granulation is None:
             return np.zeros(shape=time.shape)
         else:
-            if self.granulation.dteff == 0*u.K or (self.granulation.params['mean'] == 0 and self.granulation.params['amp'] == 0):
+            if self.granulation.dteff == 0*u.K or (self.granulation.params['mean'] == 0 and self.granulation.params['scale'] == 0):
                 shape = time.shape
                 arr = np.zeros(shape=shape)
                 return arr
-- 
2.43.0


From ad13e7041cbb7dc597cda139c3ebfeda69f143ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:20 +0000
Subject: [PATCH 12/23] fix: granulation coverage is finite for fine sampling
 and zero amplitude

In single precision the covariance of times much closer than the period is not
positive definite (hourly samples of a 3 day period were all NaN, which Star
turned into no granulation at all). Zero amplitude gave NaN instead of the mean,
and an integer mean raised.
---
 vspec_vsm/granules.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/vspec_vsm/granules.py b/vspec_vsm/granules.py
index cbd44de..3446c94 100644
--- a/vspec_vsm/granules.py
+++ b/vspec_vsm/granules.py
@@ -6,6 +6,7 @@ Granulation
 """
 import jax
 import jax.numpy as jnp
+from jax.experimental import enable_x64
 from tinygp import kernels, GaussianProcess
 from astropy import units as u
 import numpy as np
@@ -63,7 +64,7 @@ def build_gp(params: dict, X: np.ndarray) -> GaussianProcess:
     return GaussianProcess(
         kernel,
         X,
-        diag=0,
+        diag=1e-12,  # keeps the covariance positive definite
         mean=params['mean']
     )
 
@@ -114,7 +115,7 @@ class Granulation:
             seed:int = np.random.randint(1, None)
     ):
         self.params = dict(
-            mean=mean_coverage,
+            mean=float(mean_coverage),
             scale=amplitude,
             period=period.to_value(time_unit)
         )
@@ -158,7 +159,10 @@ class Granulation:
         np.ndarray
             The coverage corresponding to each point in `time`.
         """
+        if self.params['scale'] == 0:  # constant coverage
+            return save_cast_coverage(np.full(time.shape, self.params['mean']))
         key = jax.random.PRNGKey(seed=self.seed)
-        gp = self._build_gp(time.to_value(time_unit))
-        coverage = gp.sample(key)
+        with enable_x64():  # single precision cannot factorize fine time sampling
+            gp = self._build_gp(time.to_value(time_unit))
+            coverage = gp.sample(key)
         return save_cast_coverage(np.array(coverage))
-- 
2.43.0


From 7337062d546d1856fc67a4dfaaab53d9eff6c564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:20 +0000
Subject: [PATCH 13/23] fix: no coverage is lost between temperatures that
 print alike

Temperatures that round to the same key overwrote each other, a granulation
temperature within rounding of a spot's reset that spot's coverage to zero, a
single-precision map could round the photosphere to a different key (KeyError),
and so could a star without any quiet photosphere.
---
 vspec_vsm/spots.py |  2 +-
 vspec_vsm/star.py  | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 0f91c71..b92a773 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -436,7 +436,7 @@ class SpotCollection:
         surface_map : array of astropy.units.Quantity , shape(M,N)
             Map of the stellar surface with Teff assigned to each pixel
         """
-        surface_map = self.gridmaker.zeros()*star_teff.unit + star_teff
+        surface_map = self.gridmaker.zeros(dtype='float64')*star_teff.unit + star_teff
         for spot in self.spots:
             teff_dict = spot.map_pixels(star_rad)
             # penumbra
diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index 88b4e12..363a8d0 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -555,13 +555,14 @@ class Star:
             pix_has_teff = np.where(surface_map == teff, 1, 0)
             nominal_area = np.sum(pix_has_teff*ld*proj_area)
             covered_area = np.sum(pix_has_teff*ld*proj_area*(covered))
-            total_data[f'{teff:.2f}'] = nominal_area/total_area
-            covered_data[f'{teff:.2f}'] = covered_area/total_area
+            key = f'{teff:.2f}'
+            total_data[key] = total_data.get(key, 0) + nominal_area/total_area
+            covered_data[key] = covered_data.get(key, 0) + covered_area/total_area
         granulation_teff = self.teff - self.granulation.dteff
         # initialize. This way it's okay if there's something else with that Teff too.
-        if granulation_teff not in teffs:
-            total_data[f'{granulation_teff:.2f}'] = 0
-            covered_data[f'{granulation_teff:.2f}'] = 0
+        for teff in (self.teff, granulation_teff):
+            total_data.setdefault(f'{teff:.2f}', 0)
+            covered_data.setdefault(f'{teff:.2f}', 0)
 
         phot_frac = total_data[f'{self.teff:.2f}']
         total_data[f'{self.teff:.2f}'] = phot_frac * (1-granulation_fraction)
-- 
2.43.0


From 5dc7680c28e030b51576ba340f0e0ab4623d90c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:20 +0000
Subject: [PATCH 14/23] fix: average_teff reads the temperatures calc_coverage
 reports

They are strings, and raising a string to the fourth power raised TypeError.
---
 vspec_vsm/star.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index 363a8d0..7e7fb94 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -621,7 +621,7 @@ class Star:
         num = 0
         den = 0
         for teff, value in dat.items():
-            num += teff**4 * value
+            num += u.Quantity(teff)**4 * value
             den += value
         return ((num/den)**(0.25)).to(u.K)
 
-- 
2.43.0


From aaedda7ed7c2f241f8a3259e34c7f7b3eeb51190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:37 +0000
Subject: [PATCH 15/23] fix: plot_surface with current matplotlib and with
 spiral grids

matplotlib.cm.get_cmap is gone, and the limb-darkening overlay was computed on
the star's own grid, which is one-dimensional for a spiral grid.
---
 vspec_vsm/star.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index 7e7fb94..a1ff762 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -22,7 +22,7 @@ import numpy as np
 from astropy import units as u
 from astropy.units.quantity import Quantity
 
-from vspec_vsm.coordinate_grid import CoordinateGrid
+from vspec_vsm.coordinate_grid import CoordinateGrid, RectangularGrid
 from vspec_vsm.helpers import (
     get_angle_between, proj_ortho,
     calc_circ_fraction_inside_unit_circle,
@@ -683,11 +683,11 @@ class Star:
         zorder = 100 if pl_frac == 1. else -100
         ax.contourf(lons, lats, transit_mask.T, colors='k', alpha=1,
                     transform=ccrs.PlateCarree(), zorder=zorder)
-        mu = self.get_mu(lat0, lon0)
+        mu = RectangularGrid(nlat, nlon).cos_angle_from_disk_center(lat0, lon0)
         ld = self.ld_mask_for_plotting(mu)
         alpha = 1-ld.T/np.max(ld.T)
         ax.imshow(np.ones_like(ld), extent=(0, 360, -90, 90),
-                  transform=ccrs.PlateCarree(), origin='lower', alpha=alpha, cmap=plt.cm.get_cmap('gray'), zorder=100)
+                  transform=ccrs.PlateCarree(), origin='lower', alpha=alpha, cmap='gray', zorder=100)
 
     def get_flares_over_observation(self, time_duration: Quantity):
         """
-- 
2.43.0


From 5842985776e989aad104d1b62bf73140d0a55ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:30 +0000
Subject: [PATCH 16/23] fix: distance to the center of a feature at a pole is
 no longer NaN

---
 vspec_vsm/faculae.py | 6 ++++--
 vspec_vsm/spots.py   | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/vspec_vsm/faculae.py b/vspec_vsm/faculae.py
index 84158eb..2fc6565 100644
--- a/vspec_vsm/faculae.py
+++ b/vspec_vsm/faculae.py
@@ -177,8 +177,10 @@ class Facula:
         latgrid, longrid = self.gridmaker.grid()
         lat0 = self.lat
         lon0 = self.lon
-        return 2 * np.arcsin(np.sqrt(np.sin(0.5*(lat0-latgrid))**2
-                                    + np.cos(latgrid)*np.cos(lat0)*np.sin(0.5*(lon0 - longrid))**2))
+        hav = (np.sin(0.5*(lat0-latgrid))**2
+               + np.cos(latgrid)*np.cos(lat0)*np.sin(0.5*(lon0 - longrid))**2)
+        # rounding may leave it slightly outside [0,1], e.g. at the poles
+        return 2 * np.arcsin(np.sqrt(np.clip(hav, 0, 1)))
 
     def set_gridmaker(self, gridmaker: CoordinateGrid):
         """
diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index b92a773..1b92c7d 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -145,8 +145,10 @@ class StarSpot:
         latgrid, longrid = self.gridmaker.grid()
         lat0 = self.coords['lat']
         lon0 = self.coords['lon']
-        self.r = 2 * np.arcsin(np.sqrt(np.sin(0.5*(lat0-latgrid))**2
-                                       + np.cos(latgrid)*np.cos(lat0)*np.sin(0.5*(lon0 - longrid))**2))
+        hav = (np.sin(0.5*(lat0-latgrid))**2
+               + np.cos(latgrid)*np.cos(lat0)*np.sin(0.5*(lon0 - longrid))**2)
+        # rounding may leave it slightly outside [0,1], e.g. at the poles
+        self.r = 2 * np.arcsin(np.sqrt(np.clip(hav, 0, 1)))
 
     def __str__(self):
         s = 'StarSpot with '
-- 
2.43.0


From 22eacd79ad39e2eabfcf95a766d301a3b83b5ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:59 +0000
Subject: [PATCH 17/23] fix: points next to the projection center no longer
 project to NaN

---
 vspec_vsm/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index a395810..a439cae 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -188,6 +188,7 @@ def proj_ortho(
         mu = (np.sin(lat0) * np.sin(lats)
               + np.cos(lat0) * np.cos(lats)
               * np.cos(lon0-lons))
+        mu = np.clip(mu, -1, 1)  # rounding
         a = np.arccos(mu)
         num = np.cos(c) - np.cos(a)*np.cos(b)
         den = np.sin(a)*np.sin(b)
@@ -197,7 +198,7 @@ def proj_ortho(
             num / den,
             1
         )
-        cos_C = np.round(cos_C, 4)
+        cos_C = np.clip(np.round(cos_C, 4), -1, 1)
         C = np.where(
             lons == lon0,
             0, np.arccos(cos_C)
-- 
2.43.0


From 28e6e4905638bf290f6739268a408477555e0e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:44 +0000
Subject: [PATCH 18/23] fix: projection centered on a pole that is off by
 rounding

---
 vspec_vsm/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index a439cae..47f8a18 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -178,10 +178,10 @@ def proj_ortho(
     lats: np.ndarray = lats.to_value(u.rad)
     b = np.pi/2 - lat0
     c = np.pi/2 - lats
-    if b == 0:  # centered on north pole
+    if np.isclose(b, 0):  # centered on north pole (to rounding)
         a = c
         C = np.where(c <= np.pi/2, np.pi-(lons-lon0), np.nan)
-    elif b == np.pi:  # centered on south pole
+    elif np.isclose(b, np.pi, rtol=0):  # centered on south pole
         a = c
         C = np.where(c >= np.pi/2, lons-lon0, np.nan)
     else:  # centered elsewhere
-- 
2.43.0


From 83434a505bc20b61c4ef75ec92b6448d3106ec0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:25 +0000
Subject: [PATCH 19/23] fix: unit of the growth rate of a disabled spot
 generator

---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 1b92c7d..30a0ab7 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -621,7 +621,7 @@ class SpotGenerator:
             dist_area_logsigma=1,
             umbra_teff=0*u.K,
             penumbra_teff=0*u.K,
-            growth_rate=0*u.day,
+            growth_rate=0/u.day,
             decay_rate=0*MSH/u.day,
             init_area=10*MSH,
             distribution='iso',
-- 
2.43.0


From 773ee120fced7808c5b79050e4a1879f39f43f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:15 +0000
Subject: [PATCH 20/23] fix: spread of the maximum spot areas is in dex, as
 documented

---
 vspec_vsm/spots.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 30a0ab7..2e08e3c 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -733,8 +733,10 @@ class SpotGenerator:
         ValueError
             If an unknown value is given for distribution.
         """
-        new_max_areas = self.rng.lognormal(mean=np.log(
-            self.dist_area_mean/MSH), sigma=self.dist_area_logsigma, size=n_spots)*MSH
+        new_max_areas = self.rng.lognormal(
+            mean=np.log(self.dist_area_mean/MSH),
+            sigma=self.dist_area_logsigma*np.log(10),  # dex
+            size=n_spots)*MSH
         new_area_ratio = self.rng.normal(loc=5, scale=1, size=n_spots)
         while np.any(new_area_ratio <= 0):
             new_area_ratio = self.rng.normal(loc=5, scale=1, size=n_spots)
-- 
2.43.0


From 8f00f1f1148d727485b78d876f805353008094de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:08 +0000
Subject: [PATCH 21/23] fix: generators of spots that do not grow neither
 return NaN nor raise

---
 vspec_vsm/spots.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 2e08e3c..83c1729 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -644,6 +644,14 @@ class SpotGenerator:
         """
         return self.decay_rate == 0*MSH/u.day
 
+    @property
+    def _never_decays(self) -> bool:
+        """
+        True for static spots, and for spots that do not grow and so never
+        reach the area at which decay sets in.
+        """
+        return bool(self.is_static or self.growth_rate == 0/u.day)
+
     @property
     def mean_lifetime(self) -> u.Quantity:
         """
@@ -654,7 +662,7 @@ class SpotGenerator:
         mean_lifetime : astropy.units.Quantity
             The mean lifetime of spots.
         """
-        if self.is_static:
+        if self._never_decays:
             return np.inf * u.day
         else:
             return ((self.dist_area_mean/self.decay_rate)
@@ -670,7 +678,7 @@ class SpotGenerator:
         mean_area : astropy.units.Quantity
             The time-averaged area of a typical spot.
         """
-        if self.is_static:
+        if self._never_decays:
             return self.dist_area_mean
         else:
             integrated_area = (self.dist_area_mean / self.growth_rate) \
@@ -832,7 +840,7 @@ class SpotGenerator:
         target_omega = (4*np.pi*coverage*u.steradian).to(u.deg**2)
         while current_omega < target_omega:
             new_spot = self.generate_spots(1)[0]
-            if self.is_static:
+            if self._never_decays:
                 area0 = self.init_area
                 area_range = new_spot.area_max - area0
                 area = self.rng.random()*area_range + area0
-- 
2.43.0


From e32050d6af04310b1b8d255489d0ca231f2dc1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:02 +0000
Subject: [PATCH 22/23] fix: a spot that has just decayed away never has a
 negative area

The decayed area and the current area may be in different units, so the
comparison can pass while the difference is a negative rounding error, which
makes the radius of the spot NaN.
---
 vspec_vsm/spots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 83c1729..c31edf4 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -310,13 +310,13 @@ class StarSpot:
                 if area_decay > self.area_max:
                     self.area_current = 0*MSH
                 else:
-                    self.area_current = self.area_max - area_decay
+                    self.area_current = np.maximum(self.area_max - area_decay, 0*MSH)
         else:
             area_decay = time * self.decay_rate
             if area_decay > self.area_current:
                 self.area_current = 0*MSH
             else:
-                self.area_current = self.area_current - area_decay
+                self.area_current = np.maximum(self.area_current - area_decay, 0*MSH)
 
 
 class SpotCollection:
-- 
2.43.0


From aaafe29bfe2843bb8cc9cdd8fd6e4a268905531b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:48 +0000
Subject: [PATCH 23/23] fix: faculae whose wall and floor round to the same
 temperature keep their area and can be drawn

---
 vspec_vsm/faculae.py | 3 +++
 vspec_vsm/star.py    | 5 +++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/faculae.py b/vspec_vsm/faculae.py
index 2fc6565..e140a9a 100644
--- a/vspec_vsm/faculae.py
+++ b/vspec_vsm/faculae.py
@@ -247,6 +247,9 @@ class Facula:
         if self.floor_dteff == self.wall_dteff:
             raise ValueError(
                 'Wall and Floor teff are equal. This is not allowed.')
+        if round_teff(self.floor_dteff) == round_teff(self.wall_dteff):
+            # they are told apart by the rounded Teff, so there is only one region
+            return {round_teff(self.wall_dteff): np.pi*self.radius**2 * np.cos(angle)}
         if self.radius < self.floor_teff_min_rad:
             return {
                 round_teff(self.wall_dteff): np.pi*self.radius**2 * np.cos(angle),
diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index a1ff762..111962f 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -26,7 +26,7 @@ from vspec_vsm.coordinate_grid import CoordinateGrid, RectangularGrid
 from vspec_vsm.helpers import (
     get_angle_between, proj_ortho,
     calc_circ_fraction_inside_unit_circle,
-    clip_teff
+    clip_teff, round_teff
 )
 from vspec_vsm.spots import SpotCollection, SpotGenerator
 from vspec_vsm.faculae import FaculaCollection, FaculaGenerator, Facula
@@ -350,7 +350,8 @@ class Star:
                 pass
             else:
                 fracs = facula.fractional_effective_area(angle)
-                dteff_wall, dteff_floor = fracs.keys()
+                dteff_wall = round_teff(facula.wall_dteff)
+                dteff_floor = round_teff(facula.floor_dteff)
                 frac = fracs[dteff_wall].value
                 mu_of_fac_pix = mu[inside_fac]
                 border_mu = np.percentile(mu_of_fac_pix, 100*frac)
-- 
2.43.0

