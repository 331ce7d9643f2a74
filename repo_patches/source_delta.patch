From 27139ce5a85e6d83250cc700ed02696ce7d769d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 01/41] fix: count only the simulated part of bins spanning the
 whole energy range

calculate_n_showers_per_energy returned more than n_showers for a bin that
starts below energy_min and ends above energy_max, as the second of the two
edge corrections overwrote the first.
---
 pyirf/simulations.py | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index d7f6c3b..1286756 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -89,29 +89,18 @@ class SimulatedEventsInfo:
             The actual numbers will follow a poissionian distribution around this
             expected value.
         """
-        bins = energy_bins
-        e_low = bins[:-1]
-        e_high = bins[1:]
         e_min = self.energy_min
         e_max = self.energy_max
 
+        # only the part of each bin inside the simulated energy range contributes
+        bins = np.clip(energy_bins, e_min, e_max)
+        e_low = bins[:-1]
+        e_high = bins[1:]
+
         integral = _powerlaw_pdf_integral(
             self.spectral_index, e_low, e_high, e_min, e_max
         )
 
-        integral[e_high <= e_min] = 0
-        integral[e_low >= e_max] = 0
-
-        mask = (e_high > e_max) & (e_low < e_max)
-        integral[mask] = _powerlaw_pdf_integral(
-            self.spectral_index, e_low[mask], e_max, e_min, e_max
-        )
-
-        mask = (e_high > e_min) & (e_low < e_min)
-        integral[mask] = _powerlaw_pdf_integral(
-            self.spectral_index, e_min, e_high[mask], e_min, e_max
-        )
-
         return self.n_showers * integral
 
     def calculate_n_showers_per_fov(self, fov_bins):
@@ -295,8 +284,8 @@ def _powerlaw_pdf_integral(index, e_low, e_high, e_min, e_max):
     e_max = e_max.to_value(u.TeV)
 
     int_index = index + 1
-    normalization = 1 / (e_max ** int_index - e_min ** int_index)
-    e_term = e_high ** int_index - e_low ** int_index
+    normalization = 1 / (e_min ** int_index - e_max ** int_index)
+    e_term = e_low ** int_index - e_high ** int_index
     return e_term * normalization
 
 
-- 
2.43.0


From 077cb306e507bad459666b766c155cf08c5d8e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 02/41] fix: support simulated spectral index of exactly -1

SimulatedEventsInfo accepts -1, but the number of showers per energy and
PowerLaw.from_simulation were nan, the integral of 1 / E is logarithmic.
---
 pyirf/simulations.py | 3 +++
 pyirf/spectral.py    | 9 +++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index 1286756..0787bbc 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -284,6 +284,9 @@ def _powerlaw_pdf_integral(index, e_low, e_high, e_min, e_max):
     e_max = e_max.to_value(u.TeV)
 
     int_index = index + 1
+    if int_index == 0:
+        return np.log(e_high / e_low) / np.log(e_max / e_min)
+
     normalization = 1 / (e_min ** int_index - e_max ** int_index)
     e_term = e_low ** int_index - e_high ** int_index
     return e_term * normalization
diff --git a/pyirf/spectral.py b/pyirf/spectral.py
index ffdd917..7396df1 100644
--- a/pyirf/spectral.py
+++ b/pyirf/spectral.py
@@ -132,8 +132,13 @@ class PowerLaw:
 
         A = np.pi * simulated_event_info.max_impact**2
 
-        delta = e_max ** (index + 1) - e_min ** (index + 1)
-        nom = (index + 1) * e_ref**index * n_showers
+        if index == -1:
+            # the integral of 1 / E is logarithmic
+            delta = np.log((e_max / e_min).to_value(u.one))
+            nom = e_ref**index * n_showers
+        else:
+            delta = e_max ** (index + 1) - e_min ** (index + 1)
+            nom = (index + 1) * e_ref**index * n_showers
         denom = (A * obstime * solid_angle) * delta
 
         return cls(
-- 
2.43.0


From 02c594f142000ed7949e184460e941d6fd82cf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 03/41] fix: account for the width of position angle bins in
 calculate_n_showers_3d_polar

All showers were distributed equally over the position angle bins, also for
bins of different width or not covering the full circle.
---
 pyirf/simulations.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index 0787bbc..68f1f0e 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -196,16 +196,11 @@ class SimulatedEventsInfo:
         e_fov_offset_integral = self.calculate_n_showers_per_energy_and_fov(
             energy_bins, fov_offset_bins
         )
-        viewcone_integral = self.calculate_n_showers_per_fov(
-            [self.viewcone_min, self.viewcone_max] * u.deg
-        )
-
-        n_bins_pa = len(fov_position_angle_bins) - 1
-        position_angle_integral = np.full(n_bins_pa, viewcone_integral / n_bins_pa)
-
-        total_integral = e_fov_offset_integral[:, :, np.newaxis] * position_angle_integral
+        # uniform in position angle, so each bin gets its fraction of the full circle
+        bin_width_pa = np.diff(fov_position_angle_bins).to_value(u.rad)
+        position_angle_fraction = bin_width_pa / (2 * np.pi)
 
-        return total_integral / self.n_showers
+        return e_fov_offset_integral[:, :, np.newaxis] * position_angle_fraction
 
     @u.quantity_input(
         energy_bins=u.TeV, fov_longitude_bins=u.deg, fov_latitude_bins=u.rad
-- 
2.43.0


From 60ddb4776ab1573d72cf1dedd5a4f5fab766f69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 04/41] fix: return n_showers_3d_lonlat in the documented axis
 order

The result had shape (n_energy, n_lat, n_lon) instead of the documented
(n_energy, n_lon, n_lat), which is also what effective_area_3d_lonlat uses
for the selected events.
---
 pyirf/simulations.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index 68f1f0e..d02bc36 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -239,7 +239,9 @@ class SimulatedEventsInfo:
             self, fov_longitude_bins, fov_latitude_bins, subpixels=subpixels
         )
 
-        bin_grid_lon, bin_grid_lat = np.meshgrid(fov_longitude_bins,fov_latitude_bins)
+        bin_grid_lon, bin_grid_lat = np.meshgrid(
+            fov_longitude_bins, fov_latitude_bins, indexing="ij"
+        )
         bin_area = rectangle_solid_angle(
             bin_grid_lon[:-1,:-1],
             bin_grid_lon[1:,1:],
@@ -327,7 +329,9 @@ def _fov_lonlat_grid_overlap(self, bin_edges_lon, bin_edges_lat, subpixels=20):
     bin inside the viewcone.
     """
     # treat edge cases where all bins are either fully inside or outside of the viewcone
-    bin_grid_lon, bin_grid_lat = np.meshgrid(bin_edges_lon, bin_edges_lat)
+    bin_grid_lon, bin_grid_lat = np.meshgrid(
+        bin_edges_lon, bin_edges_lat, indexing="ij"
+    )
 
     bin_dist = angular_separation(
         bin_grid_lon,
@@ -356,7 +360,7 @@ def _fov_lonlat_grid_overlap(self, bin_edges_lon, bin_edges_lat, subpixels=20):
     fov_bin_centers_lat = bin_center(bin_edges_lat)
 
     bin_centers_grid_lon, bin_centers_grid_lat = np.meshgrid(
-        fov_bin_centers_lon, fov_bin_centers_lat,
+        fov_bin_centers_lon, fov_bin_centers_lat, indexing="ij"
     )
 
     # calculate angular separation of bin centers to FOV center
-- 
2.43.0


From 91f267e4b5e9d6a18fc763cb56b21e2b1e4658f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 05/41] fix: compute fov overlap of lon/lat bins for any units
 and bin widths

The overlap of the bins with the simulated viewcone assumed bins in degree,
all as wide as the first one, crashed when no bin crossed the edge, and
treated bins with all corners outside of the viewcone (inside of the outer
radius) as fully outside (inside), even if they contained (part of) the
viewcone (the hole in the center of the viewcone).
---
 pyirf/simulations.py | 52 ++++++++++++--------------------------------
 1 file changed, 14 insertions(+), 38 deletions(-)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index d02bc36..15bbc3a 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -328,32 +328,8 @@ def _fov_lonlat_grid_overlap(self, bin_edges_lon, bin_edges_lat, subpixels=20):
     'subpixels' whose centers are inside the viewcone, which approximates the area of the
     bin inside the viewcone.
     """
-    # treat edge cases where all bins are either fully inside or outside of the viewcone
-    bin_grid_lon, bin_grid_lat = np.meshgrid(
-        bin_edges_lon, bin_edges_lat, indexing="ij"
-    )
-
-    bin_dist = angular_separation(
-        bin_grid_lon,
-        bin_grid_lat,
-        0,
-        0,
-    ).to_value(u.deg)
-
-    all_outside = np.logical_or(
-        np.all(bin_dist <= self.viewcone_min.to_value(u.deg)),
-        np.all(bin_dist >= self.viewcone_max.to_value(u.deg)),
-    )
-    all_inside = np.logical_and(
-        np.all(bin_dist <= self.viewcone_max.to_value(u.deg)),
-        np.all(bin_dist >= self.viewcone_min.to_value(u.deg)),
-    )
-
-    if all_outside:
-        return 0
-    elif all_inside:
-        return 1
-
+    bin_edges_lon = bin_edges_lon.to(u.deg)
+    bin_edges_lat = bin_edges_lat.to(u.deg)
 
     # define grid of bin centers
     fov_bin_centers_lon = bin_center(bin_edges_lon)
@@ -381,8 +357,9 @@ def _fov_lonlat_grid_overlap(self, bin_edges_lon, bin_edges_lat, subpixels=20):
     area[mask_simple] = 0
 
     # select only bins partially covered by the FOV
-    bin_width_lon = bin_edges_lon[1] - bin_edges_lon[0]
-    bin_width_lat = bin_edges_lat[1] - bin_edges_lat[0]
+    bin_width_lon, bin_width_lat = np.meshgrid(
+        np.diff(bin_edges_lon), np.diff(bin_edges_lat), indexing="ij"
+    )
     bin_max_radius = np.sqrt(bin_width_lon ** 2 + bin_width_lat ** 2) * 0.5
 
     fov_outer_edge_mask = np.logical_and(
@@ -399,19 +376,18 @@ def _fov_lonlat_grid_overlap(self, bin_edges_lon, bin_edges_lat, subpixels=20):
     # get indices of relevant bin corners
     corner_idx = np.nonzero(fov_edge_mask)
 
-    # define start and endpoints for subpixels
-    edges_lon = np.array(
-        [bin_grid_lon[corner_idx], bin_grid_lon[corner_idx] + bin_width_lon]
-    )
-    edges_lat = np.array(
-        [bin_grid_lat[corner_idx], bin_grid_lat[corner_idx] + bin_width_lat]
-    )
+    n_edge_pixels = len(corner_idx[0])
+    if n_edge_pixels == 0:
+        return area
 
-    n_edge_pixels = len(fov_edge_mask[fov_edge_mask==True])
+    # define start and endpoints for subpixels
+    lon_idx, lat_idx = corner_idx
+    edges_lon = [bin_edges_lon[lon_idx], bin_edges_lon[lon_idx + 1]]
+    edges_lat = [bin_edges_lat[lat_idx], bin_edges_lat[lat_idx + 1]]
 
     # define subpixel bin centers and grid
-    subpixel_lon = bin_center(np.linspace(*edges_lon, subpixels + 1) * u.deg)
-    subpixel_lat = bin_center(np.linspace(*edges_lat, subpixels + 1) * u.deg)
+    subpixel_lon = bin_center(np.linspace(*edges_lon, subpixels + 1))
+    subpixel_lat = bin_center(np.linspace(*edges_lat, subpixels + 1))
 
     # shape: (n_edge_pixels, 2, subpixels, subpixels)
     subpixel_grid = np.array(
-- 
2.43.0


From fc5c4fdeb4d02b44b00c81a82ddc205b85bd3e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 06/41] fix: use the solid angle of each lon / lat bin in
 background_3d_lonlat

The solid angles were only computed for the diagonal bins and then
broadcast along the latitude axis, which is wrong for bins of different
size and fails for different numbers of longitude and latitude bins.
---
 pyirf/irf/background.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyirf/irf/background.py b/pyirf/irf/background.py
index 419486f..3eb603e 100644
--- a/pyirf/irf/background.py
+++ b/pyirf/irf/background.py
@@ -113,10 +113,10 @@ def background_3d_lonlat(events, reco_energy_bins, fov_lon_bins, fov_lat_bins, t
 
     # divide by solid angle in each fov bin and the observation time
     bin_solid_angle = rectangle_solid_angle(
-        fov_lon_bins[:-1],
-        fov_lon_bins[1:],
-        fov_lat_bins[:-1],
-        fov_lat_bins[1:],
+        fov_lon_bins[:-1, np.newaxis],
+        fov_lon_bins[1:, np.newaxis],
+        fov_lat_bins[np.newaxis, :-1],
+        fov_lat_bins[np.newaxis, 1:],
     )
     bg_rate = per_energy / t_obs / bin_solid_angle
     return bg_rate.to(BACKGROUND_UNIT)
-- 
2.43.0


From 58e17cc5d00cabd3f0ad02a4cc1c7de7cc946626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 07/41] fix: keep empty histograms empty in
 resample_histogram1d

Resampling an empty histogram to bins reaching beyond the upper edge of the
old bins resulted in one count, as the cumulative distribution was filled
with 1. Interpolate the cumulative sum directly, which also allows integers.
---
 pyirf/binning.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pyirf/binning.py b/pyirf/binning.py
index 0eb4413..afde3b3 100644
--- a/pyirf/binning.py
+++ b/pyirf/binning.py
@@ -280,20 +280,16 @@ def resample_histogram1d(data, old_edges, new_edges, axis=0):
 
     cumsum = np.insert(data.cumsum(axis=axis), 0, 0, axis=axis)
 
-    norm = data.sum(axis=axis, keepdims=True)
-    norm[norm == 0] = 1
-    cumsum /= norm
-
     f_integral = interp1d(
         old_edges,
         cumsum,
         bounds_error=False,
-        fill_value=(0, 1),
+        fill_value=(0, cumsum.take(-1, axis=axis)),
         kind="quadratic",
         axis=axis,
     )
 
-    values = np.diff(f_integral(new_edges), axis=axis) * norm
+    values = np.diff(f_integral(new_edges), axis=axis)
     if data_unit:
         values = u.Quantity(values, unit=data_unit)
 
-- 
2.43.0


From 43f113710723dee422eb900443eb6e5441eedcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 08/41] fix: smooth percentile cuts along the bins also for
 multiple percentiles

gaussian_filter1d was applied to the last axis, which are the percentiles
and not the bins if more than one percentile is given.
---
 pyirf/cuts.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyirf/cuts.py b/pyirf/cuts.py
index e9211c2..090b0bd 100644
--- a/pyirf/cuts.py
+++ b/pyirf/cuts.py
@@ -111,6 +111,7 @@ def calculate_percentile_cut(
             cut_table["cut"].value,
             smoothing,
             mode="nearest",
+            axis=0,
         )
 
     return cut_table
-- 
2.43.0


From 6499f7eb5537c187057b39d438ccd5178d2261d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 09/41] fix: broadcast n_on, n_off and alpha in
 li_ma_significance

Combining arrays with scalars failed or returned only the first element.
---
 pyirf/statistics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyirf/statistics.py b/pyirf/statistics.py
index 988bfd7..4d4da2f 100644
--- a/pyirf/statistics.py
+++ b/pyirf/statistics.py
@@ -31,13 +31,14 @@ def li_ma_significance(n_on, n_off, alpha=0.2):
         The calculated significance
     """
 
-    scalar = is_scalar(n_on)
+    scalar = is_scalar(n_on) and is_scalar(n_off) and is_scalar(alpha)
 
     # Cast everything into float64 to avoid numeric instabilties
     # when multiplying very small and very big numbers to get t1 and t2
     n_on = np.array(n_on, copy=COPY_IF_NEEDED, ndmin=1, dtype=np.float64)
     n_off = np.array(n_off, copy=COPY_IF_NEEDED, ndmin=1, dtype=np.float64)
     alpha = np.float64(alpha)
+    n_on, n_off, alpha = np.broadcast_arrays(n_on, n_off, alpha)
 
     with np.errstate(divide="ignore", invalid="ignore"):
         p_on = n_on / (n_on + n_off)
-- 
2.43.0


From 7aa47326bde3e83b05167d0567d0172141cb74a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 10/41] fix: return 0 instead of nan significance for n_on
 close to alpha * n_off

Rounding errors could result in the square root of a tiny negative number.
---
 pyirf/statistics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyirf/statistics.py b/pyirf/statistics.py
index 4d4da2f..9daf283 100644
--- a/pyirf/statistics.py
+++ b/pyirf/statistics.py
@@ -51,7 +51,8 @@ def li_ma_significance(n_on, n_off, alpha=0.2):
         t1[n_on == 0] = 0
         t2[n_off == 0] = 0
 
-        ts = t1 + t2
+        # can be slightly negative due to rounding errors for n_on close to alpha * n_off
+        ts = np.maximum(t1 + t2, 0)
 
         significance = np.sqrt(ts * 2)
 
-- 
2.43.0


From dec02b702c2e01585888bd17f7b119191a72049f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 11/41] fix: find the relative sensitivity also outside of the
 initial search interval

With only few expected background events, the solution is not always inside
of the fixed search interval, resulting in nan also for very strong signals.
---
 pyirf/sensitivity.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyirf/sensitivity.py b/pyirf/sensitivity.py
index c8873c8..1dd9b21 100644
--- a/pyirf/sensitivity.py
+++ b/pyirf/sensitivity.py
@@ -64,6 +64,18 @@ def _relative_sensitivity(
             upper_bound = 100
             lower_bound = 1e-4
 
+        # the naive estimate can be off by more than the factors above for a small
+        # number of expected background events, enlarge the interval if needed
+        for _ in range(30):
+            if equation(upper_bound) >= 0:
+                break
+            upper_bound *= 10
+
+        for _ in range(30):
+            if equation(lower_bound) <= 0:
+                break
+            lower_bound /= 10
+
         relative_flux = brentq(equation, lower_bound, upper_bound)
 
     except (RuntimeError, ValueError) as e:
-- 
2.43.0


From 6d3fba881c9eec8c2c24125f8f5cc4ddee3a61b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 12/41] fix: do not overwrite the effective areas passed to
 EffectiveAreaEstimator

to_value does not copy if the unit matches, so values below
min_effective_area were overwritten in the array of the user.
---
 pyirf/interpolation/component_estimators.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 6f019af..de4edb2 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -433,10 +433,8 @@ class EffectiveAreaEstimator(ParametrizedComponentEstimator):
 
         self.min_effective_area = min_effective_area
 
-        # remove zeros and log it
-        effective_area[effective_area < self.min_effective_area] = (
-            self.min_effective_area
-        )
+        # remove zeros and log it, make sure we do not mutate the input array
+        effective_area = np.maximum(effective_area, self.min_effective_area)
         effective_area = np.log(effective_area)
 
         super().__init__(
-- 
2.43.0


From 1b9fd0fd377cae061576e8cd750f8e52c13772b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 13/41] fix: return zero effective area where all templates are
 at the minimum

Values lower or equal to min_effective_area are documented to be set to zero,
but bins which are empty in all templates resulted in min_effective_area or 0
depending on rounding errors.
---
 pyirf/interpolation/component_estimators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index de4edb2..02df5e4 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -470,7 +470,10 @@ class EffectiveAreaEstimator(ParametrizedComponentEstimator):
         # exp it and set to zero too low values
         aeff_interp = np.exp(aeff_interp)
         # remove entries manipulated by min_effective_area
-        aeff_interp[aeff_interp < self.min_effective_area] = 0
+        too_low = aeff_interp < self.min_effective_area
+        # entries equal to the minimum are subject to rounding errors
+        at_minimum = np.isclose(aeff_interp, self.min_effective_area, rtol=1e-9, atol=0)
+        aeff_interp[too_low | at_minimum] = 0
 
         return u.Quantity(aeff_interp, u.m**2, copy=COPY_IF_NEEDED)
 
-- 
2.43.0


From b0e11aaf8c046f8583b24c1d62821c5eca63cd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 14/41] fix: do not modify the kwargs dicts passed to
 PSFTableEstimator

Re-using the same dict for another estimator, e.g. for the energy dispersion,
would silently use the solid angle normalization there.
---
 pyirf/interpolation/component_estimators.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 02df5e4..5de2491 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -814,11 +814,9 @@ class PSFTableEstimator(DiscretePDFComponentEstimator):
 
         psf = np.swapaxes(psf, axis, -1)
 
-        if interpolator_kwargs is None:
-            interpolator_kwargs = {}
-
-        if extrapolator_kwargs is None:
-            extrapolator_kwargs = {}
+        # make sure we do not mutate the input dicts
+        interpolator_kwargs = dict(interpolator_kwargs or {})
+        extrapolator_kwargs = dict(extrapolator_kwargs or {})
 
         interpolator_kwargs.setdefault(
             "normalization", PDFNormalization.CONE_SOLID_ANGLE
-- 
2.43.0


From 217428792cc485d19c8834e65e3edced675b1c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 15/41] fix: allow DiscretePDFNearestNeighborSearcher in
 PSFTableEstimator

PSFTableEstimator passes the normalization to all inter- and extrapolators.
---
 pyirf/interpolation/nearest_neighbor_searcher.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyirf/interpolation/nearest_neighbor_searcher.py b/pyirf/interpolation/nearest_neighbor_searcher.py
index d1f368c..bca4553 100644
--- a/pyirf/interpolation/nearest_neighbor_searcher.py
+++ b/pyirf/interpolation/nearest_neighbor_searcher.py
@@ -5,6 +5,7 @@ from .base_interpolators import (
     BaseInterpolator,
     DiscretePDFInterpolator,
     ParametrizedInterpolator,
+    PDFNormalization,
 )
 
 __all__ = [
@@ -104,7 +105,14 @@ class DiscretePDFNearestNeighborSearcher(BaseNearestNeighborSearcher):
     Compatible with discretized PDF IRF component API.
     """
 
-    def __init__(self, grid_points, bin_edges, binned_pdf, norm_ord=2):
+    def __init__(
+        self,
+        grid_points,
+        bin_edges,
+        binned_pdf,
+        norm_ord=2,
+        normalization=PDFNormalization.AREA,
+    ):
         """
         NearestNeighborSearcher compatible with discretized PDF IRF components API
 
@@ -123,6 +131,8 @@ class DiscretePDFNearestNeighborSearcher(BaseNearestNeighborSearcher):
             Order of the norm which is used to compute the distances,
             passed to numpy.linalg.norm [1]. Defaults to 2,
             which uses the euclidean norm.
+        normalization: PDFNormalization
+            How the PDF is normalized. Ignored for nearest neighbor searching.
 
         Notes
         -----
-- 
2.43.0


From 334ecca6d06ce270ee23b0cac55f80ceb0ff429c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 16/41] fix: return a copy from the nearest neighbor searchers,
 support 1d values

The result was a view of the template, so modifying it in place, as done by
RadMaxEstimator, modified the template, too.
---
 pyirf/interpolation/nearest_neighbor_searcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyirf/interpolation/nearest_neighbor_searcher.py b/pyirf/interpolation/nearest_neighbor_searcher.py
index bca4553..a5d7500 100644
--- a/pyirf/interpolation/nearest_neighbor_searcher.py
+++ b/pyirf/interpolation/nearest_neighbor_searcher.py
@@ -95,7 +95,8 @@ class BaseNearestNeighborSearcher(BaseInterpolator):
 
         index = np.argmin(distances)
 
-        return self.values[index, :]
+        # return a copy, so that changing the result does not change the template
+        return np.array(self.values[index], ndmin=1, subok=True)
 
 
 class DiscretePDFNearestNeighborSearcher(BaseNearestNeighborSearcher):
-- 
2.43.0


From 4d79f4ed660a279ade9baaa9dfc7dc22b05a9336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 17/41] fix: allow estimation at the last grid point in 1d

MomentMorphInterpolator and the fill value handling of RadMaxEstimator raised
an IndexError for a target equal to the largest grid point.
---
 pyirf/interpolation/component_estimators.py      | 2 ++
 pyirf/interpolation/moment_morph_interpolator.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 5de2491..1d88f83 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -617,6 +617,8 @@ class RadMaxEstimator(ParametrizedComponentEstimator):
                 target_bin = np.digitize(
                     target_point.squeeze(), self.grid_points.squeeze()
                 )
+                # the last grid point belongs to the last segment
+                target_bin = min(target_bin, self.n_points - 1)
                 segment_inds = np.array([target_bin - 1, target_bin], "int")
 
             mask_left = self.params[segment_inds[0]] >= self.fill_val
diff --git a/pyirf/interpolation/moment_morph_interpolator.py b/pyirf/interpolation/moment_morph_interpolator.py
index 1388061..b38ab3f 100644
--- a/pyirf/interpolation/moment_morph_interpolator.py
+++ b/pyirf/interpolation/moment_morph_interpolator.py
@@ -304,6 +304,8 @@ class MomentMorphInterpolator(DiscretePDFInterpolator):
         on this subset.
         """
         target_bin = np.digitize(target_point.squeeze(), self.grid_points.squeeze())
+        # the last grid point belongs to the last segment
+        target_bin = min(target_bin, self.n_points - 1)
         segment_inds = np.array([target_bin - 1, target_bin], "int")
         coefficients = linesegment_1D_interpolation_coefficients(
             grid_points=self.grid_points[segment_inds],
-- 
2.43.0


From 0b9e77b9eefbd90eb5b50af52ae981fa1a7f8862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 18/41] fix: flag the correct fill values for unsorted 1d grids
 in RadMaxEstimator

The grid points are sorted in 1d, but the fill values were looked up in the
unsorted tables.
---
 pyirf/interpolation/component_estimators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 1d88f83..2ab4860 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -540,6 +540,9 @@ class RadMaxEstimator(ParametrizedComponentEstimator):
         )
 
         self.params = rad_max
+        # use the same order as the grid points, which are sorted for 1D
+        if self.grid_dim == 1:
+            self.params = rad_max[np.argsort(grid_points.squeeze())]
 
         if fill_value is None:
             self.fill_val = None
-- 
2.43.0


From 47c3ce9dd0f82d23d060adca0382412ef20b384e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 19/41] fix: handle fill values in RadMaxEstimator if only the
 interpolator is nearest neighbor

Extrapolated tables were returned without fill value handling if a nearest
neighbor searcher is used for interpolation, but not for extrapolation.
---
 pyirf/interpolation/component_estimators.py | 22 ++++++---------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 2ab4860..e2e71f2 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -591,23 +591,13 @@ class RadMaxEstimator(ParametrizedComponentEstimator):
         # Early exit if a nearest neighbor estimation would be overwritten
         # Complex setup is needed to catch settings where the user mixes approaches and
         # e.g. uses nearest neighbors for extrapolation and an actual interpolation otherwise
-        if self.grid_dim == 1:
-            if (
-                (target_point < self.grid_points.min())
-                or (target_point > self.grid_points.max())
-            ) and issubclass(self.extrapolator.__class__, BaseNearestNeighborSearcher):
-                return full_estimation
-            elif issubclass(self.interpolator.__class__, BaseNearestNeighborSearcher):
-                return full_estimation
-        elif self.grid_dim == 2:
-            target_simplex = self.triangulation.find_simplex(target_point)
+        if self._target_in_grid(np.atleast_2d(target_point)):
+            used_estimator = self.interpolator
+        else:
+            used_estimator = self.extrapolator
 
-            if (target_simplex == -1) and issubclass(
-                self.extrapolator.__class__, BaseNearestNeighborSearcher
-            ):
-                return full_estimation
-            elif issubclass(self.interpolator.__class__, BaseNearestNeighborSearcher):
-                return full_estimation
+        if isinstance(used_estimator, BaseNearestNeighborSearcher):
+            return full_estimation
 
         # Actual fill-value handling
         if self.grid_dim == 1:
-- 
2.43.0


From 35f8e023b3141bca6b7912e058c9e59a4579bad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 20/41] fix: allow target points of shape (1, 2) for fill
 values outside of the grid

RadMaxEstimator failed for the documented shape of the target point in two
grid dimensions if extrapolation is needed.
---
 pyirf/interpolation/component_estimators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index e2e71f2..6d3a2f4 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -623,7 +623,9 @@ class RadMaxEstimator(ParametrizedComponentEstimator):
             target_simplex = self.triangulation.find_simplex(target_point)
 
             if target_simplex == -1:
-                target_simplex = find_nearest_simplex(self.triangulation, target_point)
+                target_simplex = find_nearest_simplex(
+                    self.triangulation, target_point.squeeze()
+                )
 
             simplex_nodes_indices = self.triangulation.simplices[
                 target_simplex
-- 
2.43.0


From ef8a02447622de7ae95236627ccf268d3b248e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 21/41] fix: restore the axis order after nearest neighbor
 search for positive axis

Nearest neighbor searchers drop the leading axis, so swapping back a non
negative axis swapped the wrong axes.
---
 pyirf/interpolation/component_estimators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 6d3a2f4..b50805d 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -721,7 +721,9 @@ class EnergyDispersionEstimator(DiscretePDFComponentEstimator):
         and pyirf.interpolation.ParametrizedEstimator
         """
 
-        self.axis = axis
+        # use the position relative to the last axis, as the leading axis is dropped
+        # by nearest neighbor searching
+        self.axis = axis if axis < 0 else axis - energy_dispersion.ndim
 
         super().__init__(
             grid_points=grid_points,
@@ -807,7 +809,9 @@ class PSFTableEstimator(DiscretePDFComponentEstimator):
         and pyirf.interpolation.ParametrizedEstimator
         """
 
-        self.axis = axis
+        # use the position relative to the last axis, as the leading axis is dropped
+        # by nearest neighbor searching
+        self.axis = axis if axis < 0 else axis - psf.ndim
 
         psf = np.swapaxes(psf, axis, -1)
 
-- 
2.43.0


From 8c873fc8d3f13736638dd3c46fc9c3cda717aa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 22/41] fix: support bins of different width in
 QuantileInterpolator

The interpolated densities were treated as probabilities, which is only valid
if all bins have the same width. E.g. for logarithmic migration bins, not even
identical templates were reproduced.
---
 pyirf/interpolation/quantile_interpolator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyirf/interpolation/quantile_interpolator.py b/pyirf/interpolation/quantile_interpolator.py
index 9b3106a..20cfea3 100644
--- a/pyirf/interpolation/quantile_interpolator.py
+++ b/pyirf/interpolation/quantile_interpolator.py
@@ -257,9 +257,12 @@ class QuantileInterpolator(DiscretePDFInterpolator):
             self.bin_edges, interpolated_ppfs, self.quantiles
         )[..., 1:]
 
+        # These are densities between neighboring bin mids, convert them to probabilities
+        interpolated_probabilities = interpolated_pdfs * np.diff(self.bin_mids)
+
         # Renormalize pdf to sum of 1
         normed_interpolated_pdfs = norm_pdf(
-            interpolated_pdfs, self.bin_edges[1:], self.normalization
+            interpolated_probabilities, self.bin_edges[1:], self.normalization
         )
 
         # Re-swap axes and set all nans to zero
-- 
2.43.0


From bb2ce38deeb12846cd510a180f0815082b023aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 23/41] fix: keep the gaussian component in integrate_cone

PowerLawWithExponentialGaussian inherits integrate_cone, which returned only
the power law component.
---
 pyirf/spectral.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyirf/spectral.py b/pyirf/spectral.py
index 7396df1..5ea59d8 100644
--- a/pyirf/spectral.py
+++ b/pyirf/spectral.py
@@ -3,6 +3,7 @@ Functions and classes for calculating spectral weights
 """
 
 import sys
+from copy import copy
 from importlib.resources import as_file, files
 
 import astropy.units as u
@@ -172,11 +173,10 @@ class PowerLaw:
 
         solid_angle = cone_solid_angle(outer) - cone_solid_angle(inner)
 
-        return PowerLaw(
-            normalization=self.normalization * solid_angle,
-            index=self.index,
-            e_ref=self.e_ref,
-        )
+        # keep the additional parameters of derived classes
+        integrated = copy(self)
+        integrated.normalization = self.normalization * solid_angle
+        return integrated
 
 
 class LogParabola:
-- 
2.43.0


From 20bb8351a5c17716b0565ea749b6e95f04871b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 24/41] fix: avoid integer overflow for the number of showers
 from the run header

num_use and num_showers are stored as 32 bit integers, their product
with the number of runs is not limited to that range.
---
 pyirf/io/eventdisplay.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyirf/io/eventdisplay.py b/pyirf/io/eventdisplay.py
index a46054c..d244e43 100644
--- a/pyirf/io/eventdisplay.py
+++ b/pyirf/io/eventdisplay.py
@@ -59,7 +59,9 @@ def read_eventdisplay_fits(infile, use_histogram=True):
     n_runs = len(unique(events[['obs_id', 'pointing_az', 'pointing_alt']]))
     log.info(f"Estimated number of runs from obs ids and pointing position: {n_runs}")
 
-    n_showers_guessed = n_runs * run_header["num_use"] * run_header["num_showers"]
+    n_showers_guessed = (
+        n_runs * int(run_header["num_use"]) * int(run_header["num_showers"])
+    )
     n_showers_hist = int(sim_events["EVENTS"].sum())
 
     if use_histogram:
-- 
2.43.0


From 6c5eeb027331c019ef69808644e2007cdc3c8bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 25/41] fix: blend scalar parameters over all visible edges

squeeze() also removed the parameter axis for scalar parameters (and any other
axis of length 1), so that the weights were broadcast against the wrong axis.
---
 pyirf/interpolation/visible_edges_extrapolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyirf/interpolation/visible_edges_extrapolator.py b/pyirf/interpolation/visible_edges_extrapolator.py
index 114cc7c..2e1490c 100644
--- a/pyirf/interpolation/visible_edges_extrapolator.py
+++ b/pyirf/interpolation/visible_edges_extrapolator.py
@@ -186,7 +186,7 @@ class ParametrizedVisibleEdgesExtrapolator(ParametrizedNearestSimplexExtrapolato
                     [
                         extrapolate2D(
                             self.triangulation.simplices[ind], target_point
-                        ).squeeze()
+                        )[0]
                         for ind in visible_simplices_indices
                     ]
                 )
-- 
2.43.0


From b9d8b993d31c6abf1fbbd7a8671d628eea4c5d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 26/41] fix: use only facets of the convex hull in the visible
 edges extrapolation

Adding the target to the Delaunay triangulation also removes simplices of which
the circumcircle contains the target, so that edges inside of the grid were
treated as visible and extrapolated from arbitrary simplices.
---
 .../visible_edges_extrapolator.py             | 45 ++++++++-----------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/pyirf/interpolation/visible_edges_extrapolator.py b/pyirf/interpolation/visible_edges_extrapolator.py
index 2e1490c..5ad2f48 100644
--- a/pyirf/interpolation/visible_edges_extrapolator.py
+++ b/pyirf/interpolation/visible_edges_extrapolator.py
@@ -16,9 +16,9 @@ def find_visible_facets(grid_points, target_point):
     """
     Find all facets of a convex hull visible from an outside point.
     
-    To do so, this function constructs a triangulation containing
-    the target point and returns all facets that span a triangulation simplex with
-    it.
+    To do so, this function constructs a triangulation of the grid points and
+    returns all facets of its convex hull for which the target point lies on the
+    outer side.
 
     Parameters
     ----------
@@ -34,27 +34,20 @@ def find_visible_facets(grid_points, target_point):
         L visible facets, spanned by a simplex in M-1 dimensions
         (thus a line for M=2)
     """
-    # Build a triangulation including the target point
-    full_set = np.vstack((grid_points, target_point))
-    triag = Delaunay(full_set)
-
-    # The target point is included in a simplex with all facets
-    # visible by it
-    simplices = triag.points[triag.simplices]
-    matches_target = np.all(simplices == target_point, axis=-1)
-    target_in_simplex = np.any(matches_target, axis=-1)
-
-    # The visible facets are spanned by those points in the matched
-    # simplices that are not the target
-    facet_point_mask = ~matches_target[target_in_simplex]
-    visible_facets = np.array(
-        [
-            triag.points[simplex[mask]]
-            for simplex, mask in zip(
-                triag.simplices[target_in_simplex], facet_point_mask
-            )
-        ]
-    )
+    triag = Delaunay(grid_points)
+    # facets in order of their grid points
+    convex_hull = np.unique(np.sort(triag.convex_hull, axis=-1), axis=0)
+    facets = triag.points[convex_hull]
+    # the mean of all grid points is always inside of the convex hull
+    inner_point = triag.points.mean(axis=0)
+
+    # A facet is visible if target and inner point are on different sides of it
+    edge = facets[:, 1] - facets[:, 0]
+    normal = np.column_stack((-edge[:, 1], edge[:, 0]))
+    side_target = np.sum(normal * (target_point - facets[:, 0]), axis=-1)
+    side_inner = np.sum(normal * (inner_point - facets[:, 0]), axis=-1)
+
+    visible_facets = facets[side_target * side_inner < 0]
 
     return visible_facets
 
@@ -88,7 +81,7 @@ def compute_extrapolation_weights(visible_facet_points, target_point, m):
             for line in visible_facet_points
         ]
     )
-    weights = np.arccos(angles) ** (m + 1)
+    weights = np.arccos(np.clip(angles, -1, 1)) ** (m + 1)
 
     return weights / weights.sum()
 
@@ -155,7 +148,7 @@ class ParametrizedVisibleEdgesExtrapolator(ParametrizedNearestSimplexExtrapolato
         elif self.grid_dim == 2:
             visible_facet_points = find_visible_facets(self.grid_points, target_point)
 
-            if visible_facet_points.shape[0] == 1:
+            if visible_facet_points.shape[0] <= 1:
                 return super().extrapolate(target_point)
             else:
                 simplices_points = self.triangulation.points[
-- 
2.43.0


From 8e889199a4fb2fb4eda0444d15bbc9ae80ac5188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:52 +0000
Subject: [PATCH 27/41] fix: keep true energy bins without events empty in
 energy_dispersion_to_migration

Rounding errors of the interpolation were normalized to a probability of 1.
---
 pyirf/irf/energy_dispersion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyirf/irf/energy_dispersion.py b/pyirf/irf/energy_dispersion.py
index f34c354..64980b8 100644
--- a/pyirf/irf/energy_dispersion.py
+++ b/pyirf/irf/energy_dispersion.py
@@ -189,8 +189,10 @@ def energy_dispersion_to_migration(
     )
 
     norm = np.sum(true_energy_interpolation, axis=1, keepdims=True)
-    norm[norm == 0] = 1
-    true_energy_interpolation /= norm
+    # bins without any events might not be exactly 0 after the interpolation
+    empty = np.isclose(norm, 0, atol=1e-10)
+    norm[empty] = 1
+    true_energy_interpolation = np.where(empty, 0, true_energy_interpolation / norm)
 
     for idx, e_true in enumerate(
         (new_true_energy_edges[1:] + new_true_energy_edges[:-1]) / 2
-- 
2.43.0


From 68bec81a1250ef7425452ef8024d5a9e8f03511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:09 +0000
Subject: [PATCH 28/41] fix: allow a list of theta cut efficiencies in
 optimize_cuts

---
 pyirf/cut_optimization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyirf/cut_optimization.py b/pyirf/cut_optimization.py
index d8c1a51..dfdf4c4 100644
--- a/pyirf/cut_optimization.py
+++ b/pyirf/cut_optimization.py
@@ -72,6 +72,7 @@ def optimize_cuts(
     """
     gh_cut_efficiencies = np.asanyarray(gh_cut_efficiencies)
     gh_cut_percentiles = 100 * (1 - gh_cut_efficiencies)
+    theta_cut_efficiencies = np.asanyarray(theta_cut_efficiencies)
     fill_value = signal['gh_score'].max()
 
     sensitivities = []
-- 
2.43.0


From 63496f5f93c949c20b908a97960774ce9c0088cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 29/41] fix: find the nearest facet also for facets almost
 parallel to an axis

---
 pyirf/interpolation/utils.py | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/pyirf/interpolation/utils.py b/pyirf/interpolation/utils.py
index b71adcd..b9363a6 100644
--- a/pyirf/interpolation/utils.py
+++ b/pyirf/interpolation/utils.py
@@ -36,22 +36,11 @@ def plumb_point_dist(line, target):
     B = line[1]
     P = target
 
-    # Costruct the footpoint/plumb point of the target projected onto
-    # both lines OA + r1*AB (F1) and OB + r1*BA (F2), for details see
+    # Parameter value of the footpoint/plumb point of the target projected onto
+    # both lines OA + r1*AB and OB + r2*BA, for details see
     # https://en.wikipedia.org/wiki/Distance_from_a_point_to_a_line#Vector_formulation
-    F1 = A + np.dot(P - A, B - A) * (B - A) / np.dot(B - A, B - A)
-    F2 = B + np.dot(P - B, A - B) * (A - B) / np.dot(A - B, A - B)
-
-    # Find, at which parameter value r1/r2 the plumb point lies on line F1/F2
-    if B[0] - A[0] == 0:
-        r1 = (F1[1] - A[1]) / (B[1] - A[1])
-    else:
-        r1 = (F1[0] - A[0]) / (B[0] - A[0])
-
-    if A[0] - B[0] == 0:
-        r2 = (F2[1] - B[1]) / (A[1] - B[1])
-    else:
-        r2 = (F2[0] - B[0]) / (A[0] - B[0])
+    r1 = np.dot(P - A, B - A) / np.dot(B - A, B - A)
+    r2 = np.dot(P - B, A - B) / np.dot(A - B, A - B)
 
     # If |r1| + |r2| == 1, the plomb point lies between A and B, thus the
     # distance is the seareched one. In cases where the plumb point is A or B
-- 
2.43.0


From 5cf7c745712b19f833cdda7fcada822962b891f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 30/41] fix: use the standard deviation of a bin for all
 templates with a single filled bin in moment morphing

---
 pyirf/interpolation/moment_morph_interpolator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyirf/interpolation/moment_morph_interpolator.py b/pyirf/interpolation/moment_morph_interpolator.py
index b38ab3f..f7a72b8 100644
--- a/pyirf/interpolation/moment_morph_interpolator.py
+++ b/pyirf/interpolation/moment_morph_interpolator.py
@@ -46,8 +46,8 @@ def _estimate_mean_std(bin_edges, binned_pdf, normalization):
 
     # Set std to 0.5*width for all those templates that have only one bin =/= 0. In those
     # cases mids-mean = 0 and therefore std = 0. Uses the width of the one bin with
-    # binned_pdf!=0
-    mask = std == 0
+    # binned_pdf!=0. Due to rounding errors, std might not be exactly 0 for these.
+    mask = np.count_nonzero(binned_pdf, axis=-1) == 1
     if np.any(mask):
         width = np.diff(bin_edges)
         # std of a uniform distribution inside the bin
-- 
2.43.0


From d1fabc509df8eb82f5a843e45f42f4480289f2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 31/41] fix: return an empty histogram instead of nan for
 extrapolated width of zero in moment morphing

---
 pyirf/interpolation/moment_morph_interpolator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyirf/interpolation/moment_morph_interpolator.py b/pyirf/interpolation/moment_morph_interpolator.py
index f7a72b8..d67b5b0 100644
--- a/pyirf/interpolation/moment_morph_interpolator.py
+++ b/pyirf/interpolation/moment_morph_interpolator.py
@@ -229,7 +229,8 @@ def moment_morph_estimation(bin_edges, binned_pdf, coefficients, normalization):
     sig_prime = np.sum(coefficients * sigs, axis=0)
 
     # Compute slope and offset as in eq. (14) and (15) in [1]
-    aij = sigs / sig_prime
+    # (extrapolation might result in a width of zero, nothing is left in this case)
+    aij = np.divide(sigs, sig_prime, out=np.zeros_like(sigs), where=sig_prime != 0)
     bij = mus - mu_prime * aij
 
     # Transformation as in eq. (13) in [1]
-- 
2.43.0


From 6ad05a067386f7835533e41be5cee06311d711d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 32/41] fix: support moment morphing of point spread functions
 with units in PSFTableEstimator

---
 pyirf/interpolation/component_estimators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index b50805d..f532f4a 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -813,7 +813,8 @@ class PSFTableEstimator(DiscretePDFComponentEstimator):
         # by nearest neighbor searching
         self.axis = axis if axis < 0 else axis - psf.ndim
 
-        psf = np.swapaxes(psf, axis, -1)
+        # get rid of units
+        psf = np.swapaxes(psf.to_value(u.sr**-1), axis, -1)
 
         # make sure we do not mutate the input dicts
         interpolator_kwargs = dict(interpolator_kwargs or {})
-- 
2.43.0


From 09bcab55cd75bf3a041f892fe5dcc722e8341ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:01 +0000
Subject: [PATCH 33/41] fix: raise WrongColumnUnit for columns without unit in
 check_table

---
 pyirf/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyirf/utils.py b/pyirf/utils.py
index e1d41c6..d2e8539 100644
--- a/pyirf/utils.py
+++ b/pyirf/utils.py
@@ -243,5 +243,9 @@ def check_table(table, required_columns=None, required_units=None):
                 raise MissingColumns(col)
 
             unit = table[col].unit
+            # columns without unit are dimensionless
+            if unit is None:
+                unit = u.dimensionless_unscaled
+
             if not expected.is_equivalent(unit):
                 raise WrongColumnUnit(col, unit, expected)
-- 
2.43.0


From 366e456083fd3360d84e447c0189fb8efdae46ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:40 +0000
Subject: [PATCH 34/41] fix: relative sensitivity was nan if the root finding
 was slowed down by rounding errors

---
 pyirf/sensitivity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyirf/sensitivity.py b/pyirf/sensitivity.py
index 1dd9b21..6988515 100644
--- a/pyirf/sensitivity.py
+++ b/pyirf/sensitivity.py
@@ -76,7 +76,8 @@ def _relative_sensitivity(
                 break
             lower_bound /= 10
 
-        relative_flux = brentq(equation, lower_bound, upper_bound)
+        # rounding errors of the significance can slow down the convergence
+        relative_flux = brentq(equation, lower_bound, upper_bound, maxiter=1000)
 
     except (RuntimeError, ValueError) as e:
         log.warning(
-- 
2.43.0


From 98813d837702e80876dfa2bcce1a9c60e280ec46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:54 +0000
Subject: [PATCH 35/41] fix: reject not matching bin edges also if they are
 small numbers

The default absolute tolerance of np.allclose accepted any edges below 1e-8,
e.g. energies in J.
---
 pyirf/binning.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyirf/binning.py b/pyirf/binning.py
index afde3b3..c013b71 100644
--- a/pyirf/binning.py
+++ b/pyirf/binning.py
@@ -39,7 +39,11 @@ def join_bin_lo_hi(bin_lo, bin_hi):
         The joint bins
     """
 
-    if np.allclose(bin_lo[..., 1:], bin_hi[..., :-1], rtol=1.0e-5):
+    # rounding errors close to zero scale with the edges, whatever their unit is
+    edges = np.where(np.isfinite(bin_lo), bin_lo, 0)
+    atol = 1e-8 * np.max(np.abs(edges), axis=-1, keepdims=True) if edges.size else 0
+
+    if np.allclose(bin_lo[..., 1:], bin_hi[..., :-1], rtol=1.0e-5, atol=atol):
         last_axis = len(bin_lo.shape) - 1
         bins = np.concatenate((bin_lo, bin_hi[..., -1:]), axis=last_axis)
         return bins
-- 
2.43.0


From 2a034ff855241c515c47ca361cc217b87d03d9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:23 +0000
Subject: [PATCH 36/41] fix: do not truncate percentile cuts of integer values

---
 pyirf/cuts.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyirf/cuts.py b/pyirf/cuts.py
index 090b0bd..d6d1360 100644
--- a/pyirf/cuts.py
+++ b/pyirf/cuts.py
@@ -83,11 +83,14 @@ def calculate_percentile_cut(
         unit = fill_value.unit
         fill_value = fill_value.value
 
+    # the percentiles of integers are not integers in general
+    dtype = values.dtype if values.dtype.kind == "f" else np.float64
+
     percentile = np.asanyarray(percentile)
     if percentile.shape == ():
-        cut_table["cut"] = np.asanyarray(fill_value, values.dtype)
+        cut_table["cut"] = np.asanyarray(fill_value, dtype)
     else:
-        cut_table["cut"] = np.full((n_bins, len(percentile)), fill_value, dtype=values.dtype)
+        cut_table["cut"] = np.full((n_bins, len(percentile)), fill_value, dtype=dtype)
 
     if unit is not None:
         cut_table["cut"].unit = unit
-- 
2.43.0


From 919f982e6f10e0d41f2a6437f38ca2c0e1fee87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:23 +0000
Subject: [PATCH 37/41] fix: estimate at grid points of unsigned and short
 integer types

---
 pyirf/interpolation/base_extrapolators.py | 3 ++-
 pyirf/interpolation/base_interpolators.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyirf/interpolation/base_extrapolators.py b/pyirf/interpolation/base_extrapolators.py
index 7624165..1107175 100644
--- a/pyirf/interpolation/base_extrapolators.py
+++ b/pyirf/interpolation/base_extrapolators.py
@@ -23,7 +23,8 @@ class BaseExtrapolator(metaclass=ABCMeta):
             Grid points at which templates exist
 
         """
-        self.grid_points = grid_points
+        # differences of e.g. unsigned integers would overflow
+        self.grid_points = np.asarray(grid_points, dtype=np.float64)
         if self.grid_points.ndim == 1:
             self.grid_points = self.grid_points.reshape(*self.grid_points.shape, 1)
         self.N = self.grid_points.shape[0]
diff --git a/pyirf/interpolation/base_interpolators.py b/pyirf/interpolation/base_interpolators.py
index 67bcc87..16a64b9 100644
--- a/pyirf/interpolation/base_interpolators.py
+++ b/pyirf/interpolation/base_interpolators.py
@@ -39,7 +39,8 @@ class BaseInterpolator(metaclass=ABCMeta):
             Grid points at which interpolation templates exist
 
         """
-        self.grid_points = grid_points
+        # differences of e.g. unsigned integers would overflow
+        self.grid_points = np.asarray(grid_points, dtype=np.float64)
         if self.grid_points.ndim == 1:
             self.grid_points = self.grid_points.reshape(*self.grid_points.shape, 1)
         self.n_points = self.grid_points.shape[0]
-- 
2.43.0


From e52af42ae9e77a4d7cc852f16baceea390e3ebf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:36 +0000
Subject: [PATCH 38/41] fix: respect scaled dimensionless units in the
 significance of the sensitivity

---
 pyirf/sensitivity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyirf/sensitivity.py b/pyirf/sensitivity.py
index 6988515..d47321e 100644
--- a/pyirf/sensitivity.py
+++ b/pyirf/sensitivity.py
@@ -278,9 +278,10 @@ def calculate_sensitivity(
     ):
         s[k] = background_hist[k]
 
+    n_on = s["n_signal_weighted"] + alpha * s["n_background_weighted"]
     s["significance"] = significance_function(
-        n_on=s["n_signal_weighted"] + alpha * s["n_background_weighted"],
-        n_off=s["n_background_weighted"],
+        n_on=u.Quantity(n_on, copy=COPY_IF_NEEDED).to_value(u.one),
+        n_off=n_off,
         alpha=alpha,
     )
     s["relative_sensitivity"] = rel_sens
-- 
2.43.0


From c1d6b1c8b8ce0bd7eb71a13a18646baaa4e67595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:36 +0000
Subject: [PATCH 39/41] fix: respect scaled dimensionless units of counts in
 li_ma_significance

---
 pyirf/statistics.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyirf/statistics.py b/pyirf/statistics.py
index 9daf283..f7411c1 100644
--- a/pyirf/statistics.py
+++ b/pyirf/statistics.py
@@ -1,4 +1,5 @@
 import numpy as np
+import astropy.units as u
 
 from .compat import COPY_IF_NEEDED
 from .utils import is_scalar
@@ -33,6 +34,12 @@ def li_ma_significance(n_on, n_off, alpha=0.2):
 
     scalar = is_scalar(n_on) and is_scalar(n_off) and is_scalar(alpha)
 
+    # np.array drops the unit, which can have a scale (e.g. percent)
+    n_on, n_off, alpha = (
+        x.to_value(u.one) if isinstance(x, u.Quantity) else x
+        for x in (n_on, n_off, alpha)
+    )
+
     # Cast everything into float64 to avoid numeric instabilties
     # when multiplying very small and very big numbers to get t1 and t2
     n_on = np.array(n_on, copy=COPY_IF_NEEDED, ndmin=1, dtype=np.float64)
-- 
2.43.0


From 1160814649c57f31d52174ceff264363ec4550c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:36 +0000
Subject: [PATCH 40/41] fix: allow dimensionless quantities (e.g. read from
 files) in EnergyDispersionEstimator

---
 pyirf/interpolation/component_estimators.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index f532f4a..92e138e 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -721,6 +721,12 @@ class EnergyDispersionEstimator(DiscretePDFComponentEstimator):
         and pyirf.interpolation.ParametrizedEstimator
         """
 
+        # get rid of units, e.g. of dimensionless columns read from a file
+        if isinstance(energy_dispersion, u.Quantity):
+            energy_dispersion = energy_dispersion.to_value(u.one)
+        if isinstance(migra_bins, u.Quantity):
+            migra_bins = migra_bins.to_value(u.one)
+
         # use the position relative to the last axis, as the leading axis is dropped
         # by nearest neighbor searching
         self.axis = axis if axis < 0 else axis - energy_dispersion.ndim
-- 
2.43.0


From 8305f65f1b8424ed7f43f70d4eefcb2e3597d616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:47 +0000
Subject: [PATCH 41/41] fix: respect scaled dimensionless units of weights in
 histograms of columns without unit

---
 pyirf/binning.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyirf/binning.py b/pyirf/binning.py
index c013b71..e763294 100644
--- a/pyirf/binning.py
+++ b/pyirf/binning.py
@@ -203,6 +203,16 @@ def create_histogram_table(events, bins, key="reco_energy"):
     hist: ``astropy.QTable``
         Astropy table containg the histogram.
     """
+    # np.histogram ignores the unit of the weights for columns without unit
+    weights = events["weight"] if "weight" in events.colnames else None
+    if (
+        isinstance(weights, u.Quantity)
+        and weights.unit.is_equivalent(u.one)
+        and not isinstance(events[key], u.Quantity)
+    ):
+        events = events.copy(copy_data=False)
+        events["weight"] = weights.to_value(u.one)
+
     hist = QTable()
     hist[key + "_low"] = bins[:-1]
     hist[key + "_high"] = bins[1:]
-- 
2.43.0

