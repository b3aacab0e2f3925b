From 930006b013b94e334f5bbfe1aad0082d23c30279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:41 +0000
Subject: [PATCH 01/42] fix: canopy meteorology crashes when air temperature is
 missing for some forest pixels

---
 openamundsen/modules/canopy/canopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/canopy/canopy.py b/openamundsen/modules/canopy/canopy.py
index 49fd295..fd74e93 100644
--- a/openamundsen/modules/canopy/canopy.py
+++ b/openamundsen/modules/canopy/canopy.py
@@ -91,7 +91,7 @@ class CanopyModel:
         pos_finite_temp = pos & np.isfinite(mean_24h_temp)
         delta_t = ((mean_24h_temp[pos_finite_temp] - c.T0) / 3).clip(-2, 2)  # eq. (5)
         s.meteo.temp[pos_finite_temp] -= (  # eq. (4)
-            canopy_frac
+            canopy_frac[pos_finite_temp[pos]]
             * (
                 s.meteo.temp[pos_finite_temp]
                 - (
-- 
2.43.0


From 6ce67bcbe4c9147603f87135c76e15e455936813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:41 +0000
Subject: [PATCH 02/42] fix: missing meteo data permanently invalidates the
 canopy interception storage

---
 openamundsen/modules/canopy/canopy.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/openamundsen/modules/canopy/canopy.py b/openamundsen/modules/canopy/canopy.py
index fd74e93..b4de2e8 100644
--- a/openamundsen/modules/canopy/canopy.py
+++ b/openamundsen/modules/canopy/canopy.py
@@ -187,9 +187,10 @@ class CanopyModel:
         max_interception_storage = (
             model.config.canopy.max_interception_storage_coefficient * s.land_cover.lai_eff[pos]
         )
+        snowfall = np.nan_to_num(s.meteo.snowfall[pos], nan=0.0)  # no interception if missing
         new_canopy_intercepted_load = s.snow.canopy_intercepted_load[pos] + 0.7 * (
             max_interception_storage - s.snow.canopy_intercepted_load[pos]
-        ) * (1 - np.exp(-s.meteo.snowfall[pos] / max_interception_storage))
+        ) * (1 - np.exp(-snowfall / max_interception_storage))
         s.snow.canopy_intercepted_snowfall[pos] = (
             new_canopy_intercepted_load - s.snow.canopy_intercepted_load[pos]
         ).clip(min=0)
@@ -221,7 +222,7 @@ class CanopyModel:
         s.snow.canopy_melt[pos] = np.minimum(
             (
                 model.config.canopy.degree_day_factor
-                * (s.meteo.temp[pos] - c.T0).clip(min=0)
+                * np.nan_to_num(s.meteo.temp[pos] - c.T0, nan=0.0).clip(min=0)
                 * model.timestep
                 / (c.SECONDS_PER_HOUR * c.HOURS_PER_DAY)
             ),
@@ -230,9 +231,11 @@ class CanopyModel:
         s.snow.canopy_intercepted_load[pos] -= s.snow.canopy_melt[pos]
 
         # Precipitation reaching the ground: reduce snowfall by canopy interception and increase by
-        # melt unload
-        s.meteo.snowfall[pos] -= s.snow.canopy_intercepted_snowfall[pos]
-        s.meteo.snowfall[pos] += s.snow.canopy_melt[pos]
+        # melt unload (if precipitation is missing, only the melt unload reaches the ground)
+        snowfall = np.where(s.snow.canopy_melt[pos] > 0, snowfall, s.meteo.snowfall[pos])
+        s.meteo.snowfall[pos] = (
+            snowfall - s.snow.canopy_intercepted_snowfall[pos] + s.snow.canopy_melt[pos]
+        )
         s.meteo.precip[pos] = s.meteo.snowfall[pos] + s.meteo.rainfall[pos]
 
 
-- 
2.43.0


From 61f9a39c4c933d3ef04a05eae21c145fad6c77a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:33 +0000
Subject: [PATCH 03/42] fix: humidity interpolation without extrapolation
 always returns 100 %

The interpolated relative humidities were restricted to the range of the
station dew point temperatures (in K) instead of the station humidities.
---
 openamundsen/meteo/interpolation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openamundsen/meteo/interpolation.py b/openamundsen/meteo/interpolation.py
index 6cc252e..e96f8d0 100644
--- a/openamundsen/meteo/interpolation.py
+++ b/openamundsen/meteo/interpolation.py
@@ -518,8 +518,10 @@ def interpolate_param(
     # Restrict interpolated values to the range of the point values if extrapolation is disabled in
     # the parameter config
     if not param_config["extrapolate"] and len(data) > 0:
-        min_range = np.nanmin(data)
-        max_range = np.nanmax(data)
+        # (for humidity "data" holds dew point temperatures at this point)
+        point_vals = rel_hums if param == "rel_hum" else data
+        min_range = np.nanmin(point_vals)
+        max_range = np.nanmax(point_vals)
 
         if np.isfinite(min_range):
             data_interpol = np.clip(data_interpol, min_range, max_range)
-- 
2.43.0


From 232310981e83b28c5edb511d4cfc7deb861cb3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:33 +0000
Subject: [PATCH 04/42] fix: elevation regression yields arbitrary lapse rates
 for stations at equal elevation

For two or more stations located at the same elevation the least squares
problem is rank deficient and the returned slope was arbitrary, resulting
in meteorological fields far outside the range of the measurements.
---
 openamundsen/meteo/interpolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openamundsen/meteo/interpolation.py b/openamundsen/meteo/interpolation.py
index e96f8d0..72040ab 100644
--- a/openamundsen/meteo/interpolation.py
+++ b/openamundsen/meteo/interpolation.py
@@ -70,7 +70,8 @@ def _linear_fit(x, y):
     -------
     slope, intercept : float
     """
-    if len(x) < 2:
+    if len(np.unique(x)) < 2:
+        # The slope is undefined for a single point and also for points with identical elevations
         slope = 0
         intercept = 0
     else:
-- 
2.43.0


From 6286719335d3ca928b7134f331a0fe7837479129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:33 +0000
Subject: [PATCH 05/42] fix: normalizing a constant array returns NaN

This resulted in missing wind speeds over the entire domain when using the
Liston and Elder (2006) wind correction with flat terrain.
---
 openamundsen/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openamundsen/util.py b/openamundsen/util.py
index 0a40726..ddaa40a 100644
--- a/openamundsen/util.py
+++ b/openamundsen/util.py
@@ -380,5 +380,9 @@ def normalize_array(data, min, max):  # noqa: A002
     data = np.asarray(data)
     data_min = np.nanmin(data)
     data_max = np.nanmax(data)
+
+    if data_min == data_max:  # constant data: use the center of the range
+        return np.where(np.isnan(data), np.nan, (min + max) / 2)
+
     scale_factor = (max - min) / (data_max - data_min)
     return min + scale_factor * (data - data_min)
-- 
2.43.0


From b7eded9031db005e867c6d7b378e2ba42d20397b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:33 +0000
Subject: [PATCH 06/42] fix: WMO precipitation correction fails for all gauges
 except Hellmann

---
 openamundsen/meteo/precipcorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/meteo/precipcorr.py b/openamundsen/meteo/precipcorr.py
index 7a83ff5..1c2a738 100644
--- a/openamundsen/meteo/precipcorr.py
+++ b/openamundsen/meteo/precipcorr.py
@@ -180,7 +180,7 @@ def correct_station_precipitation(model):
             elif gauge == "us_unsh":
                 cr[pos_snow] = np.exp(4.61 - 0.16 * wind_speeds_2m[pos_snow] ** 1.28)
                 cr[pos_mixed] = 100.77 - 8.34 * wind_speeds_2m[pos_mixed]
-            if gauge == "hellmann":
+            elif gauge == "hellmann":
                 cr[pos_snow] = (
                     100 + 1.13 * wind_speeds_2m[pos_snow] ** 2 - 19.45 * wind_speeds_2m[pos_snow]
                 )
-- 
2.43.0


From 47dff658f1f52ec7a18c07523a08cd350ed472bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:48 +0000
Subject: [PATCH 07/42] fix: dry_air_density() returns the product instead of
 the quotient of the ideal gas law

---
 openamundsen/meteo/atmosphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/meteo/atmosphere.py b/openamundsen/meteo/atmosphere.py
index 2d76a1a..4caa8c5 100644
--- a/openamundsen/meteo/atmosphere.py
+++ b/openamundsen/meteo/atmosphere.py
@@ -71,7 +71,7 @@ def dry_air_density(temp, pressure):
     density : numeric
         Dry air density (kg m-3).
     """
-    return pressure * (c.GAS_CONSTANT_DRY_AIR * temp)
+    return pressure / (c.GAS_CONSTANT_DRY_AIR * temp)
 
 
 def latent_heat_of_vaporization(temp):
-- 
2.43.0


From b759772b25e13bd41ca9805bc198380713273fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:44 +0000
Subject: [PATCH 08/42] fix: numba thread count of the host process is not
 restored if a time step fails

When run_single() raised an exception (e.g. because the model run was
already finished or in a meteo callback) the model's thread count was left
active for the rest of the process.
---
 openamundsen/model.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/openamundsen/model.py b/openamundsen/model.py
index 1fe1f64..ce10287 100644
--- a/openamundsen/model.py
+++ b/openamundsen/model.py
@@ -252,6 +252,13 @@ class OpenAmundsen:
             prev_num_threads = numba.get_num_threads()
             numba.set_num_threads(self._numba_threads)
 
+        try:
+            self._process_next_time_step()
+        finally:
+            if self._numba_threads is not None:
+                numba.set_num_threads(prev_num_threads)
+
+    def _process_next_time_step(self):
         if self.date_idx is None:
             self.date_idx = 0
         elif self.date_idx == len(self.dates) - 1:
@@ -281,9 +288,6 @@ class OpenAmundsen:
             logger.debug("Updating live view window")
             self.liveview.update(self.date)
 
-        if self._numba_threads is not None:
-            numba.set_num_threads(prev_num_threads)
-
     def global_mask(self, mask, global_mask=None, global_idxs=None):
         if global_idxs is None:
             if global_mask is None:
-- 
2.43.0


From d8b5ac9b0c3a262300828360864b0aa7d0ca7658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:03 +0000
Subject: [PATCH 09/42] fix: resetting boolean state variables raises a
 KeyError

---
 openamundsen/statevars.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openamundsen/statevars.py b/openamundsen/statevars.py
index 24132a8..f9bc53d 100644
--- a/openamundsen/statevars.py
+++ b/openamundsen/statevars.py
@@ -12,6 +12,7 @@ _DTYPE_INIT_VALS = {
 }
 _DTYPE_INIT_VALS[np.dtype("float64")] = _DTYPE_INIT_VALS[float]
 _DTYPE_INIT_VALS[np.dtype("int64")] = _DTYPE_INIT_VALS[int]
+_DTYPE_INIT_VALS[np.dtype("bool")] = _DTYPE_INIT_VALS[bool]
 
 
 class StateVariableManager:
-- 
2.43.0


From 0afa9a7552255da7195c745ee7d154f790754c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:03 +0000
Subject: [PATCH 10/42] fix: glacier outlines are lost when resetting the state
 variables in every time step

---
 openamundsen/modules/glacier/glaciermodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/glacier/glaciermodel.py b/openamundsen/modules/glacier/glaciermodel.py
index e83ffe5..e274eae 100644
--- a/openamundsen/modules/glacier/glaciermodel.py
+++ b/openamundsen/modules/glacier/glaciermodel.py
@@ -28,7 +28,7 @@ class GlacierModel:
         self.model = model
         s = model.state
         sg = s.add_category("glaciers")
-        sg.add_variable("glacier", long_name="Glacier ID", dtype=int)
+        sg.add_variable("glacier", long_name="Glacier ID", dtype=int, retain=True)
         self.mass_balance_start_we = None
 
     def initialize(self):
-- 
2.43.0


From 8da2832decc13bfaf54c9a5cfed58e61d7637245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:03 +0000
Subject: [PATCH 11/42] fix: glacier geometry update changes the ice mass of
 all pixels

The ice content of all pixels (including those not being part of a glacier)
was recalculated from the layer thickness using a constant density of
917 kg m-3, although the thickness corresponds to the configured ice density
(by default 900 kg m-3), thereby creating mass in each mass balance year.
---
 openamundsen/modules/glacier/glaciermodel.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/openamundsen/modules/glacier/glaciermodel.py b/openamundsen/modules/glacier/glaciermodel.py
index e274eae..82853db 100644
--- a/openamundsen/modules/glacier/glaciermodel.py
+++ b/openamundsen/modules/glacier/glaciermodel.py
@@ -65,7 +65,7 @@ class GlacierModel:
         firn_mb = mb_layers[CryoLayerID.FIRN, :]
         mb = ice_mb + firn_mb
         old_ice_thickness = self.mass_balance_start_we[CryoLayerID.ICE, :] / c.ICE_DENSITY
-        new_ice_thickness = s.snow.thickness[CryoLayerID.ICE, :].copy()
+        ice_density = model.config.snow.cryolayers.transition.ice
 
         for gid in self.glacier_ids:
             gpos = (s.glaciers.glacier == gid) & (old_ice_thickness > 0.0)
@@ -121,12 +121,14 @@ class GlacierModel:
                 max_allowed_change,
             )
 
-            new_ice_thickness[update_pos] = (
-                old_ice_thickness[update_pos] + (mass_change - firn_mb[update_pos]) / c.ICE_DENSITY
+            new_ice_content = (
+                self.mass_balance_start_we[CryoLayerID.ICE, update_pos]
+                + (mass_change - firn_mb[update_pos])
             ).clip(min=0.0)
-
-        s.snow.thickness[CryoLayerID.ICE, :] = new_ice_thickness
-        s.snow.ice_content[CryoLayerID.ICE, :] = new_ice_thickness * c.ICE_DENSITY
+            s.snow.ice_content[CryoLayerID.ICE, update_pos] = new_ice_content
+            s.snow.liquid_water_content[CryoLayerID.ICE, update_pos] = 0.0
+            s.snow.density[CryoLayerID.ICE, update_pos] = ice_density
+            s.snow.thickness[CryoLayerID.ICE, update_pos] = new_ice_content / ice_density
 
         model.snow.update_layers()
 
-- 
2.43.0


From 2e4699bda4a8f7d60818a725415e43f3f3bd273a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:03 +0000
Subject: [PATCH 12/42] fix: glacier geometry update invalidates the ice layer
 of glaciers without elevation range

---
 openamundsen/modules/glacier/glaciermodel.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openamundsen/modules/glacier/glaciermodel.py b/openamundsen/modules/glacier/glaciermodel.py
index 82853db..dbd9295 100644
--- a/openamundsen/modules/glacier/glaciermodel.py
+++ b/openamundsen/modules/glacier/glaciermodel.py
@@ -168,6 +168,10 @@ def _ice_mass_change(elevs, total_mb, glacier_area, max_allowed_change):
     if total_mb < 0:
         min_elev = elevs.min()
         max_elev = elevs.max()
+        if max_elev == min_elev:
+            # No elevation range -> distribute the mass loss equally
+            return np.full(elevs.shape, total_mb / elevs.size)
+
         normalized_elevs = (max_elev - elevs) / (max_elev - min_elev)
         delta_h = _delta_h(normalized_elevs, glacier_area)
         fs = total_mb / delta_h.sum()
@@ -205,6 +209,9 @@ def _delta_h(h, glacier_area):
 def _mass_loss_surplus_distribution(mass_loss, elevs):
     min_elev = elevs.min()
     max_elev = elevs.max()
+    if max_elev == min_elev:
+        return np.full(elevs.shape, mass_loss / elevs.size)
+
     min_mass = 0.0
 
     x0 = 0.0
-- 
2.43.0


From 0ed07d42bc8b51e6d162e6a67e730f302a99f9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:03 +0000
Subject: [PATCH 13/42] fix: parsing a configuration with deprecated fields
 modifies the passed dict

---
 openamundsen/conf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openamundsen/conf.py b/openamundsen/conf.py
index 96ed4c6..42c528f 100644
--- a/openamundsen/conf.py
+++ b/openamundsen/conf.py
@@ -57,11 +57,14 @@ class ConfigurationValidator(cerberus.Validator):
     def _normalize_coerce_meteo_interpolation(self, d: dict[str, Any]) -> dict[str, Any]:
         # 'wind_speed' is deprecated -> change to 'wind'
         if "wind_speed" in d:
+            d = dict(d)  # do not modify the passed configuration
             d["wind"] = d.pop("wind_speed")
 
         return d
 
     def _normalize_coerce_cloudiness(self, d: dict[str, Any]) -> dict[str, Any]:
+        d = dict(d)  # do not modify the passed configuration
+
         # 'day_method' is deprecated -> change to 'method'
         if "day_method" in d:
             if "method" not in d:
-- 
2.43.0


From 794c841b4aff82a5d87bd8f122f1d3c2fab50987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:03 +0000
Subject: [PATCH 14/42] fix: cloud fractions without units are not converted to
 percent

The number of variables instead of the number of records was compared to the
minimum number of values required for the units to be guessed. Also report
the actual units in the error message for wrong units.
---
 openamundsen/forcing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openamundsen/forcing.py b/openamundsen/forcing.py
index 9dbb627..df4426c 100644
--- a/openamundsen/forcing.py
+++ b/openamundsen/forcing.py
@@ -143,7 +143,9 @@ def make_point_dataset(
             # <= 1. (As the cloud_fraction model variable has units "1" but for the forcing data
             # units "%" are expected, this could happen easily.)
             if data["cloud_fraction"].attrs.get("units") == "1" or (
-                len(data) > 10 and data["cloud_fraction"].max() <= 1
+                "units" not in data["cloud_fraction"].attrs
+                and len(dates) > 10
+                and data["cloud_fraction"].max() <= 1
             ):
                 data["cloud_fraction"] *= 100
                 data["cloud_fraction"].attrs["units"] = "%"
@@ -151,7 +153,7 @@ def make_point_dataset(
         units = meta["units"]
         if "units" in data[var].attrs and data[var].units != units:
             raise errors.MeteoDataError(
-                f"{var} has wrong units: expected {units}, got {ds[var].units}"
+                f"{var} has wrong units: expected {units}, got {data[var].units}"
             )
 
         ds[var].values[:] = data[var].values
-- 
2.43.0


From fe3614ad2709c1f2f2186b07202376dbd3ebdf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:03 +0000
Subject: [PATCH 15/42] fix: daily meteo data is shifted by one day for
 timesteps specified as "1D" or "24h"

The data was only recognized as not requiring any resampling if the timestep
was spelled exactly as inferred by pandas ("D").
---
 openamundsen/fileio/meteo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index e9558ee..20cc542 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -330,7 +330,7 @@ def _slice_and_resample_dataset(ds, start_date, end_date, freq, aggregate=False)
 
         end_date = (end_date + td_1d).normalize()
 
-    if inferred_freq is not None and inferred_freq != freq:
+    if inferred_freq is not None and util.to_offset(inferred_freq) != util.to_offset(freq):
         # keep data from previous day for aggregation, if present
         ds = ds.sel(time=slice(start_date - td_1d, end_date))
         ds = _resample_dataset(ds, start_date, end_date, freq, aggregate=aggregate)
-- 
2.43.0


From d1159b4150c3f5bca8db0da7c580b2ca5fa88a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:03 +0000
Subject: [PATCH 16/42] fix: gap between the periods covered by the stations
 aborts the model run

---
 openamundsen/fileio/meteo.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index 20cc542..3501edc 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -161,6 +161,11 @@ def read_meteo_data(
                 + f"Available period: {dates_combined[0]}..{dates_combined[-1]}"
             )
 
+    # Fill gaps between the periods covered by the individual stations
+    dates = pd.date_range(start=start_date, end=end_date, freq=freq)
+    if len(dates_combined) < len(dates) and dates_combined.isin(dates).all():
+        ds_combined = ds_combined.reindex(time=dates)
+
     return ds_combined
 
 
-- 
2.43.0


From c80636c6baff8c5423229663239e3a7ed8e31b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:03 +0000
Subject: [PATCH 17/42] fix: point outputs are not written if the first write
 date is not a model time step

For NetCDF output the model run failed, for CSV output the data was appended
to possibly existing files without header.
---
 openamundsen/fileio/pointoutput.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openamundsen/fileio/pointoutput.py b/openamundsen/fileio/pointoutput.py
index fcd44ca..c15b454 100644
--- a/openamundsen/fileio/pointoutput.py
+++ b/openamundsen/fileio/pointoutput.py
@@ -264,6 +264,7 @@ class PointOutputManager:
         self.point_rows = [p.row for p in points]
         self.data = None
         self.format = config.format
+        self._file_written = False
 
     def _create_dataset(self, dates):
         """
@@ -409,7 +410,7 @@ class PointOutputManager:
             if self.format == "netcdf":
                 filename = self.model.config.results_dir / "output_timeseries.nc"
 
-                if date == self.write_dates[0]:
+                if not self._file_written:
                     ds.to_netcdf(filename, engine=constants.NETCDF_ENGINE)
                 else:
                     with xr.open_dataset(filename) as old_ds:
@@ -448,9 +449,10 @@ class PointOutputManager:
 
                     df = ds_out_point.to_dataframe()
 
-                    if date == self.write_dates[0]:
+                    if not self._file_written:
                         df.to_csv(filename)
                     else:
                         df.to_csv(filename, mode="a", header=False)
 
+            self._file_written = True
             self.data = None
-- 
2.43.0


From d882c24271c304860d307fe916b49457cfa19d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:51 +0000
Subject: [PATCH 18/42] fix: air density for the evaporation of sealed surfaces
 is too large by a factor of Tv^2

---
 openamundsen/modules/evapotranspiration/evapotranspiration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/evapotranspiration/evapotranspiration.py b/openamundsen/modules/evapotranspiration/evapotranspiration.py
index aeb9bc6..3f51d70 100644
--- a/openamundsen/modules/evapotranspiration/evapotranspiration.py
+++ b/openamundsen/modules/evapotranspiration/evapotranspiration.py
@@ -579,7 +579,7 @@ class EvapotranspirationModel:
         ea = s.meteo.vap_press[pos_dry]  # actual vapor pressure (Pa)
 
         Tv = 1.01 * s.meteo.top_canopy_temp[pos_dry]  # virtual temperature (K)
-        rhoa = s.meteo.atmos_press[pos_dry] / c.GAS_CONSTANT_DRY_AIR * Tv  # air density at constant pressure (kg m-3) # fmt: skip # noqa: E501
+        rhoa = s.meteo.atmos_press[pos_dry] / (c.GAS_CONSTANT_DRY_AIR * Tv)  # air density at constant pressure (kg m-3) # fmt: skip # noqa: E501
         cp = (  # specific heat at constant pressure (J kg-1 K-1) (p. 26)
             gamma * 0.622 * c.LATENT_HEAT_OF_VAPORIZATION / s.meteo.atmos_press[pos_dry]
         )
-- 
2.43.0


From e1e9591008f32ff561048b6da2c7842defd81290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:51 +0000
Subject: [PATCH 19/42] fix: rainfall does not replenish the surface soil
 evaporation layer

Eq. (79) from Allen et al. (1998) subtracts the soil surface depletion of the
previous time step instead of the deep percolation, otherwise (nearly) all
rainfall percolates regardless of how dry the topsoil is.
---
 openamundsen/modules/evapotranspiration/evapotranspiration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/evapotranspiration/evapotranspiration.py b/openamundsen/modules/evapotranspiration/evapotranspiration.py
index 3f51d70..935e70d 100644
--- a/openamundsen/modules/evapotranspiration/evapotranspiration.py
+++ b/openamundsen/modules/evapotranspiration/evapotranspiration.py
@@ -480,7 +480,7 @@ class EvapotranspirationModel:
             precip
             - precip_runoff
             + irrigation / wetted_frac
-            - s_et.deep_percolation_evaporation_layer[pos]
+            - s_et.cum_soil_surface_depletion[pos]
         ).clip(min=0)
         s_et.cum_soil_surface_depletion[pos] = (  # eq. (77)
             s_et.cum_soil_surface_depletion[pos]
-- 
2.43.0


From 2915fc3db68c7e15ea50f9e1c203eb7deec5d610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:03 +0000
Subject: [PATCH 20/42] fix: snow heat conduction does not use the soil
 temperature as the lower boundary condition

The temperature of the lowermost (possibly non-existing) snow layer was used
instead, i.e., heat was not exchanged between snow and soil although the soil
heat flux is calculated from the temperature difference between them.
---
 openamundsen/modules/snow/multilayermodel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openamundsen/modules/snow/multilayermodel.py b/openamundsen/modules/snow/multilayermodel.py
index 9d04ccf..528d660 100644
--- a/openamundsen/modules/snow/multilayermodel.py
+++ b/openamundsen/modules/snow/multilayermodel.py
@@ -84,6 +84,7 @@ class MultilayerSnowModel(SnowModel):
             s.soil.thickness,
             model.timestep,
             s.snow.temp,
+            s.soil.temp,
             s.snow.therm_cond,
             s.soil.therm_cond,
             s.surface.heat_flux,
@@ -447,6 +448,7 @@ def _heat_conduction(
     soil_thickness,
     timestep,
     temp,
+    temp_soil,
     therm_cond_snow,
     therm_cond_soil,
     heat_flux,
@@ -476,6 +478,9 @@ def _heat_conduction(
     temp : ndarray(float, ndim=3)
         Snow temperature (K).
 
+    temp_soil : ndarray(float, ndim=3)
+        Soil temperature (K).
+
     therm_cond_snow : ndarray(float, ndim=3)
         Snow thermal conductivity (W m-1 K-1).
 
@@ -506,7 +511,7 @@ def _heat_conduction(
                 timestep,
                 temp[:ns, i, j],
                 therm_cond_snow[:ns, i, j],
-                temp[-1, i, j],
+                temp_soil[0, i, j],
                 soil_thickness[0, i, j],
                 therm_cond_soil[0, i, j],
                 heat_flux[i, j],
-- 
2.43.0


From 340445b92748ea0697dcfa5bf02218ab0c479dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:02 +0000
Subject: [PATCH 21/42] fix: turbulent flux updates of the multilayer energy
 balance have the wrong sign

---
 openamundsen/surface.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/openamundsen/surface.py b/openamundsen/surface.py
index 952212e..8f6cf0a 100644
--- a/openamundsen/surface.py
+++ b/openamundsen/surface.py
@@ -194,12 +194,14 @@ def multilayer_energy_balance(model):
 
     # Update surface temperature and fluxes
     s.surface.temp[roi] += surf_temp_change
-    s.surface.moisture_flux[roi] += surf_moisture_flux_change
+    # (the turbulent fluxes are oriented towards the surface, i.e., they decrease with increasing
+    # surface temperature)
+    s.surface.moisture_flux[roi] -= surf_moisture_flux_change
     s.surface.heat_flux[roi] += surf_heat_flux_change
-    s.surface.sens_heat_flux[roi] += sens_heat_flux_change
+    s.surface.sens_heat_flux[roi] -= sens_heat_flux_change
     calc_radiation_balance(model, roi)
     calc_latent_heat(model, roi)
-    calc_turbulent_fluxes(model, roi, sensible=False)
+    s.surface.lat_heat_flux[roi] = s.surface.lat_heat[roi] * s.surface.moisture_flux[roi]
 
 
 def cryo_layer_energy_balance(model):
-- 
2.43.0


From 21a655add013562bf0e0855f1079b039b5385404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:21 +0000
Subject: [PATCH 22/42] fix: redistribution of snow layers yields NaN for
 layers of zero thickness

---
 openamundsen/modules/snow/multilayermodel.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/openamundsen/modules/snow/multilayermodel.py b/openamundsen/modules/snow/multilayermodel.py
index 528d660..c46f658 100644
--- a/openamundsen/modules/snow/multilayermodel.py
+++ b/openamundsen/modules/snow/multilayermodel.py
@@ -617,8 +617,15 @@ def _update_layers(
 
             # TODO optimize this loop
             for k_old in range(num_layers_prev[i, j]):
+                if ns == 0:
+                    break  # snowpack is too thin, nothing to distribute
+
                 while True:  # TODO replace with normal loop
-                    weight = min(new_thickness / thickness_prev[k_old, i, j], 1.0)
+                    # (layers might have zero thickness; the lowermost layer takes all that is left)
+                    if k_new == ns - 1 or thickness_prev[k_old, i, j] <= new_thickness:
+                        weight = 1.0
+                    else:
+                        weight = new_thickness / thickness_prev[k_old, i, j]
 
                     ice_content[k_new, i, j] += weight * ice_content_prev[k_old, i, j]
                     liquid_water_content[k_new, i, j] += (
-- 
2.43.0


From 70fa9ba503c5a38663183258975c0a99b30f5078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:53 +0000
Subject: [PATCH 23/42] fix: snowfall removes intercepted snow without mass
 balance when the canopy storage capacity shrinks

---
 openamundsen/modules/canopy/canopy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openamundsen/modules/canopy/canopy.py b/openamundsen/modules/canopy/canopy.py
index b4de2e8..9d28c08 100644
--- a/openamundsen/modules/canopy/canopy.py
+++ b/openamundsen/modules/canopy/canopy.py
@@ -189,7 +189,8 @@ class CanopyModel:
         )
         snowfall = np.nan_to_num(s.meteo.snowfall[pos], nan=0.0)  # no interception if missing
         new_canopy_intercepted_load = s.snow.canopy_intercepted_load[pos] + 0.7 * (
-            max_interception_storage - s.snow.canopy_intercepted_load[pos]
+            # (the storage might temporarily exceed its capacity when LAI decreases)
+            (max_interception_storage - s.snow.canopy_intercepted_load[pos]).clip(min=0)
         ) * (1 - np.exp(-snowfall / max_interception_storage))
         s.snow.canopy_intercepted_snowfall[pos] = (
             new_canopy_intercepted_load - s.snow.canopy_intercepted_load[pos]
-- 
2.43.0


From a03af19864c2207148cf31a2d687824c5b5cc9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:36 +0000
Subject: [PATCH 24/42] fix: fixed temperature and humidity lapse rates abort
 the run if regression parameters are set

---
 openamundsen/meteo/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/meteo/interpolation.py b/openamundsen/meteo/interpolation.py
index 72040ab..6d6a9e6 100644
--- a/openamundsen/meteo/interpolation.py
+++ b/openamundsen/meteo/interpolation.py
@@ -434,7 +434,7 @@ def interpolate_param(
         data = dew_point_temps
 
     regression_params = param_config.get("regression_params", {})
-    max_segments = regression_params.get("max_segments", 1)
+    max_segments = regression_params.get("max_segments", 1) if trend_method == "regression" else 1
 
     if trend_method in ("regression", "fixed", "fractional") and max_segments == 1:
         # Use simple linear regression
-- 
2.43.0


From 06f85ca7c44922a2bfa7950d4ceddc171b64dc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:25 +0000
Subject: [PATCH 25/42] fix: parallel updates of the minimum angle race in the
 openness calculation

---
 openamundsen/terrain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openamundsen/terrain.py b/openamundsen/terrain.py
index 0a215b1..ee200bb 100644
--- a/openamundsen/terrain.py
+++ b/openamundsen/terrain.py
@@ -1,7 +1,7 @@
 import logging
 
 import numpy as np
-from numba import njit, prange
+from numba import njit
 
 from openamundsen.modules.radiation import shadows
 
@@ -360,7 +360,7 @@ def _openness_dir(dem, res, L, dir):  # noqa: A002
     """
     opn_dir = np.full(dem.shape, np.inf)
 
-    for i in prange(int(np.ceil(L / res))):
+    for i in range(int(np.ceil(L / res))):
         dist = res * (i + 1) * [1, np.sqrt(2)][dir % 2]
         Z_shift = _shift_arr_retain(dem, dir, i)
         angle = np.pi / 2 - np.arctan2(Z_shift - dem, dist)
-- 
2.43.0


From a607bd3b0b5237f9f74f1bee33236453638cabe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:25 +0000
Subject: [PATCH 26/42] fix: elevation angle interval of the sky view factor
 calculation is ignored

---
 openamundsen/terrain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/terrain.py b/openamundsen/terrain.py
index ee200bb..8f4345d 100644
--- a/openamundsen/terrain.py
+++ b/openamundsen/terrain.py
@@ -196,7 +196,7 @@ def sky_view_factor(
         int(np.ceil(np.nanmax(slope))),
         min_elev_angle,
     )
-    elev_angles = np.arange(min_elev_angle, max_elev_angle + 1)[::-1]
+    elev_angles = np.arange(min_elev_angle, max_elev_angle + 1, elev_step)[::-1]
 
     for azim_num, azim_angle in enumerate(azim_angles):
         logger.info(
-- 
2.43.0


From 6512b8aef597c2c62ea2b44d5aaea2afa6b32e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:25 +0000
Subject: [PATCH 27/42] fix: aerosol forward scattering ratio multiplies
 instead of adds the linear term

---
 openamundsen/modules/radiation/clearsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/radiation/clearsky.py b/openamundsen/modules/radiation/clearsky.py
index a34a852..8f6ce26 100644
--- a/openamundsen/modules/radiation/clearsky.py
+++ b/openamundsen/modules/radiation/clearsky.py
@@ -153,7 +153,7 @@ def _clear_sky_shortwave_irradiance(
     )
 
     # Aerosol-scattered diffuse irradiance
-    scattering_ratio = -0.2562 * zenith_angle**2 * 0.1409 * zenith_angle + 0.9067
+    scattering_ratio = -0.2562 * zenith_angle**2 + 0.1409 * zenith_angle + 0.9067
     trans_aerosol_ratio = ts["trans_aerosols"] / ts["trans_aerosol_abs"]
     diff_irr_aerosols = (
         0.79
-- 
2.43.0


From 4e509cbd634bb3d860762f5d7c4bfca5008dc863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:25 +0000
Subject: [PATCH 28/42] fix: relative optical air mass is not limited for low
 sun elevations

---
 openamundsen/modules/radiation/clearsky.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openamundsen/modules/radiation/clearsky.py b/openamundsen/modules/radiation/clearsky.py
index 8f6ce26..4999222 100644
--- a/openamundsen/modules/radiation/clearsky.py
+++ b/openamundsen/modules/radiation/clearsky.py
@@ -106,8 +106,8 @@ def _clear_sky_shortwave_irradiance(
     aoi = aoi.clip(min=0)  # shadows due to steepness of the slope (sun "behind")
 
     # Relative optical air mass for standard pressure (Iqbal 1983)
-    rel_opt_air_mass = 1.0 / (
-        np.cos(zenith_angle) + 0.15 * (93.885 - np.rad2deg(zenith_angle)) ** (-1.253)
+    rel_opt_air_mass = (
+        1.0 / (np.cos(zenith_angle) + 0.15 * (93.885 - np.rad2deg(zenith_angle)) ** (-1.253))
     ).clip(max=14.1952)  # function is only valid for zenith angles up to 87°
 
     # Relative optical air mass pressure corrected
-- 
2.43.0


From 2afb15e92c4424d8e1f40d8c04379bb491a681ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:48 +0000
Subject: [PATCH 29/42] fix: configured emission parameters of the longwave
 radiation are ignored

---
 openamundsen/modules/radiation/irradiance.py | 5 ++---
 openamundsen/surface.py                      | 3 +--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/openamundsen/modules/radiation/irradiance.py b/openamundsen/modules/radiation/irradiance.py
index edbb57a..782af11 100644
--- a/openamundsen/modules/radiation/irradiance.py
+++ b/openamundsen/modules/radiation/irradiance.py
@@ -289,9 +289,8 @@ def longwave_irradiance(model):
     m = model.state.meteo
     clear_sky_emissivity = meteo.clear_sky_emissivity(m.precipitable_water[roi])
 
-    # TODO these should be parameters
-    cloud_emissivity = 0.976  # emissivity of totally overcast skies (Greuell et al., 1997) # noqa: E501 # fmt: skip
-    rock_emission_factor = 0.01  # (K W-1 m2) temperature of emitting rocks during daytime is assumed to be higher than the air temperature by this factor multiplied by the incoming shortwave radiation (Greuell et al., 1997) # noqa: E501
+    cloud_emissivity = model.config.meteo.radiation.cloud_emissivity
+    rock_emission_factor = model.config.meteo.radiation.rock_emission_factor
 
     # Incoming longwave radiation from the clear sky
     lw_in_clearsky = (
diff --git a/openamundsen/surface.py b/openamundsen/surface.py
index 8f6cf0a..d6a5983 100644
--- a/openamundsen/surface.py
+++ b/openamundsen/surface.py
@@ -511,8 +511,7 @@ def calc_radiation_balance(model, pos):
     """
     s = model.state
 
-    # TODO this should be a parameter
-    snow_emissivity = 0.99
+    snow_emissivity = model.config.meteo.radiation.snow_emissivity
 
     s.meteo.sw_out[pos] = s.surface.albedo[pos] * s.meteo.sw_in[pos]
     s.meteo.lw_out[pos] = snow_emissivity * constants.STEFAN_BOLTZMANN * s.surface.temp[pos] ** 4
-- 
2.43.0


From 025bc886ed7da691ebc040ff2db2770437fc2908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:07 +0000
Subject: [PATCH 30/42] fix: extending the ROI with station positions adds
 pixels without elevation

---
 openamundsen/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openamundsen/model.py b/openamundsen/model.py
index ce10287..8e5ebf9 100644
--- a/openamundsen/model.py
+++ b/openamundsen/model.py
@@ -184,6 +184,11 @@ class OpenAmundsen:
         # Extend ROI with the station positions
         if config.extend_roi_with_stations:
             pos_outside_roi_stations = self.meteo.within_grid_extent & ~self.meteo.within_roi
+            # As for the original ROI, pixels where the DEM is NaN must remain excluded
+            pos = np.flatnonzero(pos_outside_roi_stations)
+            pos_outside_roi_stations[pos] = np.isfinite(
+                self.state.base.dem[self.meteo.row.values[pos], self.meteo.col.values[pos]]
+            )
             any_outside_roi_stations = np.any(pos_outside_roi_stations)
             if any_outside_roi_stations:
                 self.meteo.within_roi[pos_outside_roi_stations] = True
-- 
2.43.0


From c8382fe16748926b13c4451361e4ef2fa5aa272b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:07 +0000
Subject: [PATCH 31/42] fix: radiation stations outside of the ROI prevent the
 fallback of the cloudiness calculation

---
 openamundsen/modules/radiation/irradiance.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openamundsen/modules/radiation/irradiance.py b/openamundsen/modules/radiation/irradiance.py
index 782af11..4a84dcc 100644
--- a/openamundsen/modules/radiation/irradiance.py
+++ b/openamundsen/modules/radiation/irradiance.py
@@ -181,9 +181,9 @@ def shortwave_irradiance(model):
             method = "clear_sky_fraction"
 
     if method == "clear_sky_fraction":
-        # Select stations within the grid extent and with shortwave radiation measurements for the
-        # current time step
-        ds_rad = meteo_ds.sel(station=model.meteo.within_grid_extent).dropna(
+        # Select stations within the ROI (clear-sky radiation is not available for other pixels) and
+        # with shortwave radiation measurements for the current time step
+        ds_rad = meteo_ds.sel(station=model.meteo.within_roi).dropna(
             "station",
             subset=["sw_in"],
         )
-- 
2.43.0


From f87528714fdacd78b0d6001bce4e5817f7b7f4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:24 +0000
Subject: [PATCH 32/42] fix: monthly and yearly grid outputs miss the interval
 bounds for runs not starting at midnight

---
 openamundsen/fileio/griddedoutput.py | 76 ++++++++++++++--------------
 1 file changed, 37 insertions(+), 39 deletions(-)

diff --git a/openamundsen/fileio/griddedoutput.py b/openamundsen/fileio/griddedoutput.py
index 532fe45..700186e 100644
--- a/openamundsen/fileio/griddedoutput.py
+++ b/openamundsen/fileio/griddedoutput.py
@@ -705,40 +705,47 @@ def _freq_write_dates(dates, out_freq, agg):
         elif not (out_freq_td.total_seconds() / model_freq_td.total_seconds()).is_integer():
             raise ValueError("Output frequency must be a multiple of the model timestep")
 
-    if agg:
-        if _is_anchored(out_offset):  # e.g. 'ME', 'YE'
-            if model_freq_td.total_seconds() > constants.HOURS_PER_DAY * constants.SECONDS_PER_HOUR:
-                raise NotImplementedError(
-                    "Aggregation of gridded outputs with anchored offsets "
-                    "not supported for timesteps > 1d"
-                )
-
-            period_end_dates = (
-                pd.period_range(
-                    start=dates[0],
-                    end=dates[-1],
-                    freq=out_offset,
-                )
-                .asfreq(model_freq, how="end")
-                .to_timestamp()
+    if _is_anchored(out_offset):  # e.g. 'ME', 'YE'
+        if (
+            agg
+            and model_freq_td.total_seconds() > constants.HOURS_PER_DAY * constants.SECONDS_PER_HOUR
+        ):
+            raise NotImplementedError(
+                "Aggregation of gridded outputs with anchored offsets "
+                "not supported for timesteps > 1d"
             )
 
-            d0 = dates[dates <= period_end_dates[0]][-1]
-            write_dates = period_end_dates + (d0 - period_end_dates[0])
-
-            if period_end_dates[0] - write_dates[0] > pd.Timedelta("24h"):
-                write_dates = write_dates.delete(0)
+        end_anchored = isinstance(
+            out_offset,
+            (pd.tseries.offsets.YearEnd, pd.tseries.offsets.MonthEnd),
+        )
 
-            # Keep the last output interval only if it is fully covered (e.g., do not write half
-            # months)
-            if len(write_dates) > 0 and write_dates[-1] > dates[-1]:
-                write_dates = write_dates.delete(-1)
+        # Calculate the start dates of the output intervals and assign each date (as well as the
+        # preceding or following one) to an interval. Using the date following the last model date
+        # ensures that the last output interval is only kept if it is fully covered (e.g., do not
+        # write half months).
+        interval_starts = pd.date_range(
+            start=(dates[0] - model_freq_td).normalize() - pd.Timedelta(days=1),
+            end=dates[-1] + model_freq_td,
+            freq=out_offset,
+        )
+        if end_anchored:
+            interval_starts += pd.Timedelta(days=1)
+        if agg or end_anchored:
+            neighbor_dates = dates + model_freq_td
         else:
-            write_dates = pd.date_range(
-                start=dates[0] + out_freq_td - model_freq_td,
-                end=dates[-1],
-                freq=out_offset,
-            )
+            neighbor_dates = dates - model_freq_td
+
+        write_dates = dates[
+            interval_starts.searchsorted(dates, side="right")
+            != interval_starts.searchsorted(neighbor_dates, side="right")
+        ]
+    elif agg:
+        write_dates = pd.date_range(
+            start=dates[0] + out_freq_td - model_freq_td,
+            end=dates[-1],
+            freq=out_offset,
+        )
     else:
         write_dates = pd.date_range(
             start=dates[0],
@@ -746,15 +753,6 @@ def _freq_write_dates(dates, out_freq, agg):
             freq=out_offset,
         )
 
-        if any(
-            isinstance(out_offset, o)
-            for o in (
-                pd.tseries.offsets.YearEnd,
-                pd.tseries.offsets.MonthEnd,
-            )
-        ) and model_freq_td < pd.Timedelta(days=1):
-            write_dates += pd.Timedelta(days=1) - model_freq_td
-
     return write_dates
 
 
-- 
2.43.0


From dfc2a7fdaa702551dbcb4147748b8d6eb43ea1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:05 +0000
Subject: [PATCH 33/42] fix: converting ROI pixel outputs fills decoded integer
 variables with the integer fill value

---
 openamundsen/util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openamundsen/util.py b/openamundsen/util.py
index ddaa40a..6058f61 100644
--- a/openamundsen/util.py
+++ b/openamundsen/util.py
@@ -156,7 +156,11 @@ def convert_roi_pixel_dataset_to_grid(ds: xr.Dataset) -> xr.Dataset:
 
         pixel_axis = da.get_axis_num("pixel")
         values = np.moveaxis(da.values, pixel_axis, -1)
-        fill_value = da.encoding.get("_FillValue", da.attrs.get("_FillValue", np.nan))
+        if np.issubdtype(da.dtype, np.floating):
+            # Also integer variables are floats with NaN as fill value if the dataset was decoded
+            fill_value = np.nan
+        else:
+            fill_value = da.encoding.get("_FillValue", da.attrs.get("_FillValue", np.nan))
         full_values = np.full((*values.shape[:-1], nrows, ncols), fill_value, dtype=da.dtype)
         full_values.reshape(*values.shape[:-1], -1)[..., pixel_idxs] = values
 
-- 
2.43.0


From 228203e48b1a3566f55eda044c25ae14fc5ecbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:28 +0000
Subject: [PATCH 34/42] fix: snow water equivalent is not updated after glacier
 geometry changes

---
 openamundsen/modules/glacier/glaciermodel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openamundsen/modules/glacier/glaciermodel.py b/openamundsen/modules/glacier/glaciermodel.py
index dbd9295..4b4ccfb 100644
--- a/openamundsen/modules/glacier/glaciermodel.py
+++ b/openamundsen/modules/glacier/glaciermodel.py
@@ -130,6 +130,7 @@ class GlacierModel:
             s.snow.density[CryoLayerID.ICE, update_pos] = ice_density
             s.snow.thickness[CryoLayerID.ICE, update_pos] = new_ice_content / ice_density
 
+        model.snow.update_properties()
         model.snow.update_layers()
 
         # TODO: when glacier advance is enabled, update the previous ice mass distributions here
-- 
2.43.0


From b528e933356e2cc915badcce6d33521c77e45647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:01 +0000
Subject: [PATCH 35/42] fix: leaf area index of land cover classes with several
 cutting cycles aborts the run

---
 openamundsen/landcover.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openamundsen/landcover.py b/openamundsen/landcover.py
index 98c9676..30ac286 100644
--- a/openamundsen/landcover.py
+++ b/openamundsen/landcover.py
@@ -68,8 +68,8 @@ class LandCover:
 
             lcc_lai = modules.evapotranspiration.crop_coefficient(
                 growing_period_day,
-                0,  # no initial period with constant LAI
-                length_ini + length_dev,
+                np.zeros_like(length_ini),  # no initial period with constant LAI
+                np.add(length_ini, length_dev),
                 length_mid,
                 length_late,
                 min_lai,
-- 
2.43.0


From c66961368237861b727215a7379df7b62a2a4440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:37 +0000
Subject: [PATCH 36/42] fix: align daily aggregates of station records with the
 model time steps

---
 openamundsen/fileio/meteo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index 3501edc..76c2464 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -386,7 +386,7 @@ def _resample_dataset(ds, start_date, end_date, freq, aggregate=False):
         resample_kwargs = {
             "label": "left",
             "closed": "right",
-            "origin": "start",
+            "origin": pd.Timestamp(start_date),
         }
     else:
         raise errors.MeteoDataError("Resampling to frequencies > 1 day is not supported")
-- 
2.43.0


From 0abd6d6f1511d726c51f1e9b8bc8e9dd0b14c064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:37 +0000
Subject: [PATCH 37/42] fix: accept station records ending within an
 aggregation interval

---
 openamundsen/fileio/meteo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index 76c2464..a3050db 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -407,7 +407,7 @@ def _resample_dataset(ds, start_date, end_date, freq, aggregate=False):
             df_res["wind_dir"] = _aggregate_wind_dir(df, freq, resample_kwargs)
 
         # We might end up with an extra bin after resampling; remove it here
-        df_res = df_res.loc[start_date:end_date]
+        df_res = df_res.loc[start_date : min(end_date, df.index[-1])]
         if df_res.index[0] < df.index[0]:
             df_res = df_res.iloc[1:]
     else:
-- 
2.43.0


From 385ad0279a38715db2b42bff3d810027e4878111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:37 +0000
Subject: [PATCH 38/42] fix: do not abort for stations without records in the
 simulation period when aggregating

---
 openamundsen/fileio/meteo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index a3050db..b83852e 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -408,7 +408,7 @@ def _resample_dataset(ds, start_date, end_date, freq, aggregate=False):
 
         # We might end up with an extra bin after resampling; remove it here
         df_res = df_res.loc[start_date : min(end_date, df.index[-1])]
-        if df_res.index[0] < df.index[0]:
+        if not df_res.empty and df_res.index[0] < df.index[0]:
             df_res = df_res.iloc[1:]
     else:
         # Take the instantaneous values
-- 
2.43.0


From 3db082fa9d58d714fdd11ca1778aeed61450b195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:37 +0000
Subject: [PATCH 39/42] fix: use the stored sky view factor also in the run
 that calculates it

---
 openamundsen/model.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/openamundsen/model.py b/openamundsen/model.py
index 8e5ebf9..42a86a4 100644
--- a/openamundsen/model.py
+++ b/openamundsen/model.py
@@ -611,9 +611,16 @@ class OpenAmundsen:
                     self.grid.resolution,
                     num_sweeps=self.config.meteo.radiation.num_shadow_sweeps,
                 )
-                self.state.base.svf[:] = svf
                 logger.debug(f"Writing sky view factor file ({svf_file})")
                 fileio.write_raster_file(svf_file, svf, self.grid.transform, decimal_precision=3)
+                # Use the (rounded) values as stored in the file to obtain the same results as in
+                # subsequent runs
+                self.state.base.svf[:] = fileio.read_raster_file(
+                    svf_file,
+                    check_meta=self.grid,
+                    fill_value=np.nan,
+                    dtype=float,
+                )
 
         if roi_file.exists():
             logger.info(f"Reading ROI ({roi_file})")
@@ -760,6 +767,13 @@ class OpenAmundsen:
             )
             logger.debug(f"Writing extended sky view factor file ({extended_svf_file})")
             fileio.write_raster_file(extended_svf_file, ext_svf, ext_transform, decimal_precision=3)
+            # Use the (rounded) values as stored in the file to obtain the same results as in
+            # subsequent runs
+            ext_svf = fileio.read_raster_file(
+                extended_svf_file,
+                fill_value=np.nan,
+                dtype=float,
+            )
 
         row_offset = int(ext_offset_ul[0])
         col_offset = int(ext_offset_ul[1])
-- 
2.43.0


From 29b24abf3aad1099440429cc212fa8fcdf19359c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:37 +0000
Subject: [PATCH 40/42] fix: keep unspecified leaf area index parameters of
 predefined land cover classes

---
 openamundsen/conf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openamundsen/conf.py b/openamundsen/conf.py
index 42c528f..06419e4 100644
--- a/openamundsen/conf.py
+++ b/openamundsen/conf.py
@@ -206,7 +206,10 @@ def _merge_land_cover_params(class_params):
     for lcc, lcc_params in class_params.items():
         if lcc in merged_params:
             for k, v in lcc_params.items():
-                merged_params[lcc][k] = v
+                if isinstance(v, dict) and k in merged_params[lcc]:
+                    merged_params[lcc][k].update(v)
+                else:
+                    merged_params[lcc][k] = v
         else:
             merged_params[lcc] = lcc_params
 
-- 
2.43.0


From 3950cd46492b6788f74077d76ddddddb5440bb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:44 +0000
Subject: [PATCH 41/42] fix: snow compaction exceeds the density of ice and
 leaves negative liquid water

---
 openamundsen/modules/snow/snow.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openamundsen/modules/snow/snow.py b/openamundsen/modules/snow/snow.py
index fa7ad21..e34a29c 100644
--- a/openamundsen/modules/snow/snow.py
+++ b/openamundsen/modules/snow/snow.py
@@ -235,7 +235,11 @@ def _compaction_anderson(
                 if np.isnan(densification_rate):
                     densification_rate = 0.0
 
-                density[k, i, j] += densification_rate * timestep_h
+                # Snow cannot be compacted beyond the density of ice
+                density[k, i, j] = min(
+                    density[k, i, j] + densification_rate * timestep_h,
+                    max(density[k, i, j], c.ICE_DENSITY),
+                )
                 thickness[k, i, j] = (
                     ice_content[k, i, j] + liquid_water_content[k, i, j]
                 ) / density[k, i, j]
@@ -405,7 +409,7 @@ def max_liquid_water_content(model):
         max_lwc = (  # eq. (28)
             c.WATER_DENSITY
             * s.snow.thickness
-            * porosity
+            * porosity.clip(min=0)
             * model.config.snow.liquid_water_content.max
         )
     elif method == "mass_fraction":
-- 
2.43.0


From a22ca65712d51a6826561aa31776f30fa1181734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:44 +0000
Subject: [PATCH 42/42] fix: refreezing at constant thickness makes snow layers
 denser than ice

---
 openamundsen/modules/snow/multilayermodel.py | 3 +++
 openamundsen/surface.py                      | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/openamundsen/modules/snow/multilayermodel.py b/openamundsen/modules/snow/multilayermodel.py
index c46f658..2b6b901 100644
--- a/openamundsen/modules/snow/multilayermodel.py
+++ b/openamundsen/modules/snow/multilayermodel.py
@@ -439,6 +439,9 @@ def _runoff(
                 refreezing[i, j] += ice_content_change
                 temp[k, i, j] += c.LATENT_HEAT_OF_FUSION * ice_content_change / heat_cap[k, i, j]
 
+                # Refreezing fills up the pores, but a layer cannot become denser than ice
+                thickness[k, i, j] = max(thickness[k, i, j], ice_content[k, i, j] / c.ICE_DENSITY)
+
 
 @njit(parallel=True, cache=True)
 def _heat_conduction(
diff --git a/openamundsen/surface.py b/openamundsen/surface.py
index d6a5983..a5b760e 100644
--- a/openamundsen/surface.py
+++ b/openamundsen/surface.py
@@ -328,6 +328,12 @@ def cryo_layer_energy_balance(model):
         s.snow.refreezing[cold_conties] += refreeze_amount
         available_cc[cold_conties] -= refreeze_amount
 
+        # Refreezing fills up the pores, but a layer cannot become denser than ice
+        s.snow.thickness[layer_num, cold_conties] = np.maximum(
+            s.snow.thickness[layer_num, cold_conties],
+            s.snow.ice_content[layer_num, cold_conties] / constants.ICE_DENSITY,
+        )
+
         max_layer_cc = cold_holding_capacity * (
             s.snow.ice_content[layer_num, cold_conties]
             + s.snow.liquid_water_content[layer_num, cold_conties]
-- 
2.43.0

