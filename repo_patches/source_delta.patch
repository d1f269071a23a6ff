From 9009f4b83e4373cbc0269463469f4633c4f334c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 01/29] fix: do not change the configured collapse coordinate
 when thresholding percentiles

---
 improver/threshold.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/improver/threshold.py b/improver/threshold.py
index 5aba3af..b04350f 100644
--- a/improver/threshold.py
+++ b/improver/threshold.py
@@ -558,9 +558,10 @@ class Threshold(PostProcessingPlugin):
         if self.fill_masked is not None:
             input_cube.data = np.ma.filled(input_cube.data, self.fill_masked)
 
-        if self.collapse_coord == "percentile":
+        collapse_coord = self.collapse_coord
+        if collapse_coord == "percentile":
             input_cube = RebadgePercentilesAsRealizations()(input_cube)
-            self.collapse_coord = "realization"
+            collapse_coord = "realization"
 
         self.original_units = input_cube.units
         self.threshold_coord_name = input_cube.name()
@@ -575,10 +576,10 @@ class Threshold(PostProcessingPlugin):
 
         # Slice over realizations if required and create an empty threshold
         # cube to store the resulting thresholded data.
-        if self.collapse_coord is not None:
-            input_slices = input_cube.slices_over(self.collapse_coord)
+        if collapse_coord is not None:
+            input_slices = input_cube.slices_over(collapse_coord)
             thresholded_cube = self._create_threshold_cube(
-                next(input_cube.slices_over(self.collapse_coord))
+                next(input_cube.slices_over(collapse_coord))
             )
         else:
             input_slices = [input_cube]
@@ -651,10 +652,8 @@ class Threshold(PostProcessingPlugin):
         # Squeeze any single value dimension coordinates to make them scalar.
         thresholded_cube = iris.util.squeeze(thresholded_cube)
 
-        if self.collapse_coord is not None and thresholded_cube.coords(
-            self.collapse_coord
-        ):
-            thresholded_cube.remove_coord(self.collapse_coord)
+        if collapse_coord is not None and thresholded_cube.coords(collapse_coord):
+            thresholded_cube.remove_coord(collapse_coord)
 
         # Re-cast to 32bit now that any unit conversion has already taken place.
         thresholded_cube.coord(var_name="threshold").points = thresholded_cube.coord(
-- 
2.43.0


From 710a400026dbbfef2b5a9222ac94c6ccf73dfd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 02/29] fix: do not remember the first input's name and
 threshold when combining cubes

---
 improver/cube_combiner.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/improver/cube_combiner.py b/improver/cube_combiner.py
index 6968ed8..02861be 100644
--- a/improver/cube_combiner.py
+++ b/improver/cube_combiner.py
@@ -105,8 +105,7 @@ class Combine(BasePlugin):
         """
         cubes = as_cubelist(*cubes)
 
-        if self.new_name is None:
-            self.new_name = cubes[0].name()
+        new_name = cubes[0].name() if self.new_name is None else self.new_name
 
         if self.minimum_realizations is None:
             filtered_cubes = cubes
@@ -125,7 +124,7 @@ class Combine(BasePlugin):
                     f"({self.minimum_realizations})"
                 )
             filtered_cubes = cube.slices_over("time")
-        return self.plugin(CubeList(filtered_cubes), self.new_name)
+        return self.plugin(CubeList(filtered_cubes), new_name)
 
 
 def masked_add(
@@ -356,14 +355,15 @@ class CubeCombiner(BasePlugin):
         """
         target_cube = cube_list[0]
 
-        if self.broadcast == "threshold":
-            self.broadcast = find_threshold_coordinate(cube_list[0]).name()
+        broadcast = self.broadcast
+        if broadcast == "threshold":
+            broadcast = find_threshold_coordinate(cube_list[0]).name()
 
         try:
-            target_coord = target_cube.coord(self.broadcast)
+            target_coord = target_cube.coord(broadcast)
         except CoordinateNotFoundError:
             raise CoordinateNotFoundError(
-                f"Cannot find coord {self.broadcast} in {repr(target_cube)} to broadcast to"
+                f"Cannot find coord {broadcast} in {repr(target_cube)} to broadcast to"
             )
 
         new_list = CubeList([])
-- 
2.43.0


From 98f8062a4281a3641d3ffc45f51dcd674dfe682b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 03/29] fix: rescale the configured shape parameters on every
 call

---
 improver/ensemble_copula_coupling/ensemble_copula_coupling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index f49fd47..6c2b58b 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -873,6 +873,7 @@ calculate_truncated_normal_crps`,
                 )
             shape_parameters = []
         self.shape_parameters = shape_parameters
+        self._standard_shape_parameters = shape_parameters
 
     def __repr__(self) -> str:
         """Represent the configured plugin instance as a string."""
@@ -913,7 +914,7 @@ calculate_truncated_normal_crps`,
         """
         if self.distribution.name == "truncnorm":
             rescaled_values = []
-            for value in self.shape_parameters:
+            for value in self._standard_shape_parameters:
                 rescaled_values.append((value - location_parameter) / scale_parameter)
             self.shape_parameters = rescaled_values
 
-- 
2.43.0


From 2e3f5edd55a26d723f01e0e2c84772b9266a3a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 04/29] fix: derive accumulation and forecast periods afresh
 for each set of rates

---
 improver/nowcasting/accumulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/improver/nowcasting/accumulation.py b/improver/nowcasting/accumulation.py
index 4e59842..5d7ab47 100644
--- a/improver/nowcasting/accumulation.py
+++ b/improver/nowcasting/accumulation.py
@@ -55,6 +55,7 @@ class Accumulation(BasePlugin):
         self.accumulation_units = accumulation_units
         self.accumulation_period = accumulation_period
         self.forecast_periods = forecast_periods
+        self._requested = (accumulation_period, forecast_periods)
 
     def __repr__(self) -> str:
         """Represent the plugin instance as a string."""
@@ -112,6 +113,9 @@ class Accumulation(BasePlugin):
             ValueError: The specified accumulation period is not cleanly
                 divisible by the time interval.
         """
+        # Discard any values that were derived from a previous set of inputs.
+        self.accumulation_period, self.forecast_periods = self._requested
+
         # Standardise inputs to expected units
         standardised_cubes = []
         for cube in cubes:
-- 
2.43.0


From 4902dd4b23eb2b863a0693a8226eed5b96e4dd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 05/29] fix: do not carry wind directions over from a previous
 ensemble

---
 improver/wind_calculations/wind_direction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/wind_calculations/wind_direction.py b/improver/wind_calculations/wind_direction.py
index bd1f8ce..f9230b7 100644
--- a/improver/wind_calculations/wind_direction.py
+++ b/improver/wind_calculations/wind_direction.py
@@ -237,6 +237,7 @@ class WindDirection(PostProcessingPlugin):
             msg = "Input cube cannot be converted to degrees: {}".format(err)
             raise ValueError(msg)
 
+        self.wdir_cube_list = iris.cube.CubeList()
         self.n_realizations = len(cube_ens_wdir.coord("realization").points)
         y_coord_name = cube_ens_wdir.coord(axis="y").name()
         x_coord_name = cube_ens_wdir.coord(axis="x").name()
-- 
2.43.0


From ea63b7938948a1245e67de7b425216d9589b011b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 06/29] fix: do not modify the configured list of times when
 interpolating

---
 improver/utilities/temporal_interpolation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/improver/utilities/temporal_interpolation.py b/improver/utilities/temporal_interpolation.py
index d887c65..0d299d8 100644
--- a/improver/utilities/temporal_interpolation.py
+++ b/improver/utilities/temporal_interpolation.py
@@ -207,13 +207,12 @@ class TemporalInterpolation(BasePlugin):
         """
         time_list = []
         if self.times is not None:
-            self.times = sorted(self.times)
-            if self.times[0] < initial_time or self.times[-1] > final_time:
+            time_list = sorted(self.times)
+            if time_list[0] < initial_time or time_list[-1] > final_time:
                 raise ValueError(
                     "List of times falls outside the range given by "
                     "initial_time and final_time. "
                 )
-            time_list = self.times
         elif self.interval_in_minutes is not None:
             if (final_time - initial_time).seconds % (
                 60 * self.interval_in_minutes
-- 
2.43.0


From 10374fa85e814064ab2f171ae116e55005c47171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 07/29] fix: use the whole duration of intervals that exceed
 one day

---
 improver/utilities/temporal_interpolation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/improver/utilities/temporal_interpolation.py b/improver/utilities/temporal_interpolation.py
index 0d299d8..be8bbd6 100644
--- a/improver/utilities/temporal_interpolation.py
+++ b/improver/utilities/temporal_interpolation.py
@@ -214,7 +214,7 @@ class TemporalInterpolation(BasePlugin):
                     "initial_time and final_time. "
                 )
         elif self.interval_in_minutes is not None:
-            if (final_time - initial_time).seconds % (
+            if (final_time - initial_time).total_seconds() % (
                 60 * self.interval_in_minutes
             ) != 0:
                 msg = (
@@ -222,7 +222,7 @@ class TemporalInterpolation(BasePlugin):
                     " divide into the interval of"
                     " {} mins equally.".format(
                         self.interval_in_minutes,
-                        int((final_time - initial_time).seconds / 60),
+                        int((final_time - initial_time).total_seconds() / 60),
                     )
                 )
                 raise ValueError(msg)
@@ -355,7 +355,7 @@ class TemporalInterpolation(BasePlugin):
         dtval_next = dtvals[1]
         sin_phi_next = self.calc_sin_phi(dtval_next, lats, lons)
         # Length of time between beginning and end in seconds
-        diff_step = (dtval_next - dtval_prev).seconds
+        diff_step = (dtval_next - dtval_prev).total_seconds()
 
         for single_time in interpolated_cube.slices_over("time"):
             # Calculate sine of solar elevation for cube at this
@@ -363,7 +363,7 @@ class TemporalInterpolation(BasePlugin):
             dtval_interp = iris_time_to_datetime(single_time.coord("time"))[0]
             sin_phi_interp = self.calc_sin_phi(dtval_interp, lats, lons)
             # Length of time between beginning and interpolated time in seconds
-            diff_interp = (dtval_interp - dtval_prev).seconds
+            diff_interp = (dtval_interp - dtval_prev).total_seconds()
             # Set all values to 0.0, to be replaced
             # with values calculated through this solar method.
             single_time.data[:] = 0.0
-- 
2.43.0


From d11c5b53159bc2d1183f29c0bc2672fbe56af217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 08/29] fix: decide whether a grid is irregular for each input
 when masking night

---
 improver/utilities/solar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/solar.py b/improver/utilities/solar.py
index 1db25ec..e3850cb 100644
--- a/improver/utilities/solar.py
+++ b/improver/utilities/solar.py
@@ -289,8 +289,8 @@ class DayNightMask(BasePlugin):
         for dim in set([cube.coord_dims(crd) for crd in slice_coords]):
             spatial_coords.append(cube.coords(dimensions=dim)[0])
 
-        if len(spatial_coords) != len(slice_coords):
-            self.irregular = True
+        self.irregular = len(spatial_coords) != len(slice_coords)
+        if self.irregular:
             slice_coords = spatial_coords
 
         if cube.coord("time") in cube.coords(dim_coords=True):
-- 
2.43.0


From 1e9ba51189a76bf134135ace0387004e3eb3066b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 09/29] fix: use the time bounds of each slice when masking
 night

---
 improver/utilities/solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/utilities/solar.py b/improver/utilities/solar.py
index e3850cb..905a50c 100644
--- a/improver/utilities/solar.py
+++ b/improver/utilities/solar.py
@@ -394,7 +394,7 @@ class DayNightMask(BasePlugin):
         modified_masks = iris.cube.CubeList()
         for mask_cube in daynight_mask.slices_over("time"):
             if mask_cube.coord("time").has_bounds():
-                lb, ub = cube.coord("time").cell(0).bound
+                lb, ub = mask_cube.coord("time").cell(0).bound
                 dtval = lb + (ub - lb) / 2
             else:
                 dtval = mask_cube.coord("time").cell(0).point
-- 
2.43.0


From b6a226f05ad0f6c0fc98f70660cfea5df31fbe6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 10/29] fix: apply the configured decision tree afresh to each
 set of inputs

---
 improver/categorical/decision_tree.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/improver/categorical/decision_tree.py b/improver/categorical/decision_tree.py
index a3606a9..8209309 100644
--- a/improver/categorical/decision_tree.py
+++ b/improver/categorical/decision_tree.py
@@ -128,13 +128,16 @@ class ApplyDecisionTree(BasePlugin):
         self.title = title
         self.meta = decision_tree["meta"]
         self.queries = update_tree_thresholds(
-            {k: v for k, v in decision_tree.items() if k != "meta"}, target_period
+            {k: copy.deepcopy(v) for k, v in decision_tree.items() if k != "meta"},
+            target_period,
         )
         self.float_tolerance = 0.01
         self.float_abs_tolerance = 1e-12
         # flag to indicate whether to expect "threshold" as a coordinate name
         # (defaults to False, checked on reading input cubes)
         self.coord_named_threshold = False
+        # the tree as configured, which is modified to suit each set of inputs
+        self._configured = (self.start_node, copy.deepcopy(self.queries))
 
     def __repr__(self) -> str:
         """Represent the configured plugin instance as a string."""
@@ -806,6 +809,11 @@ class ApplyDecisionTree(BasePlugin):
         Returns:
             A cube of categorical data.
         """
+        # Start from the configured tree, unaffected by any previous inputs.
+        self.start_node, queries = self._configured
+        self.queries = copy.deepcopy(queries)
+        self.coord_named_threshold = False
+
         # Check input cubes contain required data and return only those that
         # are needed to speed up later cube extractions.
         cubes, optional_node_data_missing = self.prepare_input_cubes(*cubes)
-- 
2.43.0


From 7e8a737631548f075caa731489a275a9e1aa5866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 11/29] fix: evaluate addition and subtraction from left to
 right in decision trees

---
 improver/categorical/decision_tree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/improver/categorical/decision_tree.py b/improver/categorical/decision_tree.py
index 8209309..872cbd6 100644
--- a/improver/categorical/decision_tree.py
+++ b/improver/categorical/decision_tree.py
@@ -704,10 +704,10 @@ class ApplyDecisionTree(BasePlugin):
                         + curr_expression[idx + 1 :]
                     )
             # evaluate operators in order of precedence
-            for op_str in ["/", "*", "+", "-"]:
+            for op_strs in [["/"], ["*"], ["+", "-"]]:
                 while len(curr_expression) > 1:
                     for idx, item in enumerate(curr_expression):
-                        if isinstance(item, str) and (item == op_str):
+                        if isinstance(item, str) and (item in op_strs):
                             left_arg = curr_expression[idx - 1]
                             right_arg = curr_expression[idx + 1]
                             if isinstance(left_arg, iris.Constraint):
@@ -718,7 +718,7 @@ class ApplyDecisionTree(BasePlugin):
                                 right_eval = cubes.extract(right_arg)[0].data
                             else:
                                 right_eval = right_arg
-                            op = operator_map[op_str]
+                            op = operator_map[item]
                             res = op(left_eval, right_eval)
                             curr_expression = (
                                 curr_expression[: idx - 1]
-- 
2.43.0


From b4e1a06487e35badce5274aecf5003a46b2f9db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 12/29] fix: do not reorder the caller's threshold ranges

---
 improver/between_thresholds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/between_thresholds.py b/improver/between_thresholds.py
index 50edb67..7a83ac6 100644
--- a/improver/between_thresholds.py
+++ b/improver/between_thresholds.py
@@ -73,7 +73,7 @@ class OccurrenceBetweenThresholds(PostProcessingPlugin):
 
         cubes = []
         for t_range in self.threshold_ranges:
-            t_range.sort()
+            t_range = sorted(t_range)
             lower_constraint = iris.Constraint(
                 coord_values={
                     thresh_coord: lambda t: np.isclose(t.point, t_range[0], atol=1e-5)
-- 
2.43.0


From 3429026abb8f5411328574ee29f7b346db48b186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 13/29] fix: do not extend the caller's list of coordinates
 when aggregating tables

---
 improver/calibration/reliability_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/calibration/reliability_calibration.py b/improver/calibration/reliability_calibration.py
index 7d291f7..586e861 100644
--- a/improver/calibration/reliability_calibration.py
+++ b/improver/calibration/reliability_calibration.py
@@ -588,7 +588,7 @@ class AggregateReliabilityCalibrationTables(BasePlugin):
         Returns:
             Aggregated cube
         """
-        coordinates = [] if coordinates is None else coordinates
+        coordinates = [] if coordinates is None else list(coordinates)
 
         try:
             (cube,) = cubes
-- 
2.43.0


From 978da61e591dae0c10d6ed63fbaec59513dac9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 14/29] fix: do not modify the wind direction input when
 resolving components

---
 improver/wind_calculations/wind_components.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/wind_calculations/wind_components.py b/improver/wind_calculations/wind_components.py
index 9c6d8bb..22d7ea4 100644
--- a/improver/wind_calculations/wind_components.py
+++ b/improver/wind_calculations/wind_components.py
@@ -138,6 +138,7 @@ class ResolveWindComponents(BasePlugin):
             - Cube containing wind vector component in the positive
               y-direction v_speed
         """
+        angle = angle.copy()
         angle.convert_units("radians")
         angle.data += adj
 
-- 
2.43.0


From b747e460bdf255fe0e6defef9e6eba8823ae3b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 15/29] fix: average freezing rain over the realizations that
 are used

---
 improver/precipitation_type/freezing_rain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/precipitation_type/freezing_rain.py b/improver/precipitation_type/freezing_rain.py
index 94675a3..b7b10ba 100644
--- a/improver/precipitation_type/freezing_rain.py
+++ b/improver/precipitation_type/freezing_rain.py
@@ -293,6 +293,7 @@ class FreezingRain(PostProcessingPlugin):
 
         if n_realizations is not None:
             self._extract_common_realizations()
+            n_realizations = len(list(self.rain.slices_over("realization")))
 
         freezing_rain_cube = self._calculate_freezing_rain_probability(n_realizations)
 
-- 
2.43.0


From 3236c0cbbbb3d506a263c2c99359f608cfd02c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 16/29] fix: create the random state once when reordering
 several times

---
 .../ensemble_copula_coupling/ensemble_copula_coupling.py    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index 6c2b58b..43e9192 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -1401,13 +1401,13 @@ class EnsembleReordering(BasePlugin):
             the ranking from the raw ensemble.
         """
         results = iris.cube.CubeList([])
+        if random_seed is not None:
+            random_seed = int(random_seed)
+        random_seed = np.random.RandomState(random_seed)
         for rawfc, calfc in zip(
             raw_forecast_realizations.slices_over("time"),
             post_processed_forecast_percentiles.slices_over("time"),
         ):
-            if random_seed is not None:
-                random_seed = int(random_seed)
-            random_seed = np.random.RandomState(random_seed)
             random_data = random_seed.rand(*rawfc.data.shape)
             if random_ordering:
                 # Returns the indices that would sort the array.
-- 
2.43.0


From 1d7a9af2b0fa1925e27abe5d743e1c599686d39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 17/29] fix: take the mask from a single percentile or
 threshold slice

---
 .../ensemble_copula_coupling.py                    | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index 43e9192..c40d749 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -336,13 +336,14 @@ class ResamplePercentiles(BasePlugin):
             percentile_coord_name
         ).points
 
+        # Ensure that the percentile dimension is first, so that the
+        # conversion to a 2d array produces data in the desired order.
+        enforce_coordinate_ordering(forecast_at_percentiles, percentile_coord_name)
+
         original_mask = None
         if np.ma.is_masked(forecast_at_percentiles.data):
             original_mask = forecast_at_percentiles.data.mask[0]
 
-        # Ensure that the percentile dimension is first, so that the
-        # conversion to a 2d array produces data in the desired order.
-        enforce_coordinate_ordering(forecast_at_percentiles, percentile_coord_name)
         forecast_at_reshaped_percentiles = convert_cube_data_to_2d(
             forecast_at_percentiles, coord=percentile_coord_name
         )
@@ -618,13 +619,14 @@ class ConvertProbabilitiesToPercentiles(BasePlugin):
         threshold_points = threshold_coord.points
         threshold_name = threshold_coord.name()
 
+        # Ensure that the percentile dimension is first, so that the
+        # conversion to a 2d array produces data in the desired order.
+        enforce_coordinate_ordering(forecast_probabilities, threshold_name)
+
         original_mask = None
         if np.ma.is_masked(forecast_probabilities.data):
             original_mask = forecast_probabilities.data.mask[0]
 
-        # Ensure that the percentile dimension is first, so that the
-        # conversion to a 2d array produces data in the desired order.
-        enforce_coordinate_ordering(forecast_probabilities, threshold_name)
         prob_slices = convert_cube_data_to_2d(
             forecast_probabilities, coord=threshold_name
         )
-- 
2.43.0


From b91cbe17499f1082abcbf734c27031e01724f9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 18/29] fix: respect integration limits of zero

---
 improver/utilities/mathematical_operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/mathematical_operations.py b/improver/utilities/mathematical_operations.py
index df6e16f..c1b6b63 100644
--- a/improver/utilities/mathematical_operations.py
+++ b/improver/utilities/mathematical_operations.py
@@ -242,12 +242,12 @@ class Integration(BasePlugin):
             """Conditions under which a slice should not be included in
             the integrated total.  All inputs (except the string "direction")
             are floats."""
-            if start_point:
+            if start_point is not None:
                 if direction and lower_bound < start_point:
                     return True
                 if not direction and upper_bound > start_point:
                     return True
-            if end_point:
+            if end_point is not None:
                 if direction and upper_bound > end_point:
                     return True
                 if not direction and lower_bound < end_point:
-- 
2.43.0


From e6785f8088ab1d04ac96ac05a8ad6d3e5c6387a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 19/29] fix: do not reorder the caller's list of smoothing
 coefficients

---
 improver/nbhood/recursive_filter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/improver/nbhood/recursive_filter.py b/improver/nbhood/recursive_filter.py
index a9c391f..15ae57b 100644
--- a/improver/nbhood/recursive_filter.py
+++ b/improver/nbhood/recursive_filter.py
@@ -222,7 +222,9 @@ class RecursiveFilter(PostProcessingPlugin):
                 smoothing coefficient cube does not have the expected points.
         """
         # Ensure cubes are in x, y order.
-        smoothing_coefficients.sort(key=lambda cell: cell.name())
+        smoothing_coefficients = sorted(
+            smoothing_coefficients, key=lambda cell: cell.name()
+        )
         axes = ["x", "y"]
 
         for axis, smoothing_coefficient in zip(axes, smoothing_coefficients):
-- 
2.43.0


From 71901c2d95d82cf65b64f4d353c7dcf8e4dfe3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 20/29] fix: do not modify the roughness length input when
 downscaling wind

---
 improver/wind_calculations/wind_downscaling.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/wind_calculations/wind_downscaling.py b/improver/wind_calculations/wind_downscaling.py
index 5a69a5f..7f140a9 100644
--- a/improver/wind_calculations/wind_downscaling.py
+++ b/improver/wind_calculations/wind_downscaling.py
@@ -152,6 +152,7 @@ class RoughnessCorrectionUtilities:
         self.h_over_2 = self.sigma2hover2(sigma)  # half peak to trough height
         self.hcmask, self.rcmask = self._setmask()  # HC mask, RC mask
         if self.z_0 is not None:
+            self.z_0 = z_0.copy()
             self.z_0[z_0 <= 0] = Z0M_SEA
         self.dx_min = ppres / 2.0  # scales smaller than this not resolved in pp
         # the original code had hardcoded 500
-- 
2.43.0


From a166cdf344e8ddbb7ba59dc69890d578206fcd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 21/29] fix: use the original hail size below the lowest
 updated height

---
 improver/psychrometric_calculations/hail_size.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/psychrometric_calculations/hail_size.py b/improver/psychrometric_calculations/hail_size.py
index 16dcf2f..245a92a 100644
--- a/improver/psychrometric_calculations/hail_size.py
+++ b/improver/psychrometric_calculations/hail_size.py
@@ -335,7 +335,7 @@ class HailSize(BasePlugin):
             vertical_clipped.astype(int), horizontal_clipped.astype(int)
         ]
         hail_size = np.where(
-            wet_bulb_zero >= 3300,
+            wet_bulb_zero >= self._wbzh_keys[0],
             self.updated_hail_size(hail_size, wet_bulb_zero),
             hail_size,
         )
-- 
2.43.0


From 682bd29ec865544cecf56dd76fcb6f835834f810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 22/29] fix: do not zero the caller's smoothing coefficients
 where the input is masked

---
 improver/nbhood/recursive_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/nbhood/recursive_filter.py b/improver/nbhood/recursive_filter.py
index 15ae57b..5758280 100644
--- a/improver/nbhood/recursive_filter.py
+++ b/improver/nbhood/recursive_filter.py
@@ -373,7 +373,7 @@ class RecursiveFilter(PostProcessingPlugin):
 
             mask_cube = cube_format.copy(data=cube_format.data.mask)
             coeffs_x, coeffs_y = self._update_coefficients_from_mask(
-                coeffs_x, coeffs_y, mask_cube,
+                coeffs_x.copy(), coeffs_y.copy(), mask_cube,
             )
 
         padded_coefficients_x, padded_coefficients_y = self._pad_coefficients(
-- 
2.43.0


From 48b9294ebf5e3b2cf6371f6a8117de4a5f9eb62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:17 +0000
Subject: [PATCH 23/29] fix: look for the requested blending coordinate on
 every input

---
 improver/blending/spatial_weights.py | 5 ++++-
 improver/blending/weighted_blend.py  | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/improver/blending/spatial_weights.py b/improver/blending/spatial_weights.py
index 4aaafff..4ef2452 100644
--- a/improver/blending/spatial_weights.py
+++ b/improver/blending/spatial_weights.py
@@ -50,6 +50,7 @@ class SpatiallyVaryingWeightsFromMask(BasePlugin):
         """
         self.fuzzy_length = fuzzy_length
         self.blend_coord = blend_coord
+        self._requested_blend_coord = blend_coord
         self.blend_axis = None
 
     def __repr__(self) -> str:
@@ -84,7 +85,9 @@ class SpatiallyVaryingWeightsFromMask(BasePlugin):
                         dimension other than the dimension associated with
                         blend_coord.
         """
-        self.blend_coord = find_blend_dim_coord(cube_to_collapse, self.blend_coord)
+        self.blend_coord = find_blend_dim_coord(
+            cube_to_collapse, self._requested_blend_coord
+        )
 
         # Find original dim coords in input cube
         original_dim_coords = get_dim_coord_names(cube_to_collapse)
diff --git a/improver/blending/weighted_blend.py b/improver/blending/weighted_blend.py
index d3c8c06..c682783 100644
--- a/improver/blending/weighted_blend.py
+++ b/improver/blending/weighted_blend.py
@@ -386,6 +386,7 @@ class WeightedBlendAcrossWholeDimension(PostProcessingPlugin):
             msg = "Blending over thresholds is not supported"
             raise ValueError(msg)
         self.blend_coord = blend_coord
+        self._requested_blend_coord = blend_coord
         self.timeblending = timeblending
         self.cycletime = None
         self.crds_to_remove = None
@@ -697,6 +698,7 @@ class WeightedBlendAcrossWholeDimension(PostProcessingPlugin):
             )
             raise TypeError(msg)
 
+        self.blend_coord = self._requested_blend_coord
         if not cube.coords(self.blend_coord):
             msg = "Coordinate to be collapsed not found in cube."
             raise CoordinateNotFoundError(msg)
-- 
2.43.0


From 4468700c454fba29d529de8b46e44938223c77bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:59 +0000
Subject: [PATCH 24/29] fix: keep the order of the cell methods that merged
 cubes share

---
 improver/utilities/cube_manipulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/utilities/cube_manipulation.py b/improver/utilities/cube_manipulation.py
index 6a94ce1..5b65724 100644
--- a/improver/utilities/cube_manipulation.py
+++ b/improver/utilities/cube_manipulation.py
@@ -170,7 +170,7 @@ class MergeCubes(BasePlugin):
         """
         cell_methods = cubelist[0].cell_methods
         for cube in cubelist[1:]:
-            cell_methods = list(set(cell_methods) & set(cube.cell_methods))
+            cell_methods = [cm for cm in cell_methods if cm in cube.cell_methods]
         for cube in cubelist:
             cube.cell_methods = tuple(cell_methods)
 
-- 
2.43.0


From ebecc4143b5501d80d8b7b02aef2a59f620ba2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 25/29] fix: refuse weighting options of zero that the method
 does not accept

---
 improver/cli/weighted_blending.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/improver/cli/weighted_blending.py b/improver/cli/weighted_blending.py
index 32abb7a..e3baa56 100755
--- a/improver/cli/weighted_blending.py
+++ b/improver/cli/weighted_blending.py
@@ -116,9 +116,11 @@ def process(
         for _ in map(lambda cube: getattr(cube, "data"), cubes):
             pass
 
-    if (weighting_method == "linear") and cval:
+    if (weighting_method == "linear") and cval is not None:
         raise RuntimeError("Method: linear does not accept arguments: cval")
-    if (weighting_method == "nonlinear") and any([y0val, ynval]):
+    if (weighting_method == "nonlinear") and any(
+        val is not None for val in (y0val, ynval)
+    ):
         raise RuntimeError("Method: non-linear does not accept arguments: y0val, ynval")
     if (weighting_method == "dict") and weighting_config is None:
         raise RuntimeError('Dictionary is required if wts_calc_method="dict"')
-- 
2.43.0


From 089390aceb13b84c2d5fc84c0ad3af6b7128cb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:20 +0000
Subject: [PATCH 26/29] fix: choose the wind cube's level and time coordinates
 in a fixed order

---
 improver/wind_calculations/wind_downscaling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/wind_calculations/wind_downscaling.py b/improver/wind_calculations/wind_downscaling.py
index 7f140a9..85b1772 100644
--- a/improver/wind_calculations/wind_downscaling.py
+++ b/improver/wind_calculations/wind_downscaling.py
@@ -702,12 +702,12 @@ class RoughnessCorrection(PostProcessingPlugin):
         except CoordinateNotFoundError as exc:
             print("'{0}' while yname setting. Args: {1}.".format(exc, exc.args))
         if clist.intersection(self.zcoordnames):
-            zname = list(clist.intersection(self.zcoordnames))[0]
+            zname = [name for name in self.zcoordnames if name in clist][0]
         else:
             zname = None
 
         if clist.intersection(self.tcoordnames):
-            tname = list(clist.intersection(self.tcoordnames))[0]
+            tname = [name for name in self.tcoordnames if name in clist][0]
         else:
             tname = None
         return xname, yname, zname, tname
-- 
2.43.0


From 6a7df3c79b694ce1baa8288831be2cb959f615a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:20 +0000
Subject: [PATCH 27/29] fix: do not add optional attributes to the caller's
 mandatory attributes

---
 improver/metadata/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/metadata/utilities.py b/improver/metadata/utilities.py
index ffbd131..9082c67 100644
--- a/improver/metadata/utilities.py
+++ b/improver/metadata/utilities.py
@@ -59,7 +59,7 @@ def create_new_diagnostic_cube(
     Returns:
         Cube with correct metadata to accommodate new diagnostic field
     """
-    attributes = mandatory_attributes
+    attributes = mandatory_attributes.copy()
     if optional_attributes is not None:
         attributes.update(optional_attributes)
 
-- 
2.43.0


From 169773b76d80e7ee75b7a77bcc300690be3316af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:32 +0000
Subject: [PATCH 28/29] fix: leave the decision tree as it was when checking it

---
 improver/categorical/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/categorical/utilities.py b/improver/categorical/utilities.py
index b0367e4..d09f41a 100644
--- a/improver/categorical/utilities.py
+++ b/improver/categorical/utilities.py
@@ -5,6 +5,7 @@
 """This module defines the utilities required for decision tree plugin """
 
 from collections import OrderedDict
+from copy import deepcopy
 from typing import Any, Dict, List, Optional, Union
 
 import iris
@@ -368,6 +369,7 @@ def check_tree(
     if not isinstance(decision_tree, dict):
         raise ValueError("Decision tree is not a dictionary")
 
+    decision_tree = deepcopy(decision_tree)
     issues = []
     meta = decision_tree.pop("meta", None)
     if meta is None:
-- 
2.43.0


From 3c3e473be85e16ff49e9064497096ff5edffd963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:12 +0000
Subject: [PATCH 29/29] fix: keep calibrated exceedance probabilities in
 threshold order along their own dimension

---
 improver/calibration/reliability_calibration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/improver/calibration/reliability_calibration.py b/improver/calibration/reliability_calibration.py
index 586e861..02762dc 100644
--- a/improver/calibration/reliability_calibration.py
+++ b/improver/calibration/reliability_calibration.py
@@ -1172,7 +1172,9 @@ class ApplyReliabilityCalibration(PostProcessingPlugin):
                 "as the threshold values increase. Forced back into order."
             )
             warnings.warn(msg)
-            cube.data = np.sort(cube.data, axis=threshold_dim)[::-1]
+            cube.data = np.flip(
+                np.sort(cube.data, axis=threshold_dim), axis=threshold_dim
+            )
 
         if (
             thresholding == "below"
-- 
2.43.0

