"""One source for properties.jsonl, MANIFEST.json and the checks: what each property
says, which functions carry it and which rules decide it."""

IN, CO, HI, CR = "inputs", "configurations", "histories", "crash_points"

# modules: whole modules (prefix after "improver."; "x.*" = package)
# extra: single functions outside those modules that also carry the property
# rules: names of the intrinsic rules (rules/*.py) that decide it as well
P = []


def prop(id, title, statement, over, text, why, mech, modules=(), extra=(), rules=(), kinds=None, state=(), note=""):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()),
                  why=" ".join(why.split()), mech=mech, modules=list(modules), extra=list(extra), rules=list(rules),
                  kinds=kinds, state=list(state), note=note))


# ---------------------------------------------------------------- cross-cutting
prop("C01", "A processing object carries nothing over from one call to the next",
     """Calling a configured processing object gives the result that a freshly configured object would give
     for the same inputs, whatever inputs earlier calls had and whether or not they failed. Nothing that a call works
     out from its inputs (names, coordinates, thresholds, times, shapes, intermediate lists) changes what a later call
     of the same object does.""",
     [HI, IN], "every sequence of calls on one object, with any inputs",
     """Almost every test builds a new object for each case and calls it once; only sequences of calls on one object,
     with inputs that differ in the right way, can show left-over state.""",
     [("attributes assigned in the call before they are read", "improver/*: process and the methods it calls")],
     rules=["reuse", "shared", "alias"], kinds=("self", "selfupd"))

prop("C02", "Processing leaves the caller's options, constants and other inputs alone",
     """Using a processing object, function or command never changes option lists, dictionaries or defaults that the
     caller passed in, nor any shared constant table of the package. Input data objects are only changed in place by the
     few steps that are documented or known to do so; every other step leaves the data, coordinates and attributes of
     its inputs as they were.""",
     [IN, HI], "every call of every public function, with every aliasing of the arguments by the caller",
     """A test that builds its inputs afresh cannot see that they were changed; only comparing every input before and
     after every call, for every option that selects a path, would.""",
     [("copies taken before in-place work", "improver/*: cube.copy(), list(...), dict(...)"),
      ("in-place steps that are part of the interface", "improver/utilities/cube_manipulation.py enforce_coordinate_ordering and others")],
     rules=["mutation", "alias"], kinds=("upd", "upd_const"))

prop("C03", "Files are saved only when standard-compliant, and never appear half written",
     """A data file appears under its requested name only when it has been written completely, so that an
     interrupted or failing save leaves any earlier file as it was. Nothing is written unless every data set in it, and
     each of its coordinates, has the mandatory types and units and known units. The compression level, precision and global/local attribute
     placement asked for are those used, and each command saves its whole result if and only if an output name is given.""",
     [CR, IN], "every point at which a save can fail or be interrupted; every list of data sets and every save option",
     """Tests save a few small compliant files and never stop a save half way; a write under the final name, or one
     data set of several going unchecked, shows only on a crash or with a particular list.""",
     [("check before write, write to a temporary name, then rename", "improver/utilities/save.py save_netcdf"),
      ("mandatory standards", "improver/metadata/check_datatypes.py"), ("output option", "improver/cli/__init__.py with_output")],
     modules=["utilities.save", "metadata.check_datatypes", "utilities.load"], extra=["cli.with_output"],
     rules=["save"])

prop("C04", "Metadata of outputs follows the package's metadata standard",
     """New and standardised data sets carry the mandatory attributes taken from agreeing inputs (and defaults
     where inputs disagree or lack them), the requested name, units, types, and only the coordinates, cell methods and attributes that
     the rules allow. Standardising metadata converts units, removes and amends only what was asked for, keeps values
     correct when types change, and checks of metadata report every departure from the standard that they describe.""",
     [IN, CO], "every input data set, attribute set and metadata option",
     "Tests use a handful of hand-made cubes; attribute conflicts, scalar dimensions and type changes occur in combinations they do not sample.",
     [("mandatory attributes", "improver/metadata/utilities.py"), ("amendments", "improver/metadata/amend.py"),
      ("standardisation", "improver/standardise.py"), ("interpretation", "improver/developer_tools/metadata_interpreter.py")],
     modules=["metadata.utilities", "metadata.amend", "standardise", "developer_tools.metadata_interpreter", "utilities.copy_attributes"],
     extra=["PostProcessingPlugin.__call__", "PostProcessingPlugin.post_processed_title", "BasePlugin.__call__",
              "blending.utilities.update_blended_metadata",
              "between_thresholds.OccurrenceBetweenThresholds._update_metadata",
              "cube_combiner.CubeCombiner._add_cell_method",
              "cube_combiner.MaxInTimeWindow._correct_metadata",
              "calibration.ensemble_calibration.EstimateCoefficientsForEnsembleCalibration._set_attributes",
              "calibration.reliability_calibration.ConstructReliabilityCalibrationTables._define_metadata",
              "calibration.simple_bias_correction.CalculateForecastBias._define_metadata",
              "categorical.utilities.categorical_attributes",
              "nowcasting.accumulation.Accumulation._set_metadata",
              "nowcasting.lightning.NowcastLightning._update_metadata",
              "precipitation_type.freezing_rain.FreezingRain._generate_template_cube",
              "utilities.cube_manipulation.MergeCubes._equalise_cell_methods",
              "utilities.cube_manipulation.get_filtered_attributes",
              "utilities.cube_manipulation.compare_attributes",
              "utilities.spatial.DifferenceBetweenAdjacentGridSquares._update_metadata",
              "wind_calculations.wind_gust_diagnostic.WindGustDiagnostic.add_metadata",
              "metadata.probabilistic.format_cell_methods_for_probability",
              "metadata.probabilistic.format_cell_methods_for_diagnostic",
              "metadata.check_datatypes.*"])

prop("C05", "All parts agree on what a threshold inequality means",
     """Whether a probability is of exceeding or of falling below its thresholds is recorded in one vocabulary that
     every writer and reader interprets in the same way: each accepted spelling maps to the same comparison, each comparison has the
     right inverse, and inverting probabilities gives one minus the value with the opposite inequality. The threshold
     coordinate, the diagnostic and the direction found in probability data are those it was written with, and data that
     is not probability or percentile data is never taken for it.""",
     [IN, CO], "every spelling of every inequality and every pair of a writer and a reader",
     "Each test checks one writer or one reader; agreement between all of them for all spellings is a property of the tables as a whole.",
     [("comparison table", "improver/utilities/probability_manipulation.py"), ("probability metadata", "improver/metadata/probabilistic.py")],
     modules=["metadata.probabilistic", "utilities.probability_manipulation"],
     extra=["threshold.Threshold._decode_comparison_operator_string", "threshold.Threshold._update_metadata",
              "between_thresholds.OccurrenceBetweenThresholds._get_multiplier",
              "between_thresholds.OccurrenceBetweenThresholds._update_metadata",
              "calibration.reliability_calibration.ApplyReliabilityCalibration._ensure_monotonicity_across_thresholds",
              "categorical.decision_tree.ApplyDecisionTree.construct_extract_constraint",
              "ensemble_copula_coupling.ensemble_copula_coupling.ConvertLocationAndScaleParametersToProbabilities._location_and_scale_parameters_to_probabilities",
              "ensemble_copula_coupling.ensemble_copula_coupling.ConvertProbabilitiesToPercentiles._probabilities_to_percentiles",
              "nowcasting.lightning.NowcastLightning._update_metadata",
              "visibility.visibility_combine_cloud_base.VisibilityCombineCloudBase.*",
              "precipitation_type.utilities.make_shower_condition_cube",
              "synthetic_data.set_up_test_cubes._probability_cube"], rules=["inequality"])

prop("C06", "Thresholding gives the right truth value or fuzzy membership at each point",
     """For each threshold and each point, the result is 1 where the value satisfies the chosen comparison
     with the threshold (converted to the data's units), 0 where it does not, and with fuzzy bounds varies linearly through 0.5 at the threshold
     in the direction of the comparison. Requested vicinity processing, collapsing of a coordinate, latitude dependence, missing-data filling
     and masking apply at every threshold alike; the probability of lying between two thresholds is the
     difference of those of the two, whichever inequality they were given with.""",
     [IN, CO], "every data value, threshold value, unit, comparison, fuzzy bound, vicinity and collapse option",
     "Equality with a threshold, masked points, several thresholds with different bounds and unit conversion occur in combinations tests only sample.",
     [("truth values", "improver/threshold.py"), ("fuzzy rescaling", "improver/utilities/rescale.py"), ("between thresholds", "improver/between_thresholds.py")],
     modules=["threshold", "between_thresholds", "utilities.rescale"],
     extra=["utilities.probability_manipulation.comparison_operator_dict"])

prop("C07", "Probabilities, percentiles and realizations convert consistently",
     """Converting between probabilities, percentiles and realizations interpolates monotonically within the
     known thresholds or percentiles, extends to the ends of the distribution given by the bounds for the diagnostic, and puts results at the
     requested percentiles or number of realizations. Masks, non-percentile dimensions, units and inequality direction are kept,
     and expected values integrate the same distribution.""",
     [IN, CO], "every distribution shape, direction, bound, percentile choice and dimension order",
     "Repeated values, values outside the bounds, masks, below-threshold probabilities and unusual dimension orders are each sampled at most once.",
     [("conversion", "improver/ensemble_copula_coupling/ensemble_copula_coupling.py"), ("interpolation and bounds", "improver/ensemble_copula_coupling/utilities.py")],
     modules=["ensemble_copula_coupling.utilities", "ensemble_copula_coupling.numba_utilities", "ensemble_copula_coupling.constants",
              "percentile", "expected_value"],
     extra=["ensemble_copula_coupling.ensemble_copula_coupling.Rebadge*", "ensemble_copula_coupling.ensemble_copula_coupling.ResamplePercentiles*",
            "ensemble_copula_coupling.ensemble_copula_coupling.ConvertProbabilitiesToPercentiles*"])

prop("C08", "Reordering an ensemble keeps the calibrated values and the raw rank order",
     """Ensemble reordering gives, at every point, exactly the calibrated values arranged in the rank order of
     the raw ensemble, with ties broken as requested and raw members repeated when there are fewer of them. Distribution
     parameters turn into percentiles or probabilities of that same distribution, with the configured shape, units and inequality direction.""",
     [IN, CO], "every raw ensemble, tie, mask, seed and distribution",
     "Ties, masks and differing ensemble sizes are sampled only singly, and the truncated distributions at few points.",
     [("reordering and distributions", "improver/ensemble_copula_coupling/ensemble_copula_coupling.py"), ("distribution", "improver/ensemble_copula_coupling/_scipy_continuous_distns.py")],
     modules=["ensemble_copula_coupling._scipy_continuous_distns"],
     extra=["ensemble_copula_coupling.ensemble_copula_coupling.EnsembleReordering*",
            "ensemble_copula_coupling.ensemble_copula_coupling.ConvertLocationAndScaleParameters*"])

prop("C09", "Blending is a normalised weighted mean, and its metadata says what went in",
     """Blending combines its inputs along the chosen coordinate with non-negative weights that sum to one at each point, so that
     inputs with zero weight or masked have no influence and equal inputs are returned unchanged. Weights come from
     the chosen scheme (linear, non-linear, triangular, or from a dictionary), interpolated in the right units and matched to the right input, and
     blended times, model identifiers and run records describe the contributing inputs only.""",
     [IN, CO], "every number and order of inputs, weighting scheme, mask and option",
     "Input order, zero weights, masks, percentile data and missing cycles interact; tests fix each one at a time.",
     [("weighted blending", "improver/blending/weighted_blend.py"), ("weights", "improver/blending/weights.py"), ("spatial weights", "improver/blending/spatial_weights.py"),
      ("metadata", "improver/blending/utilities.py")],
     modules=["blending.*"])

prop("C10", "Neighbourhood processing uses just the valid points within the radius",
     """Each neighbourhood result is the mean, sum, fraction or percentile over the valid points within the stated distance (square or circle) of
     the point, with the radius interpolated for the lead time; masked and missing points neither contribute nor are filled,
     except where re-masking or keeping the surroundings was asked for. With a topography mask each band is processed on its own and collapsed
     with its normalised weights, and padding added for the computation never reaches the output.""",
     [IN, CO], "every field, mask, missing value, radius, lead time, shape and weighting option",
     "Edge points, masks, NaNs and radii around a grid length interact with padding; tests use small fixed grids.",
     [("neighbourhoods", "improver/nbhood/nbhood.py"), ("masked neighbourhoods", "improver/nbhood/use_nbhood.py"), ("box sums", "improver/utilities/neighbourhood_tools.py")],
     modules=["nbhood", "nbhood.nbhood", "nbhood.use_nbhood", "utilities.neighbourhood_tools", "utilities.textural"])

prop("C11", "Recursive filtering and halo padding act where and as strongly as configured",
     """The recursive filter smooths forwards and backwards along each axis with the coefficients given for that axis, as often as asked,
     never passes values across points whose coefficients are zeroed by a mask, and accepts coefficients only for the
     matching grid and range. Padding surrounds a grid with a halo of the requested width on a regular extension of its coordinates, and removing
     the halo gives back the original grid; orographic smoothing coefficients decrease as gradients increase between the configured limits.""",
     [IN, CO], "every field, coefficient field, mask, width, method and iteration count",
     "Tests use symmetric coefficients on small grids, where a swapped axis, direction or edge width shows no difference.",
     [("recursive filter", "improver/nbhood/recursive_filter.py"), ("padding", "improver/utilities/pad_spatial.py"), ("coefficients", "improver/generate_ancillaries/generate_orographic_smoothing_coefficients.py")],
     modules=["nbhood.recursive_filter", "utilities.pad_spatial", "generate_ancillaries.generate_orographic_smoothing_coefficients"])

prop("C12", "Validity time, reference time and forecast period always agree",
     """Whenever times are set, replaced or combined, forecast period equals validity time minus reference time
     in points and bounds, intervals of a day or more count in full, negative periods are refused unless
     allowed, and mandatory units and types are kept. Cycle times are unified or rebadged to
     the latest or requested one without changing the validity time, and conversion between datetimes and cycle strings or numbers loses nothing.""",
     [IN, CO], "every combination of time coordinates, bounds, units and cycle",
     "Tests use intervals of a few hours on one day with standard units; long periods, bounds and mixed units are not sampled.",
     [("forecast times", "improver/metadata/forecast_times.py"), ("temporal utilities", "improver/utilities/temporal.py")],
     modules=["metadata.forecast_times", "utilities.temporal", "utilities.time_lagging"],
     extra=["blending.utilities._get_cycletime_point",
              "blending.utilities._set_blended_time_coords",
              "calibration.utilities.filter_non_matching_cubes",
              "categorical.decision_tree.ApplyDecisionTree._set_reference_time",
              "categorical.modal_code.ModalCategory._set_blended_times",
              "nowcasting.lightning.NowcastLightning._modify_first_guess",
              "nowcasting.lightning.NowcastLightning.apply_precip",
              "nowcasting.pysteps_advection.PystepsExtrapolate._set_up_output_cubes",
              "nowcasting.utilities.ApplyOrographicEnhancement._select_orographic_enhancement_cube",
              "synthetic_data.set_up_test_cubes.construct_scalar_time_coords",
              "synthetic_data.set_up_test_cubes._create_time_point",
              "utilities.temporal_interpolation.TemporalInterpolation.*",
              "nowcasting.accumulation.Accumulation.*",
              "cube_combiner.MaxInTimeWindow.*",
              "nowcasting.forecasting.AdvectField._*",
              "nowcasting.forecasting.CreateExtrapolationForecast.*"], rules=["timedelta"])

prop("C13", "Temporal interpolation and periods respect the data's kind and its time bounds",
     """Interpolating between two times gives values at exactly the requested intermediate times, linear in
     time (or by the solar angle or daylight rule asked for), the circular mean for directions, and for accumulations and period
     maxima or minima values that fit the new intervals and conserve totals. Accumulating rates or taking extremes over windows uses each interval once, weighted by its length.""",
     [IN, CO], "every pair of times, list of times, kind of data and interpolation method",
     "Period data with several intermediate times, angles across north and day boundaries occur in combinations tests do not cover.",
     [("interpolation", "improver/utilities/temporal_interpolation.py"), ("accumulation", "improver/nowcasting/accumulation.py"), ("windows", "improver/cube_combiner.py")],
     modules=["utilities.temporal_interpolation", "nowcasting.accumulation", "utilities.complex_conversion"],
     extra=["cube_combiner.MaxInTimeWindow*"], rules=["timedelta"])

prop("C14", "Extraction selects just the requested data, in the requested units",
     """Extracting by constraints returns the data whose coordinates satisfy every constraint, with values given in
     other units converted for the comparison and back, ranges inclusive, and tolerance for floating-point
     representation; thinning keeps every n-th point. Extraction at a level or from a table
     interpolates in the coordinate asked for, fills missing data only from valid neighbours, and never invents values outside the range.""",
     [IN, CO], "every constraint list, unit, range, level and table",
     "Tests use round values; representation error, reversed coordinates, units and missing levels are not explored.",
     [("extraction", "improver/utilities/cube_extraction.py"), ("tables", "improver/utilities/extract_from_table.py")],
     modules=["utilities.cube_extraction", "utilities.cube_constraints", "utilities.extract_from_table", "utilities.round"])

prop("C15", "Combining, merging and reshaping data keeps every value with its coordinates",
     """Merging, reordering, collapsing, sorting and broadcasting keep every value attached to its own coordinate
     values, drop attributes or coordinates only when inputs disagree, and refuse inputs whose grids, times or bounds do not match. Combining inputs applies
     the chosen operation to all of them in order, at matching points, honouring masks, broadcasting and
     expanded bounds, and keeps the number type.""",
     [IN, CO], "every list and order of inputs, dimension order, mask and operation",
     "Dimension order, scalar coordinates and broadcasting vary independently; tests sample few combinations.",
     [("cube manipulation", "improver/utilities/cube_manipulation.py"), ("combiner", "improver/cube_combiner.py"), ("checks", "improver/utilities/cube_checker.py")],
     modules=["utilities.cube_manipulation", "utilities.cube_checker", "utilities.common_input_handle", "utilities.flatten", "utilities.indexing_operations",
              "utilities.mask"],
     extra=["cube_combiner.Combine*", "cube_combiner.CubeCombiner*", "cube_combiner.masked_add"])

prop("C16", "Humidity, wet-bulb and vapour-pressure calculations follow the physical formulae",
     """Saturation vapour pressure, humidity, latent heat, adiabatic changes, wet-bulb temperature and its vertical integral, cloud condensation level and cloud-top temperature
     are computed point by point from inputs in the stated units with the documented formulae, constants and
     convergence limits, for the whole range of valid inputs. Out-of-range table lookups are limited as documented and warned of, and iterations update only points not yet converged.""",
     [IN], "every valid field of temperature, pressure and humidity",
     "Tests compare a few points with stored values to loose tolerance; branches for ice, iteration and table limits act at particular values.",
     [("psychrometrics", "improver/psychrometric_calculations/psychrometric_calculations.py"), ("wet bulb", "improver/psychrometric_calculations/wet_bulb_temperature.py")],
     modules=["psychrometric_calculations.wet_bulb_temperature", "psychrometric_calculations.cloud_condensation_level",
              "psychrometric_calculations.cloud_top_temperature", "generate_ancillaries.generate_svp_table", "constants", "utilities.mathematical_operations"],
     extra=["psychrometric_calculations.psychrometric_calculations._*", "psychrometric_calculations.psychrometric_calculations.calculate*",
            "psychrometric_calculations.psychrometric_calculations.dry*", "psychrometric_calculations.psychrometric_calculations.sat*",
            "psychrometric_calculations.psychrometric_calculations.adjust*", "psychrometric_calculations.psychrometric_calculations.HumidityMixingRatio*"])

prop("C17", "Phase-change levels and precipitation phase follow temperature and height rules",
     """The level at which precipitation changes phase is the height where the integrated wet-bulb temperature reaches the
     threshold of that phase, extrapolated below the lowest level or over sea as documented, interpolated into gaps, and
     never left above the limit by neighbouring high ground. Phase probabilities, phase masks, snow fraction, sleet probability and the split of precipitation by phase are consistent
     with one another, sum correctly, and use the right comparison with the orography or wet-bulb profile.""",
     [IN, CO], "every profile, orography, land mask, percentile and phase",
     "Sea points, high ground, missing levels and the three phases follow separate branches that tests visit with a few columns.",
     [("phase-change level", "improver/psychrometric_calculations/psychrometric_calculations.py"), ("phase probability", "improver/psychrometric_calculations/precip_phase_probability.py")],
     modules=["psychrometric_calculations.precip_phase_probability", "psychrometric_calculations.significant_phase_mask",
              "precipitation_type.snow_fraction", "precipitation_type.snow_splitter", "precipitation_type.calculate_sleet_prob"],
     extra=["psychrometric_calculations.psychrometric_calculations.PhaseChangeLevel*"])

prop("C18", "Hail, freezing rain, convection and shower diagnostics use the right inputs",
     """Hail size, hail fraction, freezing-rain probability, convective ratio and shower condition are computed from the
     named ingredients at matching units, times and realizations with the documented thresholds and tables. They are set to
     zero or missing in just the documented conditions, and inputs that lack an ingredient or do not match are refused.""",
     [IN, CO], "every combination of ingredient fields and options",
     "Each has several threshold conditions that act in combination; tests vary one ingredient at a time.",
     [("hail size", "improver/psychrometric_calculations/hail_size.py"), ("freezing rain", "improver/precipitation_type/freezing_rain.py")],
     modules=["psychrometric_calculations.hail_size", "precipitation_type.hail_fraction", "precipitation_type.freezing_rain",
              "precipitation_type.convection", "precipitation_type.shower_condition_probability", "precipitation_type.utilities"])

prop("C19", "Lightning, visibility, UV and feels-like diagnostics follow their formulae",
     """Lightning probabilities follow the latitude-dependent thresholds and ingredient conditions documented, visibility is combined with cloud base by the
     documented scaling and cap, and UV index and feels-like temperature apply their formulae and the blend between
     wind chill and apparent temperature in the right temperature range. Each uses inputs in the stated units and checks that times match.""",
     [IN, CO], "every combination of ingredient fields",
     "The formulae switch between branches at particular values; tests sample a few points of each branch.",
     [("lightning", "improver/lightning.py"), ("feels-like", "improver/feels_like_temperature.py"), ("UV index", "improver/uv_index.py"), ("visibility", "improver/visibility/visibility_combine_cloud_base.py")],
     modules=["lightning", "visibility.visibility_combine_cloud_base", "uv_index", "feels_like_temperature"])

prop("C20", "Calibration pairs each forecast with the truth or coefficients meant for it",
     """Forecasts, truths, coefficients, biases and additional predictors are told apart and paired by validity
     time, reference hour, period, site and diagnostic, and those that do not match are dropped or refused as documented. Tables of forecasts and
     observations become data in which each value sits at its own site, time, period and percentile or realization, with missing entries filled and duplicates dropped.""",
     [IN, CO], "every set and order of forecasts, truths, sites, times and table rows",
     "Mismatches arise from partly overlapping sets, ordering and duplicates; tests use complete, sorted sets.",
     [("splitting inputs", "improver/calibration/__init__.py"), ("pairing", "improver/calibration/utilities.py"), ("tables", "improver/calibration/dataframe_utilities.py")],
     modules=["calibration", "calibration.utilities", "calibration.dataframe_utilities"])

prop("C21", "Ensemble calibration estimates and applies the configured distribution",
     """Coefficients are estimated by minimising the score of the chosen distribution from the documented initial guess, predictor, tolerance and
     iteration limit, either for all points together or for each point, with masked points excluded and metadata that records how. Applying
     them to a forecast uses the coefficients of matching diagnostic, domain and predictors, and returns the calibrated distribution in the form, masking, percentiles and
     ordering of the forecast, or the forecast itself where no coefficients are given.""",
     [IN, CO], "every forecast, predictor, distribution and option",
     "Options (point by point, realizations or mean, additional predictors, land-sea mask) multiply; tests fix most of them.",
     [("ensemble calibration", "improver/calibration/ensemble_calibration.py")],
     modules=["calibration.ensemble_calibration"])

prop("C22", "Each command line delivers what its plugin computes with the options given",
     """Each command passes every option and input given on its command line to the computation it is documented to run, under
     its documented meaning, selects inputs by name in the documented way, and returns the result of that computation. A file
     name and an in-memory object are interchangeable as inputs, converters turn option text into the right type, nested commands
     feed their result to the outer one, and a dry run executes nothing.""",
     [IN, CO], "every combination of command-line options of every command",
     "The command-line tests need large external data and are skipped without it; no test checks each option of each command.",
     [("commands", "improver/cli/*.py"), ("converters and dispatch", "improver/cli/__init__.py")],
     modules=["cli.*"], rules=["cliwiring"])

prop("C23", "Every published plugin name leads to the plugin it names",
     """Each name in the package's public interface resolves to the class or function of that name in the module
     that defines it, and asking for an unknown name fails. Every processing step that a published plugin inherits (calling it
     runs its processing and, for post-processing, marks titles) works for every one of them.""",
     [CO], "every published name",
     "The tests import only what their environment can import; a wrong module path shows only when that name is used.",
     [("name table", "improver/api/__init__.py"), ("base classes", "improver/__init__.py")],
     modules=["api"], extra=["BasePlugin.__call__", "BasePlugin.process"], rules=["api"])

prop("C24", "The same inputs and options always give the same result",
     """Results depend only on inputs and options: never on the clock, the process, the iteration order of sets, or unseeded random
     numbers unless randomness was asked for without a seed. Cached results are keyed by everything they depend on and are never changed after being cached.""",
     [HI, IN], "every pair of runs with equal inputs",
     "One test run sees one hash seed, one clock and one random stream.",
     [("seeded random state", "improver/ensemble_copula_coupling/ensemble_copula_coupling.py EnsembleReordering.rank_ecc"),
      ("sorted names and keys", "improver/*: sorted(set(...))"), ("cache", "lru_cache uses")],
     rules=["determinism"])

prop("C25", "Invalid or mismatched inputs are refused, not processed",
     """Every documented precondition on inputs and options (missing ingredients, mismatched
     grids, times, units, realizations or sites, unsupported option values, wrong number of inputs) is checked before results
     are produced, and its violation raises an error of the documented kind. Valid inputs, including those at the limits of what is allowed, are never refused.""",
     [IN, CO], "every invalid combination of inputs and options",
     "Tests trigger most errors with one example; the exact condition of each check is quantified over all inputs.",
     [("raise statements and their conditions", "improver/*")],
     kinds=("raise",))

prop("C26", "Reliability, bias and rainforest calibration correct as their tables say",
     """Reliability tables count forecasts and observations in the right probability bins, aggregate by summing, enforce the minimum sample and
     monotonicity by merging neighbouring bins only, and map forecast probabilities by interpolating between
     bin means while keeping order across thresholds. Bias correction subtracts the mean bias of matching inputs within limits, and tree-based calibration feeds
     features in trained order to the model of each lead time and threshold and interpolates to the output thresholds.""",
     [IN, CO], "every table, sample count, forecast, feature set and option",
     "Bin edges, undersampled bins and monotonicity interact over several bins; tests use a few fixed tables.",
     [("reliability", "improver/calibration/reliability_calibration.py"), ("bias", "improver/calibration/simple_bias_correction.py"), ("rainforests", "improver/calibration/rainforest_calibration.py")],
     modules=["calibration.reliability_calibration", "calibration.simple_bias_correction", "calibration.rainforest_calibration"])

prop("C27", "Nowcasts move fields by the right displacement and keep masks and times right",
     """Advection moves each field by velocity times lead time in grid lengths along the right axis and direction, masks
     what enters from outside, and labels outputs with their true validity time and period. Velocities estimated from successive fields or winds keep sign, units and smoothing; orographic enhancement is added or subtracted only
     where it rains and never below the minimum rate, and radar masks and holes are filled only as documented.""",
     [IN, CO], "every field, velocity, mask and lead time",
     "Tests use small symmetric fields and one lead time; axis, sign and mask errors cancel there.",
     [("advection", "improver/nowcasting/forecasting.py"), ("optical flow", "improver/nowcasting/optical_flow.py"), ("radar utilities", "improver/nowcasting/utilities.py")],
     modules=["nowcasting.forecasting", "nowcasting.optical_flow", "nowcasting.pysteps_advection", "nowcasting.utilities", "nowcasting.lightning"])

prop("C28", "Regridding takes land points from land and sea points from sea",
     """Each target point takes its value from the source points nearest to or surrounding it with the weights of the
     chosen method, using for land (sea) targets land (sea) sources within the stated distance where there are any, and
     masking or leaving as documented where there are none or the target lies outside the source grid. Dimension order, metadata and masks are as on the target grid.""",
     [IN, CO], "every pair of grids, land mask, mode and distance",
     "Coastal points, grid edges and descending coordinates are special cases on which tests have few points.",
     [("land-sea regridding", "improver/regrid/landsea.py"), ("mask-aware methods", "improver/regrid/landsea2.py"), ("interpolation", "improver/regrid/bilinear.py")],
     modules=["regrid.*"])

prop("C29", "Spot data at a site comes from the right grid point, adjusted for its height",
     """Each site gets the value of the grid point chosen for it: the nearest, or the nearest on land and with the least height difference within the
     search radius, with equal candidates resolved as documented and sites outside the domain left out. Height and lapse-rate adjustment uses the
     vertical displacement of that neighbour with the right sign and limits, and spot data keep the site's own coordinates, identifiers and diagnostic's metadata.""",
     [IN, CO], "every site, grid, land mask and option",
     "Ties, sites at edges and multi-dimensional times are special cases; tests place sites at convenient points.",
     [("neighbours", "improver/spotdata/neighbour_finding.py"), ("extraction", "improver/spotdata/spot_extraction.py"), ("lapse rate", "improver/spotdata/apply_lapse_rate.py")],
     modules=["spotdata", "spotdata.*", "calibration.dz_rescaling"])

prop("C30", "Temperature lapse rates and gap filling use just the valid surrounding points",
     """Lapse rates are fitted by least squares over the valid land points of each window, limited to the
     configured range, replaced by the dry adiabatic rate where too few points or too great height differences remain, and
     applied with the right sign to height differences. Missing data are interpolated only where invalid, from valid points and within the limit, and a
     reference forecast or difference field is combined with the operation and bounds asked for.""",
     [IN, CO], "every temperature, orography, mask, limit and window",
     "Windows with masked points, flat windows and clipping occur at particular points only.",
     [("lapse rate", "improver/lapse_rate.py"), ("interpolation", "improver/utilities/interpolation.py"), ("consistency", "improver/utilities/forecast_reference_enforcement.py")],
     modules=["lapse_rate", "utilities.interpolation", "utilities.forecast_reference_enforcement"])

prop("C31", "The decision tree assigns each point the category of the route it satisfies",
     """Each point gets the category of the leaf reached by following, at each node, the branch given by the conditions at that point, with
     missing optional or unknown data following the configured route, and every condition evaluated with
     its threshold, inequality and combination as configured. Trees that are inconsistent are reported, day and night codes are swapped by the sun,
     and the modal category is the most common, with ties and day/night pairs resolved as documented.""",
     [IN, CO], "every tree, set of inputs and missing optional input",
     "The number of routes grows with the tree; tests evaluate a few routes of one tree.",
     [("decision tree", "improver/categorical/decision_tree.py"), ("tree checks", "improver/categorical/utilities.py"), ("modal category", "improver/categorical/modal_code.py")],
     modules=["categorical.*"])

prop("C32", "Wind calculations respect angle wrap-around, grid direction and height",
     """Mean wind direction is the circular mean over realizations with confidence falling back as documented; wind components are
     resolved with the grid's angle to true north so that speed is conserved. Downscaling corrects speed by the roughness and height profile only where ancillaries are
     valid, gusts and updraughts follow their documented formulae and percentile or input checks.""",
     [IN, CO], "every direction, speed, grid and ancillary",
     "Directions across north, calm winds, masked ancillaries and dimension orders are each sampled once at most.",
     [("direction", "improver/wind_calculations/wind_direction.py"), ("components", "improver/wind_calculations/wind_components.py"), ("downscaling", "improver/wind_calculations/wind_downscaling.py")],
     modules=["wind_calculations.*"])

prop("C33", "Orographic enhancement follows humidity, wind and slope upstream of each point",
     """Orographic enhancement is computed where air is moist and the wind blows upslope fast enough, from humidity, vapour pressure, wind and orography gradient at the point, and adds the upstream
     contribution along the wind with the documented distance weighting and efficiency. Output units, grid and masking are as documented, on the high-resolution grid as requested.""",
     [IN], "every field of temperature, humidity, pressure, wind and orography",
     "The upstream sum depends on wind direction and distance at every point; tests use uniform winds on a tiny grid.",
     [("orographic enhancement", "improver/orographic_enhancement.py")],
     modules=["orographic_enhancement"])

prop("C34", "Distances, gradients and vicinities are measured correctly on every grid type",
     """Distances and gradients between grid points use the true spacing of the grid (equal-area, projected or
     latitude-longitude with wrap-around) along the right axis, in the units asked for. A vicinity maximum covers just the valid
     land- or sea-matching points within the radius, and coordinate transforms give the right latitude and longitude.""",
     [IN, CO], "every grid type, spacing, axis and radius",
     "Tests use unit grids with equal x and y spacing, where axis and unit mistakes cancel.",
     [("spatial utilities", "improver/utilities/spatial.py"), ("grids", "improver/grids.py")],
     modules=["utilities.spatial", "grids"])

prop("C35", "Ancillaries and solar fields follow orography, masks and the sun's position",
     """Land masks, orography bands and topographic zone weights classify every point by its height and surface so that
     weights over bands sum to one on land; solar angles, day/night masks, solar time and clear-sky radiation follow the sun's position
     for the date, time and place, across longitudes, midnight and year ends, integrated over the whole period.""",
     [IN, CO], "every place, date and time, orography and band limits",
     "Band edges, midnight, year end and the date line are particular values that tests do not sweep.",
     [("ancillaries", "improver/generate_ancillaries"), ("sun", "improver/utilities/solar.py")],
     modules=["generate_ancillaries", "generate_ancillaries.generate_ancillary", "generate_ancillaries.generate_topographic_zone_weights",
              "generate_ancillaries.generate_derived_solar_fields", "utilities.solar"])

prop("C36", "Comparison of data files reports every difference beyond tolerance",
     """Comparing two files reports each difference in dimensions, variables, attributes (other than those excluded), types, masks and
     values beyond the tolerances given, and reports none for equal files. Generated test data have the requested
     name, units, grid, times, realizations, thresholds or percentiles.""",
     [IN, CO], "every pair of files and every metadata request",
     "Tests make one kind of difference at a time in one small file.",
     [("comparison", "improver/utilities/compare.py"), ("synthetic data", "improver/synthetic_data")],
     modules=["utilities.compare", "synthetic_data.*", "utilities.redirect_stdout", "utilities.cli_utilities"])

prop("C37", "Every option takes effect, and values of zero are respected",
     """Every option and input that a plugin or function accepts influences its result or its checks: none is
     ignored, overwritten before use or computed and then discarded. A numeric option of zero is treated as
     that number and not as absent, and an option that asks for the lowest or the highest gets that one.""",
     [CO], "every option of every public function and plugin, with every value",
     "Tests pass options with typical values and check one effect of each; an ignored option or a zero shows only when just that option varies.",
     [("parameters reach reads", "improver/*: signatures and constructors")],
     rules=["options"])

NA = []


def na(id, title, statement, over, text, why, files, reason):
    NA.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=text, why=why, files=files, reason=" ".join(reason.split())))


na("C40", "Probabilities stay within zero and one and are monotonic across thresholds",
   """Every probability produced lies between 0 and 1 inclusive, and exceedance probabilities never increase with the threshold.""",
   [IN], "every input field and every chain of processing steps", "Tests sample few fields, and rounding matters.",
   ["improver/threshold.py", "improver/nbhood/nbhood.py", "improver/blending/weighted_blend.py"],
   """A bound on computed floating-point values for all inputs: weighted sums and interpolation in single precision stay within bounds only by numerical argument about data
   values, which no dataflow or shape argument in reach can make; the structural steps (normalisation, clipping, monotone resampling) are covered under C06, C07, C09, C10 and C26.""")
na("C41", "Calibrated forecasts verify better than raw ones",
   "Calibration improves the verification score of forecasts on independent data.", [IN], "every forecast and truth archive", "Tests use tiny made-up archives.",
   ["improver/calibration/ensemble_calibration.py"],
   "Quantifies over data statistics and convergence of a numerical minimiser; there is nothing in the source that decides it.")
na("C42", "Large grids are processed lazily within bounded memory and time",
   "Processing never loads more than the needed slices and its cost grows linearly with the grid.", [IN], "every grid size", "Tests use small grids.",
   ["improver/utilities/load.py"],
   "Laziness and cost are decided inside iris and dask, whose sources are not part of this sandbox; the repository's own source does not determine them.")
na("C43", "Estimated motion reproduces the true motion of precipitation",
   "Optical flow recovers the displacement of a moving field to within a stated error.", [IN], "every moving field", "Tests use one moving block.",
   ["improver/nowcasting/optical_flow.py"],
   "A numerical accuracy claim over image content; static analysis can only pin the algorithm's steps, which C27 does.")
na("C44", "Concurrent processes saving to the same place never disturb each other",
   "Two runs that write the same output name at the same time leave one complete file.", ["schedules"], "every interleaving of two processes", "Tests run one process.",
   ["improver/utilities/save.py"],
   "The temporary name is derived from the output name alone, so the code does not offer this guarantee; only the single-writer, crash-point form (C03) is claimed.")
