RUNS = "every domain, forcing series and valid configuration, at every pixel and time step"

prop("S01", "Snowpack mass balance closes",
     "At every pixel and time step the change of the snow, firn and ice mass equals the mass added by snowfall, rain retained in the pack and frost deposition minus melt water leaving the pack, sublimation and evaporation, for every snow model and melt method. No layer mass ever becomes negative, melt and sublimation never remove more than is there, and water that is not retained leaves as runoff in the same step. Missing forcing neither creates nor destroys mass.",
     ["inputs", "configurations", "histories"], RUNS,
     "The tests compare a few short runs with themselves; conservation has to hold for every sequence of accumulation, melt, refreezing, layer splitting and transition.",
     [M + "modules/snow/multilayermodel.py", M + "modules/snow/cryolayermodel.py", M + "modules/snow/snow.py"],
     [("layer mass bookkeeping", M + "modules/snow/multilayermodel.py"), ("cryo layer transitions", M + "modules/snow/cryolayermodel.py")],
     "step-trace conservation monitor on full model runs", ["state before/after every time step"])

prop("S02", "Snowpack state is always physically consistent",
     "After every time step the snowpack state is self-consistent: snow water equivalent and depth equal the sums over the layers, layer density stays between zero and the density of ice, liquid water does not exceed the holding capacity, and snow never is warmer than the melting point. Layers are filled from the surface without gaps and follow the prescribed thicknesses, snow-free pixels carry no residual snow state, and the snow-covered fraction and albedo stay within their documented ranges.",
     ["inputs", "configurations", "histories"], RUNS,
     "State invariants must survive every sequence of events; tests sample a handful of steps.",
     [M + "modules/snow/multilayermodel.py", M + "modules/snow/cryolayermodel.py", M + "modules/snow/snow.py"],
     [("layer redistribution", M + "modules/snow/multilayermodel.py"), ("layer update", M + "modules/snow/cryolayermodel.py")],
     "state invariant monitor after every step of full model runs", ["state after every time step"])

prop("S03", "Fresh snow density, settling and albedo ageing follow the parameterisations",
     "Freshly fallen snow is added with the density the configured parameterisation gives for the current temperature, existing snow settles by exactly the configured compaction rate (never expanding, never beyond the configured limits), and depth equals mass over density. Snow albedo decays towards its configured minimum with the time scale for cold or melting snow, is refreshed by snowfall as configured, and firn and ice keep their configured albedos. The outcome scales with the time step length as documented.",
     ["inputs", "configurations", "histories"], RUNS,
     "The parameterisations branch on temperature, density, snowfall and layer state; tests cover only single configurations without a reference.",
     [M + "modules/snow/snow.py", M + "modules/snow/multilayermodel.py", M + "modules/snow/cryolayermodel.py"],
     [("albedo, compaction", M + "modules/snow/snow.py")],
     "online reference monitor: independent evaluation of the documented parameterisation from the state before the step", ["state before/after every time step"])

prop("S04", "Water, heat and ageing state stay in their place within the snowpack",
     "Inside the snowpack every layer keeps its own state. Fresh snow and frost go to the top, melt and sublimation take from the top downwards, rain and melt water percolate downwards and stay in a layer only up to its holding capacity, refreezing uses up the layer's cold content and warms it by exactly the latent heat released, and heat is conducted between neighbouring layers. When layers are split, merged or handed on (new snow to old snow, firn and ice at the configured densities and at the first step of the configured month), ice, liquid water, heat or cold content stay at their depth and in sum unchanged, and density and albedo of merged layers are the mass-weighted means.",
     ["inputs", "configurations", "histories"], RUNS,
     "Which layer receives what depends on the whole history of the layering; totals that tests could compare stay right when water or heat ends up in the wrong layer.",
     [M + "modules/snow/multilayermodel.py", M + "modules/snow/cryolayermodel.py", M + "modules/snow/snow.py", M + "heatconduction.py"],
     [("_melt, _sublimation, _runoff, _update_layers", M + "modules/snow/multilayermodel.py"), ("layer_transition", M + "modules/snow/cryolayermodel.py")],
     "online reference monitor: independent replay of the whole snow column from the state before the step", ["state before/after every time step"])

prop("C01", "Canopy interception conserves mass and only modifies forest pixels",
     "In forest pixels every unit of precipitation above the canopy ends up on the ground, in the interception storage or as canopy sublimation, the storage never becomes negative or exceeds its capacity because of new snowfall, and missing forcing leaves it unchanged. Inside-canopy temperature, humidity, wind and radiation follow from the above-canopy values and the leaf area index of the day, and pixels outside forests are not changed at all by switching the canopy model on.",
     ["inputs", "configurations", "histories"], RUNS,
     "Interception depends on the history of snowfall, melt and unloading and on the season; tests run one configuration for a few steps.",
     [M + "modules/canopy/canopy.py", M + "landcover.py"],
     [("interception storage", M + "modules/canopy/canopy.py"), ("LAI course", M + "landcover.py")],
     "twin-run monitor (canopy on/off) with a conservation oracle and reference formulas", ["state before/after every time step of both twins"])

prop("E01", "The surface energy balance closes and determines melt",
     "At every snow-covered or bare pixel the net radiation, turbulent, advective and ground heat fluxes sum to zero or to the energy consumed by melt, and the reported surface temperature is the one for which they do, never above melting over snow. Melt, refreezing and cold content consume or release exactly the energy the balance provides for the length of the time step, melt only occurs at the melting point and is limited by the available mass. Turbulent exchange follows the documented stability dependence and radiation balance terms follow from albedo, surface temperature and incoming radiation.",
     ["inputs", "configurations", "histories"], RUNS,
     "The balance is solved iteratively with many regimes (cold, partial melt, complete melt-out, bare ground, stable/unstable); tests only check that results look plausible.",
     [M + "modules/snow/multilayermodel.py", M + "modules/snow/cryolayermodel.py", M + "surface.py", M + "tridiag.py"],
     [("multilayer energy balance", M + "modules/snow/multilayermodel.py"), ("cryo layer energy balance", M + "modules/snow/cryolayermodel.py")],
     "online reference monitor: independent solution of the balance for every pixel and step", ["fluxes, temperatures and melt after every time step"])

prop("H01", "Heat conduction in soil and snow conserves energy",
     "The temperature change of every soil and snow layer in a time step equals the implicit solution of the heat equation for the layer thicknesses, conductivities, heat capacities, the surface heat flux and the temperature below the column, so that no energy is lost between layers and no new temperature extremes arise. Thermal properties of the soil follow from its texture, moisture and freezing state, and conduction neither modifies its inputs nor depends on whether columns are solved singly or as a grid.",
     ["inputs", "configurations", "histories"], RUNS,
     "Numerical solvers fail for particular layer counts, step lengths or freezing states that no unit test samples.",
     [M + "heatconduction.py", M + "tridiag.py", M + "modules/soil/soil.py", M + "modules/snow/multilayermodel.py"],
     [("implicit heat conduction", M + "heatconduction.py"), ("soil thermal properties", M + "modules/soil/soil.py")],
     "online reference monitor: dense linear solution of the same columns, maximum-principle assertion", ["soil and snow temperatures before/after every step", "solver calls"])

prop("E02", "Temperature-index melt follows the degree-day formula",
     "With the temperature index methods the potential melt of a step is the degree-day factor times the excess of the air temperature over the threshold (plus the albedo- and radiation-dependent term in the enhanced method) scaled to the step length, zero at or below the threshold, and removes ice from the uppermost layers first, never more than is there. Melted ice becomes liquid water of its layer and thins it proportionally; missing forcing causes no melt.",
     ["inputs", "configurations", "histories"], RUNS,
     "Limiting by the available mass across several layers, thresholds and step lengths combine in ways tests do not sample.",
     [M + "modules/snow/snow.py", M + "modules/snow/cryolayermodel.py"],
     [("potential melt", M + "modules/snow/cryolayermodel.py"), ("layer melt", M + "modules/snow/cryolayermodel.py")],
     "online reference monitor on the melt phase of full runs", ["layers before/after the melt phase", "meteo fields"])

prop("I01", "Station interpolation reproduces trends and weights exactly",
     "Every interpolated meteorological field equals the elevation trend given by the configured method (regression over the stations with data, fixed monthly lapse rates, fractional or adjustment-factor precipitation gradients) plus inverse-distance-weighted station residuals, and stays within the allowed range of its variable. Only stations with a valid value at that step contribute, their order is irrelevant, a field without any data is missing (precipitation: zero), and terrain-dependent wind modification follows slope and curvature.",
     ["inputs", "configurations", "histories"], "every station network, data gap pattern, month and configuration, at every pixel and time step",
     "Degenerate networks (one station, equal elevation, gaps, month changes) multiply; tests use a few fixed networks.",
     [M + "interpolation.py", M + "meteo/interpolation.py", M + "model.py"],
     [("IDW and regression", M + "interpolation.py"), ("parameter interpolation", M + "meteo/interpolation.py")],
     "online reference monitor: independent detrend/IDW/retrend of the station data plus twin runs with permuted/absent stations", ["station data and interpolated fields of every step"])

prop("A01", "Derived atmospheric variables are mutually consistent",
     "Vapour pressure, saturation vapour pressure, humidity measures, wet-bulb and dew-point temperature, air density, latent heat, psychrometric constant, pressure and wind components of every pixel and step satisfy their defining equations for the temperature, humidity and elevation of that pixel: functions that are inverses of each other are, the wet-bulb temperature solves the psychrometer equation over water or ice and does not exceed the air temperature, and missing inputs give missing outputs without disturbing other pixels.",
     ["inputs", "configurations"], "every physically possible combination of temperature, humidity, elevation and wind",
     "The relations must hold over the whole range of ambient conditions, including around the freezing point and with missing values; tests compare a few table values.",
     [M + "meteo/atmosphere.py"], [("atmospheric functions", M + "meteo/atmosphere.py")],
     "monitor comparing every derived field of full runs, and the public functions under random conditions, with independent equations", ["meteo fields after every step"])

prop("P01", "Precipitation is split and corrected without losing water",
     "Rain and snow fall always sum to the precipitation of the pixel, their shares follow the configured threshold temperature range of air or wet-bulb temperature (or the precipitation-phase settings), and snow redistribution factors only scale snowfall. Gauge corrections (constant snow correction factor, WMO and Kochendorfer transfer functions) are applied in the configured order exactly to the stations and phases they are meant for, and leave data untouched if not configured.",
     ["inputs", "configurations", "histories"], RUNS,
     "Phase, gauge type, wind, gaps and chains of corrections combine into far more cases than tests sample.",
     [M + "meteo/precipcorr.py", M + "meteo/atmosphere.py", M + "model.py"],
     [("precipitation correction", M + "meteo/precipcorr.py"), ("precipitation phase", M + "meteo/atmosphere.py")],
     "online reference monitor on station data and precipitation fields", ["corrected station series", "precipitation fields of every step"])

prop("R01", "Radiation follows sun position, terrain, cloudiness and longwave balance",
     "Incoming shortwave radiation is zero when the sun is below the horizon, terrain shadows are exactly those of the sun position and the (extended) terrain, clear-sky direct and diffuse radiation follow the documented transmission model, and the actual radiation is clear-sky radiation times the cloud factor. The cloud factor is derived by the configured method, with its fallbacks and clear-night carry-over, from stations with data only, and incoming longwave radiation follows from temperature, humidity, cloudiness, sky view and the surrounding surface.",
     ["inputs", "configurations", "histories"], "every location, date, time zone, terrain, station network and cloudiness configuration, at every pixel and time step",
     "Sun geometry, shadow casting and cloudiness fallbacks depend on time, place and the history of data gaps.",
     [M + "modules/radiation/irradiance.py", M + "modules/radiation/sunparams.py", M + "modules/radiation/shadows.py", M + "modules/radiation/clearsky.py", M + "modules/radiation/__init__.py", M + "model.py"],
     [("radiation module", M + "modules/radiation/irradiance.py")],
     "online reference monitor: independent sun position, scan-line shadows, clear-sky model, cloudiness state machine and longwave formula", ["radiation and cloudiness fields of every step"])

prop("T01", "Terrain parameters match the terrain",
     "Slope, aspect, surface normals, sky view factor, openness and scaled curvature of every pixel equal their definitions evaluated on the elevation model for its resolution and orientation, whatever the grid size, nodata pattern, thread count or rotation of the terrain. A plane yields its exact inclination and direction, flat terrain sees the whole sky, degenerate grids give defined values, terrain functions do not modify the elevation model, and stored sky view factors equal calculated ones.",
     ["inputs", "schedules", "configurations"], "every elevation model, resolution, parameter set and number of threads",
     "Edge pixels, degenerate sizes and parallel scheduling cannot be covered by the few fixed grids of the tests.",
     [M + "terrain.py", M + "model.py", M + "modules/radiation/shadows.py"],
     [("terrain functions", M + "terrain.py"), ("parallel kernels", M + "terrain.py")],
     "differential monitor: per-pixel reference evaluation, metamorphic rotation, several thread counts", ["returned fields", "model terrain fields after initialisation"])

prop("O01", "Gridded outputs reproduce the state history",
     "Every value in a gridded output (memory, netCDF, GeoTIFF, ASCII; full grid or region-of-interest pixels) equals the instantaneous, summed or averaged state variable at its date or interval, for exactly the configured dates or frequencies, within the run, exactly once. Coordinates, interval bounds, attributes, file names and georeferences match the data, files already written remain valid while the run continues, results of earlier runs do not leak in, and impossible output configurations are rejected.",
     ["inputs", "configurations", "histories"], "every output configuration, time step, start date and run length",
     "Frequencies, aggregation, formats, layouts and run periods combine in ways that the tests sample only sparsely.",
     [M + "fileio/griddedoutput.py", M + "fileio/raster.py", M + "util.py"],
     [("gridded output manager", M + "fileio/griddedoutput.py")],
     "offline checker comparing written outputs with the recorded state history of the same run", ["state after every step", "output files during and after the run"])

prop("O02", "Point outputs contain every time step exactly once",
     "The point time series (CSV, netCDF or in memory) contain, for every requested point and variable (all layers included), exactly one row per model time step holding the value of the state variable at the pixel containing the point, whatever the write frequency and run length. Station points are added only if they lie in the region of interest, coordinates and attributes belong to the point, data due at a write date is on disk, earlier result files are replaced, and duplicate names or points outside the grid are rejected.",
     ["inputs", "configurations", "histories"], "every output configuration, time step, start date and run length",
     "Chunked writing depends on how write dates fall on the run period; the tests sample few combinations.",
     [M + "fileio/pointoutput.py"], [("point output manager", M + "fileio/pointoutput.py")],
     "offline checker comparing written time series with the recorded state history of the same run", ["state after every step", "output files during and after the run"])

prop("G01", "Glacier geometry updates redistribute ice without changing its mass",
     "Once per completed mass balance year, and only then, the annual balance of every glacier is redistributed over its pixels with sufficient ice: losses follow the elevation-dependent thickness change curve of its size class, limited to the balance observed at the terminus with the surplus moved upwards, gains are spread equally. The total firn and ice mass of the redistributed pixels of each glacier stays the same (as long as no pixel runs out of ice), ice never becomes negative, pixels of other glaciers, thin ice and unglacierised pixels keep theirs, and depth, density and water equivalent stay consistent.",
     ["inputs", "configurations", "histories"], "every glacier outline, ice distribution, mass balance history, start month and run period",
     "The update happens once per simulated year and depends on the whole balance history; the repository has no test for it.",
     [M + "modules/glacier/glaciermodel.py", M + "modules/snow/cryolayermodel.py"],
     [("delta-h update", M + "modules/glacier/glaciermodel.py")],
     "twin-run monitor (glacier model on/off from the same state in every step) with an independent delta-h evaluation and mass conservation oracle", ["state after every step of both twins"])

prop("W01", "Evapotranspiration closes the soil water balance",
     "Evaporation and transpiration of every pixel follow from the reference evapotranspiration of the step, the crop coefficient of its land cover class on that day of the growing season, soil water stress and the dryness of the surface soil; they vanish under snow (except for water bodies) and with missing forcing. The depletions of the surface soil layer and root zone change by exactly rain minus evapotranspiration minus percolation, stay between zero and the water the soil texture and rooting depth can hold, and sealed surfaces evaporate only intercepted rain, the rest running off.",
     ["inputs", "configurations", "histories"], RUNS,
     "Storage histories, growth stages, soil and land cover classes and data gaps combine; tests check signs and NaN propagation only.",
     [M + "modules/evapotranspiration/evapotranspiration.py", M + "landcover.py"],
     [("ET model", M + "modules/evapotranspiration/evapotranspiration.py"), ("growth stages", M + "landcover.py")],
     "online reference monitor: independent FAO-56 evaluation from the state before every step plus balance oracle", ["evapotranspiration state before/after every step"])

prop("M01", "Station records are read and resampled faithfully",
     "The forcing used by a run contains, for every selected station and model time step, exactly the value its records (CSV, netCDF, in memory, or supplied by a callback) imply: instantaneous, or aggregated over the time step (means, precipitation sums, maximum gusts, vector mean wind directions), after unit conversion, range filters and the include, exclude and bounds rules. Records outside the period have no influence, gaps stay gaps, all formats give the same run, and unusable input (no stations, missing data or coordinates, wrong frequencies) is rejected.",
     ["inputs", "configurations", "histories"], "every station set, record period and frequency, time step, filter and selection rule",
     "Record frequencies, gaps, period boundaries and selection rules combine without limit; tests cover few of them.",
     [M + "fileio/meteo.py", M + "forcing.py", M + "model.py"],
     [("meteo readers", M + "fileio/meteo.py"), ("point datasets", M + "forcing.py")],
     "offline checker comparing the forcing held by the model with an independent evaluation of the raw records; differential runs across formats", ["forcing dataset after initialisation", "meteorological fields of every step"])

prop("K01", "Configuration: user settings are honoured, everything else has its default",
     "Parsing a configuration (dict or YAML) yields exactly the values the user set, documented defaults for everything else, and converted deprecated names and units; it never modifies its input, is idempotent and independent of earlier parses or runs. Land cover classes override only what they specify, and an end date without hour includes the whole last day. Unknown options, wrong types, values outside documented choices or ranges, inconsistent dates, time steps, write frequencies, coordinate systems and method combinations are rejected with a configuration error.",
     ["inputs", "configurations"], "every configuration",
     "The option space is combinatorial; tests check a handful of options and error messages.",
     [M + "conf.py", M + "data/configschema.yml", M + "data/land_cover_class_params.yml", M + "util.py"],
     [("configuration parser", M + "conf.py"), ("schema", M + "data/configschema.yml")],
     "differential monitor: parser results compared with an independent evaluation of a pinned copy of the documented schema, on random valid and invalid configurations", ["parsed configurations", "accept/reject decisions"])

prop("L01", "Every time step is processed exactly once, in order and causally",
     "A run processes the time steps from the start to the end date (both included), each exactly once and in order, whether driven by run() or by repeated run_single() calls, which give identical states and outputs. The state after a step depends only on forcing up to that step and not on the end date, and its interpolated meteorology not on the start date. The step properties (first or last of run, day, month, year; strict or not) match the calendar for every time step length. Calls beyond the end or in a wrong order raise an error without changing anything, callbacks are called once per step, and their exceptions propagate.",
     ["inputs", "configurations", "histories"], "every period, time step length, driver and forcing",
     "Calendar boundaries, run drivers and forcing futures are unbounded; tests sample a few hourly periods.",
     [M + "model.py", M + "util.py"],
     [("time loop", M + "model.py"), ("timestep_props", M + "model.py")],
     "online trace checker over the step log plus differential runs (driver, truncated period, altered future)", ["date, index, properties, callback calls and thread count of every step"])

prop("D01", "Runs are deterministic, race-free and isolated from each other",
     "The results of a run are a function of its inputs: identical for repeated runs (also with stored intermediate files), any number of threads and order of parallel iterations, other processes, time zones and hash seeds, other models running interleaved, and after pickling a model; compiled and interpreted execution agree, station order does not matter, and the command line entry point with a YAML file produces the same output files (and a nonzero exit status if the configuration or input is unusable). Parallel loops are free of data races and stay within array bounds. A run writes only to its results directory (and the sky view factor file), and leaves the passed configuration and forcing and process-wide state untouched.",
     ["schedules", "inputs", "histories"], "every schedule of the parallel loops, interleaving of models, process environment and configuration",
     "Races and leaks between runs depend on schedules and on what else happens in the process; no test varies them.",
     [M + "model.py", M + "modules/snow/multilayermodel.py", M + "modules/snow/snow.py", M + "modules/soil/soil.py", M + "modules/radiation/shadows.py", M + "interpolation.py", M + "heatconduction.py"],
     [("parallel kernels", M + "modules/snow/multilayermodel.py"), ("thread settings", M + "model.py"), ("logging", M + "model.py")],
     "race detector for the numba kernels (per-iteration access logs of traced arrays, permuted iteration orders), bounds-check sanitizer runs, thread stress and differential executions", ["array accesses of every parallel iteration", "final states of all variants", "process-wide state and files"])

prop("X01", "Data gaps never corrupt stored state",
     "Missing forcing (single variables or stations, whole steps, the first steps, long outages) never changes what is stored: snow, soil, canopy, glacier and soil water storages keep their values while they cannot be updated, never become NaN, and once complete data is back the run continues from them within two steps. A station that has no data at all influences nothing. With reset_state_variables exactly the state variables not declared as retained are set to their no-data value at the start of every step, without any effect on the results, and every registered state variable exists with its declared type and dimensions.",
     ["inputs", "configurations", "histories"], "every gap pattern in every forcing variable, configuration and snow model",
     "Gap patterns are combinatorial and their damage only shows steps later; tests use complete records.",
     [M + "model.py", M + "statevars.py", M + "modules/snow/multilayermodel.py", M + "modules/snow/cryolayermodel.py", M + "modules/canopy/canopy.py", M + "modules/evapotranspiration/evapotranspiration.py", M + "surface.py"],
     [("state reset", M + "statevars.py"), ("NaN guards", M + "modules/snow/multilayermodel.py")],
     "fault injection (forcing gaps) with an online monitor of the stored state and differential runs", ["storages and fields before/after every step", "state variable registry"])

prop("N01", "Spatial inputs are used in place; only the region of interest is simulated",
     "Elevation, region of interest, sky view factor, land cover, soil, snow redistribution and glacier rasters are used pixel by pixel as stored (first row northernmost), with exact pixel coordinates; nodata pixels of the elevation or region of interest are not simulated. Rasters of another size, position or resolution and unsuitable extended grids are rejected; a suitable extended grid supplies the surrounding terrain at the right offset. Stations are located in the pixel containing them, those outside the grid never join the region of interest. Pixels outside the region of interest are not simulated, static fields and input files never change, and meteorology and snow of a pixel do not depend on which other pixels are simulated, apart from documented radiative coupling.",
     ["inputs", "configurations"], "every grid, raster set, station layout and region of interest",
     "Grid shapes, offsets, nodata patterns and regions are unbounded; tests use one example grid.",
     [M + "model.py", M + "util.py", M + "fileio/raster.py", M + "forcing.py"],
     [("input data reader", M + "model.py"), ("raster reader", M + "fileio/raster.py"), ("coordinates", M + "forcing.py")],
     "offline checker of model rasters, masks and coordinates against the written files, fault injection with unusable rasters, confinement monitor, differential runs with different regions of interest", ["rasters, masks and coordinates after initialisation", "all state variables inside and outside the region of interest"])

prop("B01", "Options and modules act where documented and nowhere else",
     "A configuration option or module that is selected changes the run, and only the quantities downstream of it: snow, soil, radiation and surface options leave the interpolated meteorology untouched, interpolation options of one variable leave the independent variables untouched, evapotranspiration never feeds back on snow or meteorology, precipitation phase options never change total precipitation, canopy options never change above-canopy meteorology. Options of modules and methods that are not selected, output, logging and live view settings, and land cover classes that do not occur change no state variable at all.",
     ["configurations", "inputs"], "every combination of snow model, melt method, modules and methods with every documented option",
     "The interactions of some hundred options are combinatorial; tests set one option and look at its own effect only.",
     [M + "model.py", M + "conf.py", M + "data/configschema.yml", M + "surface.py", M + "modules/snow/multilayermodel.py", M + "modules/snow/cryolayermodel.py", M + "modules/canopy/canopy.py", M + "modules/evapotranspiration/evapotranspiration.py", M + "modules/radiation/irradiance.py", M + "meteo/interpolation.py"],
     [("module interface", M + "model.py"), ("option defaults", M + "data/configschema.yml")],
     "differential runs that differ in one option, monitored step by step for the variables that change", ["all state variables after every step of both runs"])
