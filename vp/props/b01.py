"""B01: configuration options and modules act where they are documented to act, and nowhere else (twin runs)."""
import copy
import warnings

import numpy as np

from vp import trace
from vp.scenario import Scenario, deep_update

RULE = ("twin runs from the same inputs that differ in exactly one configuration option; one evaluation = one state variable of one step compared; an option whose module or method is "
        "not selected must leave every state variable bit-identical, an option that is selected must change the run, and only variables downstream of it; "
        "distinct = (base configuration, option)")
MET0 = ["meteo." + v for v in ("temp", "rel_hum", "wind_speed", "atmos_press", "sat_vap_press", "vap_press", "spec_hum", "abs_hum", "spec_heat_cap_moist_air", "lat_heat_vap", "psych_const",
                               "wet_bulb_temp", "dew_point_temp", "dry_air_density", "precipitable_water")]
TOP = ["meteo.top_canopy_temp", "meteo.top_canopy_rel_hum", "meteo.top_canopy_wind_speed"]
PREC = ["meteo.precip", "meteo.snowfall", "meteo.rainfall"]

BASES = {
    "ml": {"snow": {"model": "multilayer"}},
    "eb": {"snow": {"model": "cryolayers", "melt": {"method": "energy_balance"}}},
    "ti": {"snow": {"model": "cryolayers", "melt": {"method": "temperature_index", "degree_day_factor": 4.0}}},
    "eti": {"snow": {"model": "cryolayers", "melt": {"method": "enhanced_temperature_index", "degree_day_factor": 2.0, "albedo_factor": 0.3}}},
}
# features a base run may have in addition
FEATURES = {
    "canopy": {"canopy": {"enabled": True}},
    "et": {"evapotranspiration": {"enabled": True}},
    "glaciers": {"glaciers": {"enabled": True, "delta_h": {"mass_balance_year_start_month": 4}}},
    "stability": {"meteo": {"stability_correction": True}},
    "srf": {"meteo": {"precipitation_correction": [{"method": "srf"}]}},
    "empirical": {"snow": {"compaction": {"method": "empirical"}}},
    "liston": {"meteo": {"interpolation": {"wind": {"method": "liston"}}}},
    "fixed": {"meteo": {"interpolation": {"temperature": {"trend_method": "fixed"}, "humidity": {"trend_method": "fixed"}}}},
    "fractional": {"meteo": {"interpolation": {"precipitation": {"trend_method": "fractional"}}}},
    "cloudhum": {"meteo": {"interpolation": {"cloudiness": {"method": "humidity"}}}},
    "cloudconst": {"meteo": {"interpolation": {"cloudiness": {"clear_sky_fraction_night_method": "constant", "allow_fallback": False}}}},
    "adjheight": {"snow": {"measurement_height_adjustment": True}},
    "twoalbedos": {"snow": {"cryolayers": {"use_single_snow_albedo": False}}},
    "continuous": {"snow": {"albedo": {"refresh_method": "continuous"}}},
}


def C(*f):
    """The base has (or, with '-', does not have) all of these features."""
    return lambda b: all((x[1:] not in b) if x[0] == "-" else (x in b) for x in f)


ANY = lambda *cs: (lambda b: any(c(b) for c in cs))
NOT = lambda c: (lambda b: not c(b))
ALWAYS = lambda b: True
NEVER = lambda b: False
EB = ANY(C("ml"), C("eb"))
CRYO = NOT(C("ml"))
TIX = ANY(C("ti"), C("eti"))
AND = lambda *cs: (lambda b: all(c(b) for c in cs))

# (option, value, acts if, certainly without effect if, category or variables that certainly stay the same if it acts)
O = [
    ("snow.melt.degree_day_factor", 6.0, TIX, EB, "met"),
    ("snow.melt.albedo_factor", 0.9, C("eti"), ANY(EB, C("ti")), "met"),
    ("snow.melt.threshold_temp", 275.0, TIX, EB, "met"),
    ("snow.min_thickness", [0.05, 0.1], C("ml"), CRYO, "met"),
    ("snow.thermal_conductivity", 0.6, C("ml"), CRYO, "met"),
    ("snow.roughness_length", 0.05, EB, NEVER, "met"),
    ("snow.measurement_height_adjustment", True, AND(EB, C("-adjheight")), NEVER, "met"),
    ("snow.snow_cover_fraction_depth_scale", 0.3, EB, NEVER, "met"),
    ("snow.liquid_water_content.max", 0.1, ALWAYS, NEVER, "met"),
    ("snow.liquid_water_content.method", "mass_fraction", ALWAYS, NEVER, "met"),
    ("snow.compaction.timescale", 20, AND(C("ml"), C("empirical")), C("-empirical"), "met"),
    ("snow.compaction.max_cold_density", 150.0, AND(C("ml"), C("empirical")), C("-empirical"), "met"),
    ("snow.compaction.max_melting_density", 350.0, AND(C("ml"), C("empirical")), C("-empirical"), "met"),
    ("snow.albedo.min", 0.7, NEVER, NEVER, "met"),
    ("snow.albedo.max", 0.95, ALWAYS, NEVER, "met"),
    ("snow.albedo.cold_snow_decay_timescale", 30, NEVER, NEVER, "met"),
    ("snow.albedo.melting_snow_decay_timescale", 20, ALWAYS, NEVER, "met"),
    ("snow.albedo.decay_timescale_determination_temperature", "air", NEVER, NEVER, "met"),
    ("snow.albedo.refresh_snowfall", 3.0, ALWAYS, NEVER, "met"),
    ("snow.albedo.refresh_method", "continuous", C("-continuous"), NEVER, "met"),
    ("snow.albedo.firn", 0.3, NEVER, C("ml"), "met"),
    ("snow.albedo.ice", 0.3, NEVER, C("ml"), "met"),
    ("snow.cryolayers.transition.old_snow", 110.0, CRYO, C("ml"), "met"),
    ("snow.cryolayers.transition.firn", 4, CRYO, C("ml"), "met"),
    ("snow.cryolayers.transition.ice", 600.0, NEVER, C("ml"), "met"),
    ("snow.cryolayers.surface_temperature_iteration_method", "legacy", C("eb"), C("ml"), "met"),
    ("snow.cryolayers.use_single_snow_albedo", False, AND(CRYO, C("-twoalbedos")), C("ml"), "met"),
    ("snow.cryolayers.cold_holding_capacity", 0.01, C("eb"), C("ml"), "met"),
    ("snow.cryolayers.refreezing_factor", 0.4, C("eb"), C("ml"), "met"),
    ("snow.cryolayers.surface_heat_flux", -10.0, C("eb"), C("ml"), "met"),
    ("soil.thickness", [0.05, 0.2, 0.5], C("ml"), NEVER, "met"),
    ("soil.sand_fraction", 0.2, C("ml"), CRYO, "met"),
    ("soil.clay_fraction", 0.1, C("ml"), CRYO, "met"),
    ("soil.init_moisture_content", 0.9, C("ml"), CRYO, "met"),
    ("soil.init_temp", 275.0, C("ml"), NEVER, "met"),
    ("soil.saturated_soil_surface_conductance", 0.05, C("ml"), NEVER, "met"),
    ("soil.roughness_length", 0.4, EB, NEVER, "met"),
    ("soil.albedo", 0.35, ALWAYS, NEVER, "met"),
    *[(f"canopy.{k}", v, C("canopy"), C("-canopy"), "top") for k, v in dict(
        extinction_coefficient=0.4, temperature_scaling_coefficient=0.5, canopy_flow_index_coefficient=0.5, spherical_ice_particle_radius=300e-6, kinematic_air_viscosity=2e-5,
        max_interception_storage_coefficient=2.0, exposure_coefficient_coefficient=0.03, degree_day_factor=2.0).items()],
    ("canopy.enabled", True, C("-canopy"), NEVER, "topmet"),
    *[(f"evapotranspiration.{k}", v, C("et"), C("-et"), "noet") for k, v in dict(
        min_crop_coefficient=0.1, grass_albedo=0.1, grass_emissivity=0.9, sealed_albedo=0.2, sealed_emissivity=0.8, mean_wind_speed=4.0, mean_min_humidity=70.0,
        surface_soil_layer_evaporation_depth=0.07).items()],
    ("evapotranspiration.enabled", True, NEVER, NEVER, "noet"),
    ("glaciers.enabled", True, NEVER, NEVER, "met"),
    ("glaciers.delta_h.mass_balance_year_start_month", 10, NEVER, C("-glaciers"), "met"),
    ("meteo.stability_correction", True, AND(C("-stability"), EB), NEVER, "met"),
    ("meteo.stability_adjustment_parameter", 9.0, AND(C("stability"), EB), C("-stability"), "met"),
    ("meteo.measurement_height.temperature", 4.0, EB, NEVER, "met"),
    ("meteo.measurement_height.wind", 5.0, EB, NEVER, "met"),
    ("meteo.precipitation_phase.method", "temp", NEVER, NEVER, "met0p"),
    ("meteo.precipitation_phase.threshold_temp", 275.0, ALWAYS, NEVER, "met0p"),
    ("meteo.precipitation_phase.temp_range", 6.0, ALWAYS, NEVER, "met0p"),
    ("meteo.precipitation_phase.enforce_no_snow_below_rain", True, NEVER, NEVER, "met0p"),
    ("meteo.precipitation_correction", [{"method": "constant_scf", "scf": 1.5}], ALWAYS, NEVER, "met0"),
    ("meteo.radiation.snow_emissivity", 0.95, EB, NEVER, "met"),
    *[(f"meteo.radiation.{k}", v, ALWAYS, NEVER, "met") for k, v in dict(
        cloud_emissivity=0.9, rock_emission_factor=0.05, ozone_layer_thickness=0.005, atmospheric_visibility=60000.0, single_scattering_albedo=0.7,
        clear_sky_albedo=0.15).items()],
    ("meteo.interpolation.temperature.trend_method", "fixed", C("-fixed"), NEVER, "wp"),
    ("meteo.interpolation.temperature.lapse_rate", [-0.009] * 12, C("fixed"), C("-fixed", "cloudconst"), "wp"),
    ("meteo.interpolation.temperature.extrapolate", False, ALWAYS, NEVER, "wp"),
    ("meteo.interpolation.temperature.regression_params.min_points_per_segment", 2, NEVER, ALWAYS, "met"),
    ("meteo.interpolation.temperature.regression_params.delta_aic_threshold", 1.0, NEVER, ALWAYS, "met"),
    ("meteo.interpolation.humidity.trend_method", "fixed", C("-fixed"), NEVER, "twp"),
    ("meteo.interpolation.humidity.lapse_rate", [-0.001] * 12, C("fixed"), C("-fixed", "cloudconst"), "twp"),
    ("meteo.interpolation.humidity.extrapolate", False, NEVER, NEVER, "twp"),
    ("meteo.interpolation.humidity.regression_params.min_points_per_segment", 2, NEVER, ALWAYS, "met"),
    ("meteo.interpolation.precipitation.trend_method", "fractional", C("-fractional"), NEVER, "met0"),
    ("meteo.interpolation.precipitation.lapse_rate", [0.001] * 12, C("fractional"), C("-fractional"), "met0"),
    ("meteo.interpolation.precipitation.extrapolate", False, ALWAYS, NEVER, "met0"),
    ("meteo.interpolation.wind.method", "liston", C("-liston"), NEVER, "tp"),
    ("meteo.interpolation.wind.trend_method", "fixed", NEVER, NEVER, "tp"),
    ("meteo.interpolation.wind.lapse_rate", [0.001] * 12, NEVER, C("-windfixed"), "tp"),
    ("meteo.interpolation.wind.extrapolate", True, NEVER, NEVER, "tp"),
    ("meteo.interpolation.wind.curvature_length_scale", 200.0, C("liston"), C("-liston"), "tp"),
    ("meteo.interpolation.wind.slope_weight", 0.2, C("liston"), C("-liston"), "tp"),
    ("meteo.interpolation.wind.curvature_weight", 0.9, C("liston"), C("-liston"), "tp"),
    ("meteo.interpolation.cloudiness.method", "humidity", C("-cloudhum"), NEVER, "met"),
    ("meteo.interpolation.cloudiness.clear_sky_fraction_night_method", "constant", NEVER, NEVER, "met"),
    ("meteo.interpolation.cloudiness.pressure_level", 800.0, C("cloudhum"), C("cloudconst"), "met"),
    ("meteo.interpolation.cloudiness.saturation_cloud_fraction", 0.6, C("cloudhum"), C("cloudconst"), "met"),
    ("meteo.interpolation.cloudiness.e_folding_humidity", 30.0, C("cloudhum"), C("cloudconst"), "met"),
    # everything around the model proper
    ("log_level", "WARNING", NEVER, ALWAYS, ""),
    ("enable_default_logging", False, NEVER, ALWAYS, ""),
    ("liveview.cols", 2, NEVER, ALWAYS, ""),
    ("liveview.downsample", 3, NEVER, ALWAYS, ""),
    ("liveview.variables", [{"var": "meteo.temp", "min": 260, "max": 290}], NEVER, ALWAYS, ""),
    ("output_data.grids.variables", [{"var": "snow.swe", "freq": "D", "agg": "mean"}, {"var": "meteo.precip", "freq": "D", "agg": "sum"}, {"var": "snow.temp" , "freq": "3h"}], NEVER, ALWAYS, ""),
    ("output_data.grids.layout", "roi_pixel", NEVER, ALWAYS, ""),
    ("output_data.timeseries.add_default_points", True, NEVER, ALWAYS, ""),
    ("output_data.timeseries.add_default_variables", True, NEVER, ALWAYS, ""),
    ("output_data.timeseries.write_freq", "D", NEVER, ALWAYS, ""),
    ("input_data.meteo.bounds", "global", NEVER, ALWAYS, ""),
    ("land_cover.classes.99", {"leaf_area_index": {"min": 1.0, "max": 5.0}, "is_forest": True}, NEVER, ALWAYS, ""),
]


def nested(path, v):
    for k in reversed(path.split(".")):
        v = {(int(k) if k.isdigit() else k): v}
    return v


def same(group, base):
    """Variables that must be identical although the option acts."""
    canopy = "canopy" in base
    met = TOP if canopy else MET0
    if group == "noet":
        return None
    if group == "top":
        return TOP
    if group == "topmet":
        return ["meteo.atmos_press"]
    if group == "met":
        return met + ([] if canopy else PREC)
    if group == "met0":
        return met
    if group == "met0p":
        return met + ([] if canopy or "srf" in base else ["meteo.precip"])
    pre = [] if canopy else (["meteo.precip"] if "srf" not in base else [])
    t = ["meteo.top_canopy_temp"] if canopy else ["meteo.temp"]
    w = ["meteo.top_canopy_wind_speed"] if canopy else ["meteo.wind_speed"]
    if group == "wp":
        return w + pre
    if group == "twp":
        return t + w + pre
    if group == "tp":
        return t + (["meteo.top_canopy_rel_hum"] if canopy else ["meteo.rel_hum", "meteo.wet_bulb_temp"]) + pre + ([] if canopy else PREC)
    return []


def make(rng, base, i=0):
    s = dict(seed=int(rng.integers(1, 2**31)), start="2020-03-29", end="2020-04-03 21:00", timestep="3h", rows=6, cols=7, res=50, dem="rough", roi_frac=0.8, num_stations=5,
             regime=["alpine", "swing"][i % 2], land_cover=[1, 2, 4, 5, 6, 7, 8], soil=[1, 2, 5, 8], srf=True, glaciers=0.4, missing=float(rng.choice([0.0, 0.06])), config=copy.deepcopy(BASES[base[0]]))
    for f in base[1:]:
        deep_update(s["config"], FEATURES[f])
    return s


def bases(rng, n):
    """Base configurations in which every option that can act does so somewhere."""
    for _ in range(200):
        out = []
        for i in range(n):
            core = ["ml", "eb", "ti", "eti"][i % 4]
            f = [x for x in FEATURES if rng.random() < 0.35]
            f = [x for x in f if not (core == "ml" and x in ("glaciers", "twoalbedos")) and not (core != "ml" and x == "empirical") and not (x == "cloudconst" and "cloudhum" in f)]
            out.append([core] + f)
        if all((acts is NEVER or any(acts(b) for b in out)) and (inert is NEVER or any(inert(b) for b in out)) for _, _, acts, inert, _ in O):
            return out
    raise RuntimeError("no set of base configurations found")


def jobs(tier, seed):
    rng = np.random.default_rng([seed, 23])
    n = 16
    out = []
    for _ in range(1 if tier == "quick" else 6):
        bs = bases(rng, n)
        todo = {i: set() for i in range(n)}
        for o, (path, v, acts, inert, grp) in enumerate(O):
            for cond, k in ((acts, 1), (inert, 1), (lambda b: not acts(b) and not inert(b), 1)):
                c = [i for i in range(n) if cond(bs[i])]
                for i in rng.permutation(c)[: k if tier == "quick" else 3]:
                    todo[int(i)].add(o)
        for i in range(n):
            ls = sorted(todo[i])
            for a in range(0, len(ls), 9):
                out.append({"base": bs[i], "seed": int(rng.integers(1, 2**31)), "options": ls[a:a + 9]})
    return out


def prepare(m, base):
    """Start from bare firn and ice on the glaciers and from a little old snow elsewhere."""
    s, cfg = m.state.snow, m.config.snow
    if base[0] == "ml":
        return
    old = m.grid.roi.copy()
    old[:, ::2] = False
    put = [(1, old, 0.3, 250.0, 0.7)]
    if "glaciers" in base:
        g = m.state.glaciers.glacier > 0 if "glaciers" in m.state.categories else m.grid.roi
        g = g & m.grid.roi
        f = g.copy()
        f[1::2] = False
        put += [(3, g, 20.0, 900.0, cfg.albedo.ice), (2, f, 0.4, 600.0, cfg.albedo.firn)]
    for k, pos, th, dens, alb in put:
        s.thickness[k][pos], s.density[k][pos], s.ice_content[k][pos], s.layer_albedo[k][pos] = th, dens, th * dens, alb
    roi = m.grid.roi
    s.swe[roi] = s.ice_content[:, roi].sum(axis=0)
    s.depth[roi] = s.thickness[:, roi].sum(axis=0)


def trajectory(sc, base, over):
    cfg = copy.deepcopy(sc.config)
    import openamundsen as oa

    deep_update(cfg, over)
    m = oa.OpenAmundsen(cfg)
    m.initialize(meteo=sc.dataset())
    prepare(m, base)
    out = []
    for _ in m.dates:
        m.run_single()
        out.append(trace.snapshot(m))
    return out


def changed(ctx, a, b, skip=()):
    """First step and names of the variables in which two runs differ."""
    out = {}
    for q, (x, y) in enumerate(zip(a, b)):
        for k in x:
            if k not in y or k in out or k.startswith(skip):
                continue
            ctx.ok(1)
            if x[k].shape != y[k].shape or not np.array_equal(x[k], y[k], equal_nan=x[k].dtype.kind == "f"):
                out[k] = q
    return out


def run(job, ctx):
    warnings.filterwarnings("ignore")
    rng = np.random.default_rng(job["seed"])
    base = job["base"]
    left = list(job["options"])
    for attempt in range(3):  # an option has to show its effect in one of three scenarios
        sc = Scenario(ctx.workdir / str(attempt), make(rng, base, attempt))
        ref = trajectory(sc, base, {})
        again = []
        for o in left:
            path, v, acts, inert, grp = O[o]
            if path == "glaciers.enabled" and (base[0] == "ml" or "glaciers" in base):
                continue
            other = trajectory(sc, base, nested(path, v))
            ctx.state(tuple(base), path)
            d = changed(ctx, ref, other, ("soil.",) if path.startswith("soil.") and base[0] != "ml" else ())
            if inert(base):
                ctx.event("inert"); ctx.event("inert:" + path)
                if d:
                    k = min(d, key=d.get)
                    ctx.violation("inert:" + path, f"{path} changes the results ({', '.join(sorted(d)[:5])} from step {d[k]}) although it is not used by the selected methods ({', '.join(base)})")
                continue
            keep = same(grp, base)
            bad = [k for k in d if (k in keep if keep is not None else not k.startswith(("evapotranspiration.", "land_cover.plant_height", "land_cover.lai")))]
            ctx.event("scope")
            if bad:
                ctx.violation("scope:" + path, f"{path} changes {', '.join(sorted(bad)[:5])} (step {min(d[k] for k in bad)}), which it has nothing to do with ({', '.join(base)})")
            if acts(base):
                if d:
                    ctx.event("acts"); ctx.event("acts:" + path)
                elif attempt < 2:
                    again.append(o)
                else:
                    ctx.violation("ignored:" + path, f"{path} = {v!r} has no effect ({', '.join(base)})")
        left = again
        if not left:
            break


REQUIRED = {"inert": 60, "acts": 60, "scope": 80}
