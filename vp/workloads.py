"""Workload library: specs of synthetic full model runs, diverse by construction and by seed."""
import numpy as np

FOREST = [5, 6, 7]


def pick(rng, *opts):
    return opts[int(rng.integers(0, len(opts)))]


def rand_config(rng, snow=None, melt=None):
    """A random but valid model configuration (physics options only)."""
    snow = snow or pick(rng, "multilayer", "cryolayers")
    cfg = {"snow": {"model": snow}}
    sc = cfg["snow"]
    if snow == "cryolayers":
        melt = melt or pick(rng, "energy_balance", "energy_balance", "temperature_index", "enhanced_temperature_index")
        sc["melt"] = {"method": melt}
        if melt != "energy_balance":
            sc["melt"]["degree_day_factor"] = float(np.round(rng.uniform(2, 12), 2))
            sc["melt"]["threshold_temp"] = pick(rng, 273.15, 274.15, 272.65)
        if melt == "enhanced_temperature_index":
            sc["melt"]["albedo_factor"] = float(np.round(rng.uniform(0.05, 0.4), 3))
        sc["cryolayers"] = {
            "use_single_snow_albedo": pick(rng, True, False),
            "surface_temperature_iteration_method": pick(rng, "secant", "secant", "legacy"),
            "cold_holding_capacity": pick(rng, 0.05, 0.0, 0.2),
            "refreezing_factor": pick(rng, 1.0, 0.5),
            "surface_heat_flux": pick(rng, -2, 2, 0),
            "transition": {"old_snow": pick(rng, 200.0, 150.0, 120.0), "firn": pick(rng, 10, 4, 1, 2),
                           "ice": pick(rng, 900.0, 900.0, 700.0)},
        }
    else:
        sc["compaction"] = {"method": pick(rng, "anderson", "empirical"), "timescale": pick(rng, 200, 50),
                            "max_cold_density": pick(rng, 300, 250), "max_melting_density": pick(rng, 500, 450)}
        sc["min_thickness"] = pick(rng, [0.1, 0.2, 0.4], [0.05, 0.1], [0.3], [0.05, 0.1, 0.2, 0.4, 0.5], [0.2, 0.2, 0.2])
        cfg["soil"] = {"thickness": pick(rng, [0.1, 0.2, 0.4, 0.8], [0.1, 0.3], [0.2, 0.2, 0.2, 0.2, 0.2]),
                       "init_temp": pick(rng, 285, 270, 273.15), "sand_fraction": pick(rng, 0.6, 0.3),
                       "clay_fraction": pick(rng, 0.3, 0.2), "init_moisture_content": pick(rng, 0.5, 0.9, 0.1)}
    sc["liquid_water_content"] = {"method": pick(rng, "pore_volume_fraction", "mass_fraction"), "max": pick(rng, 0.03, 0.1, 0.01)}
    sc["albedo"] = {"refresh_method": pick(rng, "binary", "continuous"),
                    "decay_timescale_determination_temperature": pick(rng, "surface", "air"),
                    "min": pick(rng, 0.55, 0.4), "max": pick(rng, 0.85, 0.9),
                    "cold_snow_decay_timescale": pick(rng, 480, 200), "melting_snow_decay_timescale": pick(rng, 200, 60),
                    "refresh_snowfall": pick(rng, 0.5, 1.5)}
    sc["snow_cover_fraction_depth_scale"] = pick(rng, 0.0, 0.0, 0.1)
    sc["measurement_height_adjustment"] = pick(rng, False, True)
    cfg["meteo"] = {
        "stability_correction": pick(rng, False, True),
        "precipitation_phase": {"method": pick(rng, "temp", "wet_bulb_temp"), "threshold_temp": pick(rng, 273.65, 274.15),
                                "temp_range": pick(rng, 1.0, 2.0), "enforce_no_snow_below_rain": pick(rng, False, True)},
    }
    return cfg


REGIMES = ["alpine", "swing", "meltout", "cold", "warm"]


def snow_specs(rng, n, steps=110, snow=None, melt=None, regimes=None, features=True):
    """n random full-run specs that exercise the snow modules."""
    out = []
    starts = ["2020-01-10", "2020-03-28", "2019-09-27", "2020-12-27", "2021-05-28"]
    for i in range(n):
        # the multilayer scheme couples surface and snow explicitly and is unstable for long steps
        ts = pick(rng, "h", "3h", "3h", "6h", "2h", "D", "30min")
        ns = steps if ts != "D" else steps // 2
        hours = {"30min": 0.5, "h": 1, "3h": 3, "6h": 6, "2h": 2, "D": 24}[ts]
        start = np.datetime64(pick(rng, *starts))
        end = start + np.timedelta64(int(60 * hours * (ns - 1)), "m")
        cfg = rand_config(rng, snow, melt)
        if cfg["snow"]["model"] == "multilayer" and ts in ("6h", "D"):
            ts = "2h"
            end = start + np.timedelta64(int(2 * (ns - 1)), "h")
        spec = dict(seed=int(rng.integers(1, 2**31)), start=str(start), end=str(end).replace("T", " "), timestep=ts,
                    rows=int(rng.integers(5, 9)), cols=int(rng.integers(5, 9)), res=pick(rng, 50, 20, 100),
                    dem=pick(rng, "rough", "valley", "peak"), regime=(regimes or REGIMES)[i % len(regimes or REGIMES)],
                    missing=pick(rng, 0.0, 0.0, 0.05), dem_nan=bool(pick(rng, False, True)),
                    roi_frac=pick(rng, 0.75, 0.5, 1.0), config=cfg)
        if features:
            if rng.random() < 0.25:
                spec["srf"] = True
                cfg["meteo"]["precipitation_correction"] = [{"method": "srf"}]
            if rng.random() < 0.3:
                k = int(rng.integers(5, ns - 3))
                spec["blackout"] = [k, k + 1]
            if rng.random() < 0.3:
                spec["land_cover"] = [0] + FOREST
                cfg["canopy"] = {"enabled": True}
            if rng.random() < 0.2:
                cfg["reset_state_variables"] = True
            if rng.random() < 0.25:
                cfg["meteo"]["interpolation"] = {"wind": {"method": "liston"}}
                spec["dem_nan"] = False  # the curvature is undefined within its length scale of missing elevations
        out.append(spec)
    return out


def thin_specs(rng, n, steps=110):
    """Multilayer runs with very thin layers in which several layers vanish within one time step."""
    out = snow_specs(rng, n, steps=steps, snow="multilayer", regimes=["foehn"])
    for i, s in enumerate(out):
        s["config"]["snow"]["min_thickness"] = [[0.003, 0.005, 0.01, 0.02], [0.002, 0.004, 0.3], [0.005, 0.005]][i % 3]
        s["config"]["snow"]["compaction"].update(timescale=50)
    return out


def hostile(jobs, every=3, share=0.15):
    """Every n-th job gets extreme and boundary values of all parameters mixed into its forcing."""
    for i, j in enumerate(jobs):
        if i % every == 1 and "hostile" not in j.get("spec", j):
            j.get("spec", j)["hostile"] = share
    return jobs


def refreeze_specs(rng, n, steps=1200):
    """Weeks of melt by day and frost by night with much water held per mass: snow slowly turns into solid ice."""
    out = snow_specs(rng, n, steps=steps, regimes=["freezethaw"], snow="cryolayers", melt="energy_balance", features=False)
    for i, s in enumerate(out):
        s.update(timestep="h", start="2020-03-20", end=str(np.datetime64("2020-03-20") + np.timedelta64(steps - 1, "h")).replace("T", " "),
                 rows=4, cols=4, missing=0.0, roi_frac=1.0, dem_nan=False, dem="plane")
        c = s["config"]["snow"]
        c["liquid_water_content"] = {"method": "mass_fraction", "max": 0.1}
        c["cryolayers"].update(refreezing_factor=1.0, cold_holding_capacity=0.05)
        c["cryolayers"]["transition"]["firn"] = 10
    return out


def load_specs(rng, n):
    """Daily steps with metres of fresh snow at once: compaction reaches the density of ice within a step."""
    out = snow_specs(rng, n, snow="cryolayers", regimes=["dump"], melt="energy_balance", features=False)
    for s in out:
        s.update(start="2020-01-10", end="2020-03-04", timestep="D")
    return out
