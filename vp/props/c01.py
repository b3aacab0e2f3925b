"""C01: canopy snow interception conserves mass; inside-canopy meteorology follows the documented model."""
import copy

import numpy as np

from vp import trace, workloads
from vp.scenario import Scenario

RULE = ("twin runs (canopy model on/off) on the same random forcing; one evaluation = one forest or open pixel-step relation; "
        "distinct = (timestep, season, interception?, unload?, sublimation?, forest?)")
REQUIRED = {"interception": 500, "canopy_melt": 200, "canopy_sublimation": 500, "emptied": 20, "open_pixels": 1000,
            "missing_temp": 5, "lai_ramp": 30, "lai_mid": 100, "sparse_canopy": 20, "near_capacity": 50, "missing_snowfall_with_load": 1}
T0, SB = 273.15, 5.670374419e-8


def jobs(tier, seed):
    rng = np.random.default_rng([seed, 4])
    n = 14 if tier == "quick" else 60
    out = []
    specs = workloads.snow_specs(rng, n, features=False, regimes=["alpine", "swing", "cold", "meltout"])
    for i, s in enumerate(specs):
        s["land_cover"] = [0, 1, 5, 6, 7] if i % 2 else [0, 5, 6, 7, 8]
        s["config"]["canopy"] = {"enabled": True, "extinction_coefficient": workloads.pick(rng, 0.71, 0.5),
                                 "temperature_scaling_coefficient": workloads.pick(rng, 0.8, 0.6),
                                 "canopy_flow_index_coefficient": workloads.pick(rng, 0.9, 0.7),
                                 "max_interception_storage_coefficient": workloads.pick(rng, 4.4, 2.0, 0.5),
                                 "exposure_coefficient_coefficient": workloads.pick(rng, 0.010, 0.05),
                                 "degree_day_factor": workloads.pick(rng, 5.0, 2.0)}
        if i % 4 == 0:
            s["missing"] = 0.05
            k = int(rng.integers(8, 30))
            s["blackout"] = [k, k + 1]
        if i % 3 == 2:
            s["srf"] = True
            s["config"]["meteo"]["precipitation_correction"] = [{"method": "srf"}]
        if i % 5 == 3:  # own leaf area parameters: sparse canopies, another growing season
            lo = float(np.round(rng.uniform(0.03, 0.12), 3))
            s["config"]["land_cover"] = {"classes": {5: {"leaf_area_index": {"min": lo, "max": float(np.round(lo + rng.uniform(0, 0.02), 3)), "effective_add": float(rng.choice([0.0, 0.005]))}},
                                                     6: {"leaf_area_index": {"min": 0.4, "max": 6.0, "effective_add": 0.0}, "plant_date": int(rng.integers(1, 200)), "growth_stage_lengths": [15, 25, 60, 40]}}}
        out.append({"spec": s})
    # a complete year of leaf area dynamics, and heavy late-autumn snowfall on a canopy losing its leaves
    base = dict(rows=5, cols=6, res=50, dem="rough", land_cover=[0, 5, 6, 7], timestep="D", config={
        "snow": {"model": "cryolayers", "melt": {"method": "temperature_index", "degree_day_factor": 5.0}},
        "canopy": {"enabled": True}})
    for start, end, regime in (("2020-01-01", "2020-12-31", "alpine"), ("2021-09-20", "2021-12-15", "cold"), ("2021-09-20", "2022-03-15", "swing")):
        s = copy.deepcopy(base)
        s.update(seed=int(rng.integers(1, 2**31)), start=start, end=end, regime=regime)
        if regime == "cold":
            s["config"]["canopy"]["exposure_coefficient_coefficient"] = 0.001
            s["config"]["canopy"]["max_interception_storage_coefficient"] = 2.0
        out.append({"spec": s})
    return workloads.hostile(out)


def lai_course(doy, p):
    st = p["growth_stage_lengths"]
    day = doy - p["plant_date"] + 1
    lo, hi = p["leaf_area_index"]["min"], p["leaf_area_index"]["max"]
    if isinstance(st[0], (list, tuple)):
        return None
    rise, mid, late = st[0] + st[1], st[2], st[3]
    if day <= 0 or day > rise + mid + late:
        return lo
    if day <= rise:
        return lo + day / rise * (hi - lo)
    if day <= rise + mid:
        return hi
    return hi + (day - rise - mid) / late * (lo - hi)


def run(job, ctx):
    spec = job["spec"]
    if "land_cover" in spec["config"]:
        spec["config"]["land_cover"]["classes"] = {int(k): v for k, v in spec["config"]["land_cover"]["classes"].items()}
    sc = Scenario(ctx.workdir, spec)
    m = sc.init_model()
    t = sc.init_model(canopy={"enabled": False})
    roi = m.grid.roi
    lc = sc.lc
    cc = m.config.canopy
    classes = m.config.land_cover.classes
    forest_codes = [k for k in np.unique(lc) if k in classes and classes[k].get("is_forest", False)]
    F = np.isin(lc, forest_codes) & roi
    O = roi & ~F
    dt = m.timestep
    n24 = max(int(86400 / dt), 1)
    hist = []
    cum_in = np.zeros(F.sum())
    cum_out = np.zeros(F.sum())
    load_start = None
    twin = trace.iterate(t, ("meteo",))
    for pre, post in trace.iterate(m, ("snow", "meteo", "surface", "land_cover")):
        _, tw = next(twin)
        q, p, w = (lambda v: post[v][F]), (lambda v: pre[v][F]), (lambda v: tw[v][F])
        # --- leaf area ---------------------------------------------------------------
        for code in forest_codes:
            px = (lc == code) & roi
            if not px.any():
                continue
            want = lai_course(m.date.dayofyear, classes[code])
            if want is not None:
                ctx.check_close(post["land_cover.lai"][px], np.full(px.sum(), want), "lai", f"leaf area index of class {code} on {m.date}")
                ctx.check_close(post["land_cover.lai_eff"][px], np.full(px.sum(), want + classes[code]["leaf_area_index"].get("effective_add", 0)), "lai-eff", f"effective LAI of class {code} on {m.date}")
                ctx.event("lai_mid" if want in (classes[code]["leaf_area_index"]["min"], classes[code]["leaf_area_index"]["max"]) else "lai_ramp", px.sum())
        lai = q("land_cover.lai_eff")
        # --- above-canopy fields are preserved ------------------------------------------
        for v in ("temp", "rel_hum", "wind_speed"):
            ctx.check_close(post[f"meteo.top_canopy_{v}"][roi], tw[f"meteo.{v}"][roi], f"top-canopy:{v}", f"above-canopy {v} differs from the unmodified field at {m.date}", rtol=1e-12)
            ctx.check_close(post[f"meteo.{v}"][O], tw[f"meteo.{v}"][O], f"open:{v}", f"{v} modified outside the forest at {m.date}", rtol=1e-12)
        for v in ("snowfall", "rainfall", "precip"):
            ctx.check_close(post[f"meteo.{v}"][O], tw[f"meteo.{v}"][O], f"open:{v}", f"{v} modified outside the forest at {m.date}", rtol=1e-12)
        for v in ("sw_in", "lw_in"):
            ctx.check_close(post[f"meteo.{v}"][O], post[f"meteo.top_canopy_{v}"][O], f"open:{v}", f"{v} modified outside the forest at {m.date}", rtol=1e-12)
        # --- inside-canopy meteorology (Strasser et al. 2011, eqs. 1-8) -------------------
        ctx.event("sparse_canopy", np.sum(lai < 0.15))
        fc = np.clip(0.55 + 0.29 * np.log(lai), 0, 1)
        ta = w("meteo.temp")
        hist.append(tw["meteo.temp"][F].copy())
        hist = hist[-n24:]
        with np.errstate(all="ignore"):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                mean = np.nanmean(np.array(hist), axis=0)
            dT = np.clip((mean - T0) / 3, -2, 2)
            want_t = np.where(np.isfinite(mean), ta - fc * (ta - (cc.temperature_scaling_coefficient * (ta - mean) + mean - dT)), ta)
        ctx.check_close(q("meteo.temp"), want_t, "canopy-temp", f"inside-canopy temperature at {m.date}", rtol=1e-10)
        ctx.check_close(q("meteo.sw_in"), q("meteo.top_canopy_sw_in") * np.exp(-cc.extinction_coefficient * lai), "canopy-sw", f"inside-canopy shortwave at {m.date}", rtol=1e-10)
        ctx.check_close(q("meteo.lw_in"), (1 - fc) * q("meteo.top_canopy_lw_in") + fc * SB * want_t**4, "canopy-lw", f"inside-canopy longwave at {m.date}", rtol=1e-10)
        ctx.check_close(q("meteo.rel_hum"), np.clip(w("meteo.rel_hum") * (1 + 0.1 * fc), 0, 100), "canopy-hum", f"inside-canopy humidity at {m.date}", rtol=1e-10)
        ctx.check_close(q("meteo.wind_speed"), w("meteo.wind_speed") * np.exp(-0.4 * cc.canopy_flow_index_coefficient * lai), "canopy-wind", f"inside-canopy wind at {m.date}", rtol=1e-10)
        ctx.event("missing_temp", np.isnan(ta).sum())
        # --- interception mass balance ----------------------------------------------------
        load0, load1 = p("snow.canopy_intercepted_load"), q("snow.canopy_intercepted_load")
        if load_start is None:
            load_start = load0.copy()
            ctx.check((load0 == 0).all(), "initial-load", "canopy load not empty at the start")
        icp, subl, melt = q("snow.canopy_intercepted_snowfall"), q("snow.canopy_sublimation"), q("snow.canopy_melt")
        sf_raw = w("meteo.snowfall")
        sf_top = np.nan_to_num(sf_raw)
        sf_ground = q("meteo.snowfall")
        ctx.check(np.isfinite(load1).all() and np.isfinite(icp).all() and np.isfinite(subl).all() and np.isfinite(melt).all(), "not-finite", f"canopy state not finite at {m.date}")
        ctx.check((load1 >= -1e-12).all() and (icp >= 0).all() and (subl >= 0).all() and (melt >= 0).all(), "negative", f"negative canopy flux or storage at {m.date}")
        ctx.check_close(load1, load0 + icp - subl - melt, "load-balance", f"canopy load change differs from interception - sublimation - unload at {m.date}", rtol=1e-10, atol=1e-10)
        ctx.check_close(np.nan_to_num(sf_ground), sf_top - icp + melt, "ground-snowfall", f"snowfall below the canopy differs from snowfall - interception + unload at {m.date}", rtol=1e-10, atol=1e-10)
        ctx.check((icp <= sf_top + 1e-10).all(), "intercept-more", f"more snow intercepted than falling at {m.date}")
        ctx.check_close(q("meteo.rainfall"), w("meteo.rainfall"), "rain", f"canopy modifies rainfall at {m.date}", rtol=1e-12)
        fin = np.isfinite(sf_ground)
        ctx.check_close(q("meteo.precip")[fin], (sf_ground + w("meteo.rainfall"))[fin], "precip-sum", f"precipitation below the canopy is not snowfall + rainfall at {m.date}", rtol=1e-10, atol=1e-12)
        cum_in += sf_top
        cum_out += np.nan_to_num(sf_ground) + subl
        ctx.check_close(cum_in, cum_out + load1, "cumulative", f"cumulative canopy mass balance at {m.date}", rtol=1e-8, atol=1e-8)
        cap = cc.max_interception_storage_coefficient * lai
        # storage may only stay above a capacity that shrank since the snow was intercepted
        ctx.check((load1 <= np.maximum(cap, load0) + 1e-9).all(), "over-capacity", f"canopy load grows beyond its capacity at {m.date}")
        want_icp = np.clip(0.7 * (cap - load0) * (1 - np.exp(-sf_top / cap)), 0, None)
        ctx.check_close(icp, want_icp, "interception-efficiency", f"intercepted snowfall at {m.date}", rtol=1e-9, atol=1e-10)
        ctx.event("near_capacity", (load1 > 0.6 * cap).sum())
        # unload by melt
        want_melt = np.minimum(cc.degree_day_factor * np.clip(np.nan_to_num(want_t - T0), 0, None) * dt / 86400, load0 + icp - subl)
        ctx.check_close(melt, want_melt, "melt-unload", f"melt unload at {m.date}", rtol=1e-9, atol=1e-10)
        # sublimation (eqs. 11-23)
        r = cc.spherical_ice_particle_radius
        with np.errstate(all="ignore"):
            absorbed = np.pi * r**2 * (1 - p("surface.albedo")) * q("meteo.top_canopy_sw_in")
            re = np.clip(2 * r * q("meteo.wind_speed") / cc.kinematic_air_viscosity, 0.7, 10)
            nu = 1.79 + 0.606 * np.sqrt(re)
            T = want_t
            rho_v = 0.622 * q("meteo.sat_vap_press") / (461.52 * T)
            D = 2.06e-5 * (T / 273.0) ** 1.75
            Ls = 2.501e6 + 0.334e6
            om = 1 / (0.025 * T * nu) * (Ls * 0.0180153 / (8.314462618 * T) - 1)
            dm = (2 * np.pi * r * (q("meteo.rel_hum") / 100 - 1) - absorbed * om) / (Ls * om + 1 / (D * rho_v * nu))
            dm = np.where(np.isnan(dm), 0, dm)
            coef = dm / (4 / 3 * np.pi * 917.0 * r**3)
            l1 = load0 + icp
            ce = np.where(l1 > 0, cc.exposure_coefficient_coefficient * (l1 / cap) ** -0.4, 0)
            want_sub = np.clip(np.minimum(-ce * l1 * coef * dt, l1), 0, None)
            want_sub = np.where(l1 > 0, want_sub, 0)
        ctx.check_close(subl, want_sub, "canopy-sublimation", f"sublimation of intercepted snow at {m.date}", rtol=1e-8, atol=1e-12)
        ctx.event("interception", (icp > 0).sum())
        ctx.event("canopy_melt", (melt > 0).sum())
        ctx.event("canopy_sublimation", (subl > 0).sum())
        ctx.event("emptied", ((load0 > 0) & (load1 == 0)).sum())
        ctx.event("open_pixels", O.sum())
        ctx.event("missing_snowfall_with_load", (np.isnan(ta) & (load0 > 0)).sum())
        for i in range(min(5, icp.size)):
            ctx.state(spec["timestep"], m.date.month, bool(icp[i] > 0), bool(melt[i] > 0), bool(subl[i] > 0))
