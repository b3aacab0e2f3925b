"""W01: evapotranspiration and soil water balance (FAO-56)."""
import numpy as np

from vp import ref, trace, workloads
from vp.scenario import Scenario

RULE = ("full runs with random land cover, soil texture, crop parameters and seasons; one evaluation = one evapotranspiration term or soil water "
        "store of one pixel-step compared with an independent FAO-56 evaluation from the state before the step; distinct = (land cover kind, "
        "growth stage, stressed?, evaporation stage, snow-covered?, soil class)")
REQUIRED = {"dual": 3000, "single": 500, "water": 300, "sealed_rain": 100, "sealed_dry": 200, "sealed_overflow": 30, "sealed_limited": 20, "snow": 500, "stress": 300,
            "stage2_evap": 300, "stage_out": 200, "stage_ini": 200, "stage_dev": 200, "stage_mid": 300, "stage_late": 200, "subcycle": 200, "sparse": 200,
            "percolation": 100, "surface_percolation": 100, "depleted": 20, "missing": 100, "night": 300, "day": 300, "balance": 2000, "lai": 300,
            "unscaled_height": 200, "corrected_mid": 300, "uncorrected_mid": 100, "water_snow": 20, "no_class": 50, "high_basal": 200, "canopy": 20}
FC = {1: .12, 2: .15, 3: .23, 4: .25, 5: .29, 6: .32, 7: .335, 8: .36, 9: .36}
WP = {1: .045, 2: .065, 3: .11, 4: .12, 5: .15, 6: .17, 7: .205, 8: .23, 9: .22}
REW = {1: 4.5, 2: 6, 3: 8, 4: 9, 5: 9.5, 6: 9.5, 7: 9.5, 8: 10, 9: 10}
ADJ = {1: 1.1, 2: 1.075, 3: 1.05, 4: 1.025, 5: 1.0, 6: .975, 7: .95, 8: .925, 9: .9}
# kind, (ini, mid, end), plant date, stages, height, root depth, depletion fraction
DEF = {1: dict(t="single", k=(1.25, .65, 1.25), p=1, g=[(0, 183, 0, 183)], h=0, r=np.nan, d=np.nan, water=True),
       2: dict(sealed=.935, h=1.9), 3: dict(sealed=.935, h=1.9),
       4: dict(t="dual", k=(.3, .9, .8), p=60, g=[(10, 20, 210, 30)], h=.225, r=.5, d=.6),
       5: dict(t="dual", k=(.95, .95, .95), p=1, g=[(0, 0, 366, 0)], h=26., r=1.25, d=.7, fix=True, lai=(3.8, 5.1, 3.2)),
       6: dict(t="dual", k=(.5, 1.05, .6), p=60, g=[(20, 70, 120, 60)], h=24.8, r=2.05, d=.5, fix=True, lai=(.5, 4.4, 1.9)),
       7: dict(t="dual", k=(.95, .95, .95), p=1, g=[(0, 0, 366, 0)], h=26., r=1.25, d=.7, fix=True, lai=(2.0, 4.7, 2.5)),
       8: dict(t="dual", k=(.15, 1.1, .25), p=120, g=[(30, 40, 50, 25)], h=2., r=1.35, d=.55),
       10: dict(t="dual", k=(1.2, 1.2, 1.2), p=1, g=[(0, 0, 366, 0)], h=3., r=.5, d=.5, sparse=.25)}
for q in (9, 11, 12):
    DEF[q] = DEF[4]


def jobs(tier, seed):
    rng = np.random.default_rng([seed, 22])
    n = 24 if tier == "quick" else 120
    out = []
    for i in range(n):
        ts = ["D", "3h", "h", "D", "6h", "3h"][i % 6]
        if i % 12 in (2, 11):
            ts = ["30min", "90min"][i % 12 == 11]
        hours = {"h": 1, "3h": 3, "6h": 6, "D": 24, "30min": .5, "90min": 1.5}[ts]
        ns = {"D": 150, "3h": 100, "h": 90, "6h": 100, "30min": 120, "90min": 100}[ts]
        start = np.datetime64(["2020-05-20", "2020-07-08", "2020-02-20", "2020-08-15", "2020-03-25", "2019-12-20", "2020-10-10"][i % 7])
        end = start + np.timedelta64(int(60 * hours * (ns - 1)), "m")
        doy = int((start - start.astype("datetime64[Y]").astype("datetime64[D]")).astype(int)) + 1
        u = lambda a, b, nd=3: float(np.round(rng.uniform(a, b), nd))
        span = int(max(4, ns * hours // 24))
        cut = lambda: [int(v) for v in rng.integers(0, max(2, span // 3), 4)]
        pd_ = int(np.clip(doy + rng.integers(-2, max(3, span // 3)), 1, 366))
        cl = {
            20: {"crop_coefficient_type": "dual", "crop_coefficients": [u(.15, .5), u(.2, 1.2), u(.2, 1.1)], "plant_date": pd_, "growth_stage_lengths": [cut(), cut(), cut()], "max_height": u(.1, 2.5),
                 "rooting_depth": u(.05, .3), "depletion_fraction": u(.3, .7), "leaf_area_index": {"min": .5, "max": 3.0}},
            21: {"crop_coefficient_type": "single", "crop_coefficients": [u(.2, .6), u(.3, 1.3), u(.2, 1.)], "plant_date": pd_, "growth_stage_lengths": cut(), "max_height": u(.1, 3), "rooting_depth": u(.05, .5),
                 "depletion_fraction": u(.3, .7), "scale_height": False},
            22: {"crop_coefficient_type": "dual", "crop_coefficients": [u(.3, .9), u(.7, 1.2), u(.3, 1.)], "plant_date": 1, "growth_stage_lengths": [30, 60, 200, 60], "max_height": u(.2, 4), "rooting_depth": u(.1, .5),
                 "depletion_fraction": u(.3, .7), "is_sparse": True, "sparse_vegetation_fraction": u(.05, .7)},
            8: {"rooting_depth": u(.1, .6), "plant_date": pd_},
            3: {"max_sealed_interception": u(.2, 3.)},
        }
        if i % 4 == 2:  # exactly at the threshold from which the climate correction applies
            cl[21]["crop_coefficients"][1:] = [.45, .45]
            cl[22]["crop_coefficients"][1:] = [.45, .45]
        elif i % 4 != 1:  # so high that the upper limit of the crop coefficient follows the basal one
            cl[20]["crop_coefficients"] = [u(1.2, 1.5), u(1.2, 1.6), u(1.2, 1.5)]
        if i % 4 == 0:  # shallow roots: the root zone runs dry
            cl[20]["rooting_depth"] = u(.02, .05)
            cl[21]["rooting_depth"] = u(.02, .05)
        s = dict(seed=int(rng.integers(1, 2**31)), start=str(start), end=str(end).replace("T", " "), timestep=ts, rows=6, cols=8, res=50, dem="rough", roi_frac=.85, num_stations=2,
                 regime=["warm", "alpine", "warm", "swing", "warm"][i % 5], missing=[0.0, 0.06, 0.0][i % 3],
                 land_cover=[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 20, 20, 21, 22, 33], soil=list(range(1, 10)),
                 config={"snow": {"model": ["cryolayers", "multilayer"][i % 4 == 1]}, "canopy": {"enabled": i % 6 == 4}, "reset_state_variables": i % 7 == 3, "land_cover": {"classes": cl},
                         "meteo": {"measurement_height": {"wind": [10, 8, 4][i % 3], "temperature": [2.5, 4][i % 2]}},
                         "evapotranspiration": {"enabled": True}})
        if s["config"]["snow"]["model"] == "cryolayers":
            s["config"]["snow"]["melt"] = {"method": "temperature_index", "degree_day_factor": 8.0, "threshold_temp": 273.15}
        if s["config"]["snow"]["model"] == "multilayer" and ts in ("6h", "D"):
            s["config"]["snow"]["model"] = "cryolayers"
        if i % 3:
            s["config"]["evapotranspiration"].update(min_crop_coefficient=u(.1, .25), grass_albedo=u(.15, .3), grass_emissivity=u(.93, 1.), sealed_albedo=u(.1, .5), sealed_emissivity=u(.85, .98),
                                                     mean_wind_speed=u(.5, 7), mean_min_humidity=u(10, 90, 1), surface_soil_layer_evaporation_depth=u(.05, .2))
        out.append({"spec": s, "dry": i % 4 == 0})
    return workloads.hostile(out)


def classes(spec):
    P = {k: dict(v) for k, v in DEF.items()}
    for k, c in spec["config"]["land_cover"]["classes"].items():
        k = int(k)
        p = P.setdefault(k, {})
        for a, b in dict(t="crop_coefficient_type", p="plant_date", h="max_height", r="rooting_depth", d="depletion_fraction", sparse="sparse_vegetation_fraction", sealed="max_sealed_interception").items():
            if b in c:
                p[a] = c[b]
        if "crop_coefficients" in c:
            p["k"] = tuple(c["crop_coefficients"])
        if "growth_stage_lengths" in c:
            g = c["growth_stage_lengths"]
            p["g"] = [tuple(x) for x in g] if isinstance(g[0], list) else [tuple(g)]
        if c.get("scale_height") is False:
            p["fix"] = True
        if "leaf_area_index" in c:
            q = c["leaf_area_index"]
            p["lai"] = (q["min"], q["max"], q.get("effective_add", 0))
    return P


def stage(day, cycles):
    """(stage name, position within the stage in (0, 1]) of the day of the growing period."""
    t = 0
    if day < 1:
        return "out", 0.0
    for i, c in enumerate(cycles):
        for nm, ln in zip(("ini", "dev", "mid", "late"), c):
            if day <= t + ln:
                return nm, (day - t) / ln
            t += ln
    return "out", 0.0


def course(st, f, ini, mid, end, low):
    return {"out": low, "ini": ini, "dev": ini + f * (mid - ini), "mid": mid, "late": mid + f * (end - mid)}[st]


def run(job, ctx):
    spec = job["spec"]
    lcc = spec["config"]["land_cover"]
    lcc["classes"] = {int(k): v for k, v in lcc["classes"].items()}
    sc = Scenario(ctx.workdir, spec)
    if job["dry"]:
        for d in sc.forcing.values():
            d.loc[d.index[len(d) // 5]: d.index[int(len(d) * .8)], "precip"] = 0.0
    m = sc.init_model()
    roi = m.grid.roi
    E = m.config.evapotranspiration
    P = classes(spec)
    lc, tx = sc.lc, sc.soil
    shp = lc.shape
    full = lambda f: np.vectorize(f, otypes=[float])
    known = roi & np.isin(lc, list(P))
    sealed = known & np.isin(lc, [k for k in P if "sealed" in P[k]])
    crop = known & ~sealed
    water = known & np.isin(lc, [k for k in P if P[k].get("water")])
    soil = crop & ~water
    ctx.event("no_class", (roi & ~known).sum())
    fc, wp, rew, adj = (np.vectorize(D.get, otypes=[float])(tx) for D in (FC, WP, REW, ADJ))
    rd = np.full(shp, np.nan); df = np.full(shp, np.nan)
    for k, p in P.items():
        if "r" in p:
            rd[lc == k], df[lc == k] = p["r"], p["d"]
    TEW = 1000 * (fc - .5 * wp) * E.surface_soil_layer_evaporation_depth
    TAW = 1000 * (fc - wp) * rd
    RAW = TAW * df * adj
    sr, al = np.full(shp, np.nan), np.full(shp, np.nan)
    sr[crop], al[crop] = E.grass_emissivity, E.grass_albedo
    sr[sealed], al[sealed] = E.sealed_emissivity, E.sealed_albedo
    u2c, rhm = np.clip(E.mean_wind_speed, 1, 6), np.clip(E.mean_min_humidity, 20, 80)
    clim = np.full(shp, np.nan)
    for k, p in P.items():
        clim[lc == k] = (.04 * (u2c - 2) - .004 * (rhm - 45)) * (np.clip(p["h"], .1, 10) / 3) ** .3
    S0 = m.state.evapotranspiration
    for v, e in (("total_evaporable_water", TEW), ("total_available_water", TAW), ("readily_evaporable_water", rew), ("readily_available_water", RAW)):
        ctx.check_close(S0[v][soil], e[soil], v, f"{v} of the soil", rtol=1e-9)
    ctx.check((S0.cum_root_zone_depletion[soil] == 0).all() and (S0.cum_soil_surface_depletion[soil] == 0).all(), "initial", "soil is not at field capacity initially")
    ctx.check((S0.sealed_interception[sealed] == 0).all(), "initial", "initial interception of sealed surfaces is not zero")
    dt = m.timestep
    forest = known & np.isin(lc, [5, 6, 7]) & bool(m.config.canopy.enabled)
    ctx.event("canopy", forest.sum())
    cum = {v: np.zeros(shp) for v in ("P", "ET", "DP", "clip")}
    first = None
    for pre, post in trace.iterate(m):
        Q = lambda v: post[f"evapotranspiration.{v}"]
        B = lambda v: pre[f"evapotranspiration.{v}"]
        X = lambda v: post[f"meteo.{v}"]
        w = f"at {m.date}"
        doy = m.date.dayofyear
        rain = np.nan_to_num(X("rainfall"))
        snow = post["snow.swe"] > 0
        up = bool(m.sun_params["sun_over_horizon"])
        ctx.event("day" if up else "night", crop.sum())
        # reference evapotranspiration
        T = X("top_canopy_temp") - 273.15
        net = (1 - al) * X("top_canopy_sw_in") + X("top_canopy_lw_in") - ref.SB * sr * X("top_canopy_temp") ** 4
        G = net * (.1 if up else .5)
        slope = 4098 * .6108 * np.exp(17.27 * T / (T + 237.3)) / (T + 237.3) ** 2
        gam, vpd = X("psych_const") / 1e3, (X("sat_vap_press") - X("vap_press")) / 1e3
        hw, ht = m.config.meteo.measurement_height.wind, m.config.meteo.measurement_height.temperature
        u2 = X("top_canopy_wind_speed") * np.log(2 / .03) / np.log(hw / .03)
        et0 = np.maximum((.408 * slope * (net - G) * .0036 + gam * 37 / (T + 273) * u2 * vpd) / (slope + gam * (1 + .34 * u2)), 0) * dt / 3600
        ctx.check_close(Q("et_ref")[crop & ~forest], et0[crop & ~forest], "et-ref", f"reference evapotranspiration {w}", rtol=1e-6, atol=1e-9)
        ctx.check_close(Q("ref_net_radiation")[known], net[known], "net-radiation", f"reference net radiation {w}", rtol=1e-6, atol=1e-4)
        ctx.event("missing", np.isnan(et0[crop]).sum())
        et0 = np.nan_to_num(Q("et_ref"))
        De0, Dr0, I0 = B("cum_soil_surface_depletion"), B("cum_root_zone_depletion"), B("sealed_interception")
        ET, EV, TR, DP = (np.full(shp, np.nan) for _ in range(4))
        De, Dr = De0.copy(), Dr0.copy()
        for k, p in P.items():
            z = roi & (lc == k)
            if not z.any():
                continue
            s_ = z & snow
            f_ = z & ~snow
            if "lai" in p:
                c3 = [(0, c[0] + c[1], c[2], c[3]) for c in p["g"]]
                st, f = stage(doy - p["p"] + 1, c3)
                lai = course(st, f, p["lai"][0], p["lai"][1], p["lai"][0], p["lai"][0])
                ctx.event("lai", z.sum())
                ctx.check_close(post["land_cover.lai"][z], lai, "lai", f"leaf area index of class {k} {w}")
                ctx.check_close(post["land_cover.lai_eff"][z], lai + p["lai"][2], "lai-eff", f"effective leaf area index of class {k} {w}")
            if "sealed" in p:
                wet = f_ & (rain > 0)
                dry = f_ & ~(rain > 0)
                ctx.event("sealed_rain", wet.sum()); ctx.event("sealed_dry", dry.sum()); ctx.event("snow", s_.sum())
                cap = p["sealed"]
                tot = I0 + rain
                ctx.event("sealed_overflow", (wet & (tot > cap)).sum())
                ctx.check_close(Q("sealed_interception")[wet], np.minimum(tot, cap)[wet], "sealed-storage", f"interception of sealed surfaces {w}")
                ctx.check_close(Q("deep_percolation")[wet], np.maximum(tot - cap, 0)[wet], "sealed-runoff", f"runoff of sealed surfaces {w}")
                ctx.check((Q("evaporation")[wet] == 0).all(), "sealed-wet", f"evaporation of sealed surfaces during rain {w}")
                zo = .123 * p["h"]
                d0 = 2 / 3 * p["h"]
                ra = np.log((hw - d0) / zo) * np.log((ht - d0) / (.1 * zo)) / (.16 * X("top_canopy_wind_speed"))
                tv = 1.01 * X("top_canopy_temp")
                rc = X("atmos_press") / (287.058 * tv) * X("psych_const") * .622 * 2.501e6 / X("atmos_press")
                pe = (1e3 * slope * (net - G) + rc * 1e3 * vpd / ra) / (1e3 * slope + X("psych_const"))
                pe = np.nan_to_num(np.maximum(pe, 0)) / 2.501e6 * dt
                e = np.minimum(pe, I0)
                ctx.event("sealed_limited", (dry & (pe >= I0) & (I0 > 0)).sum())
                ctx.check_close(Q("evaporation")[dry], e[dry], "sealed-evaporation", f"evaporation of sealed surfaces {w}", rtol=1e-6, atol=1e-9)
                ctx.check_close(Q("sealed_interception")[dry], (I0 - Q("evaporation"))[dry], "sealed-balance", f"interception after evaporation {w}", atol=1e-9)
                ctx.check((Q("sealed_interception")[s_] == I0[s_]).all() and (Q("evapotranspiration")[s_] == 0).all(), "sealed-snow", f"sealed surface under snow {w}")
                ctx.check((Q("transpiration")[z] == 0).all() and np.allclose(Q("evapotranspiration")[z], Q("evaporation")[z]), "sealed-transpiration", f"transpiration of a sealed surface {w}")
                ctx.check((Q("sealed_interception")[z] >= -1e-12).all(), "sealed-negative", f"negative interception {w}")
                ctx.state("sealed", bool(wet.any()), bool(s_.any()))
                continue
            wat = bool(p.get("water"))
            if wat:
                ctx.event("water", z.sum()); ctx.event("water_snow", s_.sum())
                f_, s_ = z, z & False
            kmin = E.min_crop_coefficient
            ki, km, ke = p["k"]
            if "sparse" in p:
                ctx.event("sparse", z.sum())
                lat, dec = np.deg2rad(m.grid.center_lat), np.deg2rad(m.sun_params["declination_angle"])
                eff = max(p["sparse"] / (np.sin(lat) * np.sin(dec) + np.cos(lat) * np.cos(dec)), 0)
                km = kmin + (km - kmin) * min(1, 2 * p["sparse"], eff ** (1 / (1 + p["h"])))
            cc = clim[z][0]
            ctx.event("corrected_mid" if km >= .45 else "uncorrected_mid", z.sum())
            km = km + cc if km >= .45 else km
            ke = ke + cc if ke >= .45 else ke
            st, f = stage(doy - p["p"] + 1, p["g"])
            ctx.event("stage_" + st, z.sum()); ctx.event("subcycle", z.sum() if len(p["g"]) > 1 else 0)
            kc = course(st, f, ki, km, ke, kmin)
            if p.get("fix"):
                h = p["h"]; ctx.event("unscaled_height", z.sum())
            else:
                h = p["h"] if st in ("mid", "late") else p["h"] * max(kc, {"out": 0, "ini": kmin, "dev": ki}[st]) / km
                if st in ("late",):
                    h = p["h"] * max(kc, km) / km
            ctx.check_close(post["land_cover.plant_height"][z], h, "height", f"plant height of class {k} ({st}) {w}", rtol=1e-6)
            ctx.event("snow", s_.sum())
            if p["t"] == "single":
                ctx.event("single", f_.sum())
                ctx.check_close(Q("crop_coeff")[z], kc, "crop-coeff", f"crop coefficient of class {k} ({st}) {w}", rtol=1e-6)
                ET[f_] = kc * et0[f_]
            else:
                ctx.event("dual", f_.sum())
                ctx.check_close(Q("basal_crop_coeff")[z], kc, "basal-crop-coeff", f"basal crop coefficient of class {k} ({st}) {w}", rtol=1e-6)
                kx = max(1.2 + cc, kc + .05)
                ctx.event("high_basal", f_.sum() if kc + .05 > 1.2 + cc else 0)
                vf = p["sparse"] if "sparse" in p else (max(kc - kmin, .01) / (kx - kmin)) ** (1 + .5 * h)
                few = min(1 - vf, 1)
                kr = np.where(De0 > rew, (TEW - De0) / (TEW - rew), 1.0)
                ctx.event("stage2_evap", (f_ & (De0 > rew)).sum())
                kev = np.minimum(kr * (kx - kc), few * kx)
                EV[f_] = (kev * et0)[f_]
                TR[f_] = (kc * et0)[f_]
                EV[s_] = TR[s_] = 0
                ctx.check_close(Q("evaporation")[f_], EV[f_], "evaporation", f"evaporation of class {k} ({st}) {w}", rtol=1e-6, atol=1e-9)
                dpe = np.maximum(rain - De0, 0)
                ctx.event("surface_percolation", (f_ & (dpe > 0)).sum())
                nd = np.minimum(np.maximum(De0 - rain + EV / few + dpe, 0), TEW)
                De[f_] = nd[f_]
                ctx.check_close(Q("deep_percolation_evaporation_layer")[f_], dpe[f_], "surface-percolation", f"percolation from the surface layer {w}", atol=1e-9)
            if not wat:
                ks = np.clip((TAW - Dr0) / (TAW - RAW), 0, 1)
                ctx.check_close(Q("water_stress_coeff")[f_], ks[f_], "stress", f"water stress {w}", rtol=1e-7)
                ctx.event("stress", (f_ & (ks < 1)).sum())
                if p["t"] == "single":
                    ET[f_] *= ks[f_]
                else:
                    TR[f_] *= ks[f_]
                    ctx.check_close(Q("transpiration")[f_], TR[f_], "transpiration", f"transpiration of class {k} ({st}) {w}", rtol=1e-6, atol=1e-9)
                    ET[f_] = EV[f_] + TR[f_]
                ET[s_] = 0
                d = np.maximum(rain - ET - Dr0, 0)
                DP[z] = d[z]
                Dr[z] = np.minimum(np.maximum(Dr0 - rain + ET + d, 0), TAW)[z]
                ctx.event("percolation", (z & (d > 0)).sum())
                ctx.event("depleted", (z & (Dr0 - rain + ET > TAW)).sum())
                ctx.state(k, st, bool((ks[f_] < 1).any()), bool((De0[f_] > rew[f_]).any()), bool(s_.any()))
            elif p["t"] == "dual":
                ET[f_] = EV[f_] + TR[f_]
            ctx.check_close(Q("evapotranspiration")[z], ET[z], "et", f"evapotranspiration of class {k} ({st}) {w}", rtol=1e-6, atol=1e-9)
        ctx.check_close(Q("cum_soil_surface_depletion")[crop], De[crop], "surface-depletion", f"depletion of the soil surface layer {w}", rtol=1e-6, atol=1e-8)
        ctx.check_close(Q("cum_root_zone_depletion")[soil], Dr[soil], "root-depletion", f"depletion of the root zone {w}", rtol=1e-6, atol=1e-8)
        ctx.check_close(Q("deep_percolation")[soil], DP[soil], "percolation", f"deep percolation {w}", rtol=1e-6, atol=1e-8)
        # bounds and balance, judged on the model's own terms
        r = Q("cum_root_zone_depletion")[soil]
        ctx.check(((r >= 0) & (r <= TAW[soil] + 1e-9)).all(), "root-range", f"root zone depletion outside of 0..TAW {w}")
        for v in ("evapotranspiration", "deep_percolation", "cum_soil_surface_depletion"):
            a = Q(v)[soil]
            ctx.check((a >= 0).all(), "range-" + v, f"negative or missing {v} {w}")
        res = Q("cum_root_zone_depletion") - Dr0 + rain - Q("evapotranspiration") - Q("deep_percolation")
        k_ = soil & (Q("cum_root_zone_depletion") < TAW - 1e-9)
        ctx.event("balance", k_.sum())
        ctx.check((np.abs(res[k_]) < 1e-6).all(), "balance", f"water balance of the root zone is not closed {w}")
        ctx.check((res[soil & ~k_] <= 1e-6).all(), "balance-limit", f"root zone gains depletion without evapotranspiration {w}")
