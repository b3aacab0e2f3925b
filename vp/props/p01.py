"""P01: precipitation phase and corrections."""
import numpy as np
import pandas as pd

from vp import ref, trace, workloads
from vp.props import a01, i01
from vp.scenario import Scenario

RULE = ("full meteorological preprocessing runs with random correction chains; one evaluation = one station value or pixel-step phase "
        "split compared with an independent evaluation; distinct = (phase method, range, correction chain, enforce, srf)")
REQUIRED = {"snow": 500, "rain": 500, "mixed": 150, "conservation": 3000, "enforced": 20, "srf": 300, "station": 2000, "scf": 100,
            "wmo_snow": 50, "wmo_mixed": 20, "kochendorfer": 100, "filled_station": 50, "no_wind": 1, "chain": 2, "zero_range": 100, "missing": 20,
            **{"mixed_" + g: 4 for g in ("nipher", "tretyakov", "us_sh", "us_unsh", "hellmann")}}
T0 = ref.T0
KOCH = {"us_un": (0.045, 1.21, 0.66, 8), "all_sa": (0.03, 1.04, 0.57, 12), "nor_sa": (0.05, 0.66, 0.23, 12), "us_sa": (0.03, 1.06, 0.63, 12),
        "us_da": (0.021, 0.74, 0.66, 8), "us_bda": (0.01, 0.48, 0.51, 8), "us_sdfir": (0.004, 0.0, 0.0, 8)}
WMO = ["nipher", "tretyakov", "us_sh", "us_unsh", "hellmann"]


def jobs(tier, seed):
    rng = np.random.default_rng([seed, 15])
    n = 36 if tier == "quick" else 160
    out = []
    nw = 0
    for i in range(n):
        chain = []
        k = i % 9
        if k in (1, 4, 7):
            chain.append({"method": "constant_scf", "scf": float(np.round(rng.uniform(0.8, 1.8), 3))})
        if k in (2, 4, 5):
            chain.append({"method": "wmo", "gauge": WMO[nw % 5]})
            nw += 1
        if k in (3, 6):
            chain.append({"method": "kochendorfer", "gauge": list(KOCH)[(i // 3) % 7]})
        srf = k in (5, 6, 7, 8)
        if srf:
            chain.insert(int(rng.integers(0, len(chain) + 1)), {"method": "srf"})
        c = {"snow": {"model": "cryolayers", "roughness_length": [0.01, 0.001][i % 2]},
             "meteo": {"precipitation_phase": {"method": ["temp", "wet_bulb_temp"][i % 2], "threshold_temp": [273.65, 275.15, 272.15][i % 3],
                                               "temp_range": [1.0, 2.0, 0.0, 4.0][(i + (k == 2)) % 4] if k not in (4, 5) else [2.0, 4.0][i % 2], "enforce_no_snow_below_rain": bool((i // 2) % 2)},
                       "precipitation_correction": chain, "measurement_height": {"wind": [10, 4][i % 2], "temperature": [2, 3][(i // 2) % 2]},
                       "interpolation": {"wind": {"extrapolate": bool(i % 2)},
                                         "temperature": {"trend_method": ["regression", "fixed"][(i // 4) % 2]}}}}
        drops = [[], ["temp"], ["rel_hum"], ["wind_speed"]] if i % 3 == 1 else ([["wind_speed"]] * 6 if i % 12 == 3 else [])
        s = dict(seed=int(rng.integers(1, 2**31)), start=["2020-03-29 12:00", "2020-11-01", "2020-05-02"][i % 3], timestep="3h",
                 end=str(pd.Timestamp("2020-03-29 12:00") + pd.Timedelta(days=4)), rows=6, cols=7, res=[100, 50][i % 2], dem=["peak", "rough"][i % 2],
                 num_stations=[5, 3][i % 2], missing=[0.0, 0.2, 0.0][i % 3], regime=["alpine", "swing", "warm", "cold"][i % 4], srf=srf, blackout=[4], config=c, drops=drops,
                 cold_bottom=(i % 2 == 0), mix=k in (2, 4, 5))
        s["end"] = str(pd.Timestamp(s["start"]) + pd.Timedelta(days=4))
        out.append({"spec": s})
    return workloads.hostile(out)


def fraction(t, th, rg):
    f = np.where(t < th, 1.0, 0.0) if rg == 0 else np.clip(0.5 - (t - th) / rg, 0, 1)
    return np.where(np.isnan(t), 0.0, f)


def run(job, ctx):
    spec = job["spec"]
    sc = Scenario(ctx.workdir, spec)
    if spec.get("cold_bottom"):  # inversions: the lower stations are colder
        for st in sc.stations:
            df = sc.forcing[st["id"]]
            df["temp"] = np.clip(df["temp"].mean(), 268, 277) + (df["temp"] - df["temp"].mean()) * 0.4 + 0.012 * (st["alt"] - 1900)
    elif spec["seed"] % 3:
        for df in sc.forcing.values():
            df["temp"] = 274.2 + (df["temp"] - df["temp"].mean()) * 0.4
    if spec.get("mix"):  # frequent precipitation around the threshold temperature
        r2 = np.random.default_rng(spec["seed"] + 9)
        for df in sc.forcing.values():
            th = spec["config"]["meteo"]["precipitation_phase"]["threshold_temp"]
            df["temp"] = np.where(np.isnan(df["temp"]), np.nan, th + 0.3 + 0.5 * (df["temp"] - df["temp"].mean()).clip(-6, 6))
            wet = (r2.random(len(df)) < 0.5) & ~np.isnan(df["precip"])
            df.loc[wet, "precip"] = np.round(r2.uniform(0.2, 4, wet.sum()), 2)
    ds = sc.dataset()
    raw = {v: ds[v].transpose("time", "station").values.astype(float).copy() for v in ("temp", "rel_hum", "wind_speed", "precip")}
    m = sc.model()
    m.initialize(meteo=ds)
    cfg = m.config.meteo
    pp = cfg.precipitation_phase
    ctx.check(np.array_equal(ds["precip"].transpose("time", "station").values, raw["precip"], equal_nan=True), "input-modified", "the passed forcing dataset is modified")
    X, Y, Z = (m.meteo[k].values.astype(float) for k in ("x", "y", "alt"))
    got = m.meteo["precip"].transpose("time", "station").values
    t, rh, u, p = (raw[v].copy() for v in ("temp", "rel_hum", "wind_speed", "precip"))
    chain = [c for c in cfg.precipitation_correction if c["method"] != "srf"]
    filled = np.zeros(p.shape, bool)
    if chain:
        for i, d in enumerate(pd.DatetimeIndex(ds.time.values)):
            if not (p[i] > 0).any():
                continue
            for arr, kind, cn, clip in ((t, "temp", "temperature", (0, None)), (rh, "rel_hum", "humidity", (0, 100)), (u, "wind_speed", "wind", (0.1, None))):
                nan = np.isnan(arr[i])
                if nan.any() and not nan.all():
                    kw = {}
                    g = ~nan
                    if kind == "rel_hum":
                        kw = dict(temps=t[i, g], ttemps=t[i, nan])
                    v = i01.interp(kind, cfg.interpolation[cn], d.month, arr[i, g], X[g], Y[g], Z[g], X[nan], Y[nan], Z[nan], clip=clip, **kw)
                    arr[i, nan] = v
                    filled[i, nan] = True
        # dates without any precipitation are irrelevant
        if pp.method == "temp":
            pt = t
        else:
            dd = a01.derived(t, rh, Z[None])
            pt = np.where(np.isnan(dd["vap_press"]), np.nan, a01.wet_bulb(t, dd["vap_press"], dd["psych_const"]))
        sf = fraction(pt, pp.threshold_temp, pp.temp_range)
        # near a threshold the iterative wet-bulb temperature decides: not judged there
        edge = np.zeros(p.shape, bool)
        tolsf = 0.0
        if pp.method != "temp":
            for b in (pp.threshold_temp - pp.temp_range / 2, pp.threshold_temp + pp.temp_range / 2):
                edge |= np.abs(pt - b) < 0.03
            tolsf = 0.03 / pp.temp_range if pp.temp_range else 0
        pos = p > 0
        snow, mixed = pos & (sf == 1), pos & (sf > 0) & (sf < 1)
        ok_edge = ~edge
        fac = np.ones(p.shape)
        tol = np.zeros(p.shape)
        for c in chain:
            with np.errstate(all="ignore"):
                if c["method"] == "constant_scf":
                    f = 1 + sf * (c["scf"] - 1)
                    tol += np.where(mixed, tolsf * abs(c["scf"] - 1) * 1.3, 0)
                    ctx.event("scf", (pos & (sf > 0)).sum())
                elif c["method"] == "wmo":
                    z0 = m.config.snow.roughness_length
                    u2 = np.minimum(u * np.log(cfg.measurement_height.temperature / z0) / np.log(cfg.measurement_height.wind / z0), 7)
                    tc = t - T0
                    cs, cm = {"nipher": (100 - 0.44 * u2**2 - 1.98 * u2, 97.29 - 3.18 * u2 - 0.09 * tc),
                              "tretyakov": (103.11 - 8.67 * u2 + 0.30 * tc, 96.99 - 4.46 * u2 + 1.10 * tc),
                              "us_sh": (np.exp(4.61 - 0.04 * u2**1.75), 101.04 - 5.62 * u2),
                              "us_unsh": (np.exp(4.61 - 0.16 * u2**1.28), 100.77 - 8.34 * u2),
                              "hellmann": (100 + 1.13 * u2**2 - 19.45 * u2, 96.63 + 0.41 * u2**2 - 9.84 * u2 + 5.95 * tc)}[c["gauge"]]
                    f = np.where(snow, 100 / cs, np.where(mixed, 100 / cm, 1.0))
                    ctx.event("wmo_snow", (snow & np.isfinite(f)).sum()); ctx.event("wmo_mixed", (mixed & np.isfinite(f)).sum()); ctx.event("mixed_" + c["gauge"], (mixed & ok_edge & np.isfinite(f)).sum())
                else:
                    a, b, cc, um = KOCH[c["gauge"]]
                    f = np.where(pos, np.exp(a * np.minimum(u, um) * (1 - np.arctan(b * (t - T0)) + cc)), 1.0)
                    ctx.event("kochendorfer", (pos & np.isfinite(f)).sum())
            if c["method"] != "constant_scf" and np.isnan(u).all():
                ctx.event("no_wind")
            fac *= np.where(np.isnan(f), 1.0, f)
        ctx.event("chain", len(chain) > 1)
        want = p * fac
        ok = ~edge | ~pos
        ok &= np.isfinite(fac)
        bad = ok & ~(np.abs(got - want) <= np.abs(want) * (tol + 1e-7) + 1e-9) & ~(np.isnan(got) & np.isnan(want))
        ctx.ok(ok.sum())
        if bad.any():
            i, j = np.argwhere(bad)[0]
            ctx.violation("station-correction", f"corrected station precipitation {got[i, j]:.5f} instead of {want[i, j]:.5f} (raw {p[i, j]:.4f}, {chain})")
        ctx.event("filled_station", (filled & pos).sum())
    else:
        ctx.check_close(got, p, "station-untouched", "station precipitation changed without a correction")
    ctx.event("station", p.size)
    # -- phase in the model
    roi = m.grid.roi
    dem = m.state.base.dem[roi]
    srf = sc.srf[roi] if sc.srf is not None and spec.get("srf") else None
    Zs = m.meteo["alt"].values.astype(float)
    for k, (pre, post) in enumerate(trace.iterate(m, ("meteo",))):
        w = f"at {m.date}"
        M = lambda v: post[f"meteo.{v}"][roi]
        row = got[k]
        g = np.isfinite(row)
        base = i01.interp("precip", cfg.interpolation.precipitation, m.date.month, row[g], X[g], Y[g], Zs[g], m.grid.roi_points[:, 0], m.grid.roi_points[:, 1], dem, clip=(0, None)) if g.any() else np.zeros(len(dem))
        tt = M("temp") if pp.method == "temp" else M("wet_bulb_temp")
        f = fraction(tt, pp.threshold_temp, pp.temp_range)
        if pp.enforce_no_snow_below_rain and (f == 0).any():
            top = dem[f == 0].max()
            ctx.event("enforced", ((dem <= top) & (f > 0) & (base > 0)).sum())
            f = np.where(dem <= top, 0.0, f)
        snow, rain = f * base, (1 - f) * base
        if srf is not None:
            snow = snow * srf
            ctx.event("srf", (snow > 0).sum())
        ctx.check_close(M("snowfall"), snow, "snowfall", f"snowfall {w}", rtol=1e-6, atol=1e-7)
        ctx.check_close(M("rainfall"), rain, "rainfall", f"rainfall {w}", rtol=1e-6, atol=1e-7)
        ctx.check_close(M("precip"), M("snowfall") + M("rainfall"), "phase-conservation", f"snowfall and rainfall do not sum to precipitation {w}", rtol=1e-9, atol=1e-10)
        ctx.check((M("snowfall") >= 0).all() and (M("rainfall") >= 0).all(), "phase-negative", f"negative precipitation {w}")
        ctx.event("snow", ((f == 1) & (base > 0)).sum()); ctx.event("rain", ((f == 0) & (base > 0)).sum()); ctx.event("mixed", ((f > 0) & (f < 1) & (base > 0)).sum())
        ctx.event("conservation", len(base)); ctx.event("zero_range", (pp.temp_range == 0) * (base > 0).sum()); ctx.event("missing", np.isnan(tt).sum())
    ctx.state(pp.method, pp.temp_range, tuple(c["method"] + str(c.get("gauge")) for c in chain), pp.enforce_no_snow_below_rain, srf is not None)
