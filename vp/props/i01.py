"""I01: station interpolation."""
import copy

import numpy as np
import pandas as pd

from vp import ref, trace, workloads
from vp.scenario import Scenario

RULE = ("full meteorological preprocessing runs with random station networks; one evaluation = one interpolated value compared "
        "with an independent detrend/IDW/retrend evaluation of the station data; distinct = (parameter, trend method, "
        "extrapolation, number of stations with data, month)")
REQUIRED = {"temp": 2000, "precip": 2000, "rel_hum": 2000, "wind_speed": 2000, "no_data": 50, "single_station": 100,
            "clipped_range": 100, "exact_hit": 5, "month_change": 2, "fractional": 200, "adjustment_factor": 200, "fixed": 300,
            "equal_elevation": 20, "liston": 300, "piecewise_two": 5, "idw": 300, "absent_station": 3, "permuted": 3, "gust": 200, "liston_gust": 100}
T0 = ref.T0


def jobs(tier, seed):
    rng = np.random.default_rng([seed, 13])
    n = 24 if tier == "quick" else 100
    out = []
    for i in range(n):
        start = ["2020-01-30 12:00", "2020-04-29 12:00", "2020-07-30 12:00", "2020-10-30 12:00", "2020-12-30 12:00"][i % 5]
        lr = [float(v) for v in np.round(rng.uniform(-0.009, -0.001, 12), 5)]
        plr = [float(v) for v in np.round(rng.uniform(-0.0002, 0.0006, 12), 6)]
        c = {
            "temperature": {"trend_method": ["regression", "fixed"][i % 2], "extrapolate": bool((i // 2) % 2), "lapse_rate": lr},
            "precipitation": {"trend_method": ["regression", "adjustment_factor", "fractional"][i % 3], "extrapolate": bool((i // 3) % 2), "lapse_rate": plr},
            "humidity": {"trend_method": ["fixed", "regression"][(i // 2) % 2], "extrapolate": bool(i % 2), "lapse_rate": lr[::-1]},
            "wind": {"method": "liston" if i % 4 == 3 else "idw", "trend_method": ["regression", "fixed"][(i // 3) % 2], "extrapolate": bool((i // 4) % 2),
                     "lapse_rate": [float(v) for v in np.round(rng.uniform(-0.001, 0.002, 12), 5)], "curvature_length_scale": float([100, 200, 1750][i % 3]),
                     "slope_weight": float([0.58, 0.3][i % 2]), "curvature_weight": float([0.42, 0.7][(i // 2) % 2])},
        }
        if i % 5 == 4:
            c["temperature"]["regression_params"] = {"max_segments": 3}
            if c["temperature"]["trend_method"] == "regression":
                c["temperature"]["trend_method"] = "fixed"
        nst = [4, 1, 6, 2, 9, 3][i % 6]
        s = dict(seed=int(rng.integers(1, 2**31)), start=start, end=str(pd.Timestamp(start) + pd.Timedelta(hours=3 * 25)), timestep="3h",
                 rows=6, cols=7, res=[50, 100][i % 2], dem=["rough", "peak", "plane", "valley"][i % 4], num_stations=nst, stations_in_roi=False,
                 missing=[0.0, 0.3, 0.6, 0.1][i % 4], regime="alpine", blackout=[3], snap=(i % 3 == 0), flat_stations=(i % 7 == 5), gust=(i % 2 == 0 or i % 8 == 3),
                 drops=[[], ["temp"], ["rel_hum"]] if i % 3 == 1 else [],
                 config={"snow": {"model": "cryolayers"}, "meteo": {"interpolation": c, "precipitation_phase": {"method": "temp"}}})
        out.append({"spec": s, "twin": ["absent", "permuted"][i % 2] if nst >= 3 else None})
    out += [{"idw": int(rng.integers(1, 2**31)), "n": 120 if tier == "quick" else 400} for _ in range(3)]
    out += [{"pw": int(rng.integers(1, 2**31))} for _ in range(4 if tier == "quick" else 16)]
    return out


def idw(xs, ys, v, tx, ty, power=2.0, smoothing=0.0):
    d = np.sqrt((tx[:, None] - xs[None]) ** 2 + (ty[:, None] - ys[None]) ** 2 + smoothing**2)
    with np.errstate(all="ignore"):
        w = d**-power
        r = (w * v).sum(1) / w.sum(1)
    for i in np.flatnonzero((d == 0).any(1)):
        r[i] = v[np.flatnonzero(d[i] == 0)[0]]
    return r


def slope(z, v):
    z, v = np.asarray(z, float), np.asarray(v, float)
    zc = z - z.mean()
    return float((zc * (v - v.mean())).sum() / (zc**2).sum()) if len(np.unique(z)) > 1 else 0.0


def dewpoint(t, rh):
    """Inverse of the Magnus formula over water."""
    e = ref.es_water(t) * rh / 100
    x = np.log(e / 610.78)
    return T0 + 234.18 * x / (17.08 - x)


def interp(kind, c, month, v, xs, ys, zs, tx, ty, tz, temps=None, ttemps=None, clip=(None, None)):
    lr = c["lapse_rate"][month - 1]
    src = v
    if kind == "rel_hum":
        v = dewpoint(temps, v)
    if c["trend_method"] == "adjustment_factor":
        dz = tz - idw(xs, ys, zs, tx, ty)
        r = idw(xs, ys, v, tx, ty) * (1 + lr * dz) / (1 - lr * dz)
    else:
        if c["trend_method"] == "regression":
            lr = slope(zs, v)
        elif c["trend_method"] == "fractional":
            lr = lr * v.mean()
        r = idw(xs, ys, v - lr * zs, tx, ty) + lr * tz
    if kind == "rel_hum":
        r = 100 * ref.es_water(r) / ref.es_water(ttemps)
    if not c["extrapolate"]:
        r = np.clip(r, src.min(), src.max())
    if clip[0] is not None:
        r = np.maximum(r, clip[0])
    if clip[1] is not None:
        r = np.minimum(r, clip[1])
    return r


def run_idw(job, ctx):
    from openamundsen.interpolation import idw as real

    rng = np.random.default_rng(job["idw"])
    for _ in range(job["n"]):
        n, t = int(rng.integers(1, 9)), int(rng.integers(1, 30))
        xs, ys = rng.uniform(0, 5000, n), rng.uniform(0, 5000, n)
        v = rng.normal(0, 10, n)
        tx, ty = rng.uniform(0, 5000, t), rng.uniform(0, 5000, t)
        if rng.random() < 0.4:
            k = int(rng.integers(0, n))
            tx[0], ty[0] = xs[k], ys[k]
        p, sm = float(rng.choice([2.0, 1.0, 3.0, 0.5])), float(rng.choice([0.0, 0.0, 100.0]))
        vv = v.copy()
        if rng.random() < 0.4:
            vv[rng.random(n) < 0.4] = np.nan
        g = np.isfinite(vv)
        cp = [a.copy() for a in (xs, ys, vv, tx, ty)]
        got = real(xs, ys, vv, tx, ty, power=p, smoothing=sm)
        ctx.check(all(np.array_equal(a, b, equal_nan=True) for a, b in zip((xs, ys, vv, tx, ty), cp)), "idw-inputs", "interpolation modifies its inputs")
        if not g.any():
            ctx.check(np.isnan(got).all() and got.shape == tx.shape, "idw-empty", "interpolation without points is not NaN")
        else:
            want = idw(xs[g], ys[g], vv[g], tx, ty, p, sm)
            ctx.check_close(got, want, "idw", f"inverse distance weighting (power {p}, smoothing {sm}, {g.sum()} points)", rtol=1e-9)
            ctx.check((got >= vv[g].min() - 1e-9).all() and (got <= vv[g].max() + 1e-9).all(), "idw-range", "interpolated value outside the range of the points")
        ctx.event("idw")
        ctx.state("idw", n, p, sm)


def run_pw(job, ctx):
    """Noise-free stations on a kinked profile: the piecewise regression has to reproduce it."""
    from openamundsen import meteo

    rng = np.random.default_rng(job["pw"])
    for _ in range(4):
        n = int(rng.integers(12, 18))
        zs = np.sort(rng.uniform(1000, 3000, n))
        kink = float(np.sort(zs)[n // 2] + 3.0)
        f = lambda z: 283 + np.where(z < kink, 0.004 * (z - kink), -0.0075 * (z - kink))
        xs, ys = rng.uniform(0, 1e4, n), rng.uniform(0, 1e4, n)
        v = f(zs) + rng.normal(0, 0.01, n)
        tx, ty, tz = rng.uniform(0, 1e4, 25), rng.uniform(0, 1e4, 25), rng.uniform(1000, 3000, 25)
        cfg = dict(trend_method="regression", lapse_rate=[np.nan] * 12, extrapolate=True,
                   regression_params=dict(max_segments=3, min_points_per_segment=4, delta_aic_threshold=7.0))
        r, p = meteo.interpolate_param("temp", pd.Timestamp("2020-02-01"), cfg, v, xs, ys, zs, tx, ty, tz)
        ctx.check_close(r, f(tz), "piecewise", "piecewise regression does not reproduce a kinked profile", rtol=0, atol=0.25)
        ctx.event("piecewise_two")
        # a single-segment limit and too few points must reduce to the linear regression
        cfg1 = copy.deepcopy(cfg)
        cfg1["regression_params"].update(min_points_per_segment=n)
        r1, _ = meteo.interpolate_param("temp", pd.Timestamp("2020-02-01"), cfg1, v, xs, ys, zs, tx, ty, tz)
        want = idw(xs, ys, v - slope(zs, v) * zs, tx, ty) + slope(zs, v) * tz
        ctx.check_close(r1, want, "piecewise-single", "piecewise regression with too few points per segment", rtol=0, atol=1e-3)
        # purely linear noisy data: no extra segments are justified
        v2 = 280 - 0.006 * (zs - 2000) + 0.3 * np.sin(np.arange(n) * 2.4)
        r2, _ = meteo.interpolate_param("temp", pd.Timestamp("2020-02-01"), dict(cfg, regression_params=dict(max_segments=2, min_points_per_segment=4, delta_aic_threshold=50.0)), v2, xs, ys, zs, tx, ty, tz)
        want = idw(xs, ys, v2 - slope(zs, v2) * zs, tx, ty) + slope(zs, v2) * tz
        ctx.check_close(r2, want, "piecewise-aic", "extra segments without the required improvement", rtol=0, atol=1e-3)
        ctx.state("pw", n)


def run(job, ctx):
    if "idw" in job:
        return run_idw(job, ctx)
    if "pw" in job:
        return run_pw(job, ctx)
    spec = job["spec"]
    sc = Scenario(ctx.workdir, spec)
    rng = np.random.default_rng(spec["seed"] + 7)
    if spec.get("flat_stations"):
        for st in sc.stations:
            st["alt"] = 1900.0
    if spec.get("gust"):
        for df in sc.forcing.values():
            df["wind_speed_gust"] = df["wind_speed"] * rng.uniform(1.1, 3.0, len(df))
    ds = sc.dataset()
    m = sc.model()
    m.initialize(meteo=ds)
    if spec.get("snap"):  # a station exactly on a pixel centre
        pts = m.grid.roi_points
        k = len(pts) // 2
        m.meteo["x"].values[0], m.meteo["y"].values[0] = pts[k]
    mc = m.config.meteo.interpolation
    roi = m.grid.roi
    dem = m.state.base.dem[roi]
    xr_, yr_ = np.meshgrid(np.arange(sc.cols), np.arange(sc.rows))
    from vp.scenario import X0, Y0
    tx = (X0 + (xr_ + 0.5) * sc.res)[roi]
    ty = (Y0 + (sc.rows - 1 - yr_ + 0.5) * sc.res)[roi]
    X, Y, Z = (m.meteo[k].values.astype(float) for k in ("x", "y", "alt"))
    twin = None
    if job.get("twin"):
        sel = {"absent": ds.station.values[:-1], "permuted": ds.station.values[::-1]}[job["twin"]]
        ds2 = ds.sel(station=list(sel)).copy(deep=True)
        if job["twin"] == "absent":
            ds1 = ds.copy(deep=True)
            for v in ds1.data_vars:
                if "time" in ds1[v].dims:
                    a = ds1[v].transpose("station", "time").values.copy()
                    a[-1] = np.nan
                    ds1[v] = (("station", "time"), a)
        else:
            ds1 = ds
        ta, tb = sc.model(), sc.model()
        ta.initialize(meteo=ds1)
        tb.initialize(meteo=ds2)
        twin = (ta, tb)
    prev_month = None
    for i, date in enumerate(m.dates):
        m.run_single()
        w = f"at {date}"
        month = date.month
        if prev_month not in (None, month):
            ctx.event("month_change")
        prev_month = month
        row = {v: m.meteo[v].transpose("station", "time").values[:, i].astype(float) for v in ("temp", "precip", "rel_hum", "wind_speed", "wind_dir") + (("wind_speed_gust",) if spec.get("gust") else ())}
        S = {v: m.state.meteo[v][roi] for v in ("temp", "precip", "rel_hum", "wind_speed")}
        args = (tx, ty, dem)

        def one(kind, cfgname, data, extra=None, clip=(0, None), **kw):
            g = np.isfinite(data) if extra is None else np.isfinite(data) & np.isfinite(extra)
            if not g.any():
                ctx.event("no_data", len(tx))
                return np.zeros(len(tx)) if kind == "precip" else np.full(len(tx), np.nan)
            c = mc[cfgname]
            if kind == "rel_hum":
                kw = dict(temps=extra[g], ttemps=S["temp"])
            ctx.event("single_station", (g.sum() == 1) * len(tx))
            ctx.event(c["trend_method"], len(tx))
            ctx.event("equal_elevation", (g.sum() > 1 and len(np.unique(Z[g])) == 1) * len(tx))
            ctx.event("clipped_range", (not c["extrapolate"]) * len(tx))
            ctx.state(kind, c["trend_method"], c["extrapolate"], int(g.sum()), month)
            return interp(kind, c, month, data[g], X[g], Y[g], Z[g], *args, clip=clip, **kw)

        for kind, cfgname, extra, clip in (("temp", "temperature", None, (0, None)), ("precip", "precipitation", None, (0, None)),
                                           ("rel_hum", "humidity", row["temp"], (0, 100)), ("wind_speed", "wind", None, (0.1, None))):
            if kind == "wind_speed" and mc.wind.method == "liston":
                continue
            want = one(kind, cfgname, row[kind], extra, clip)
            ctx.check_close(S[kind], want, f"interp-{kind}", f"interpolated {kind} {w}", rtol=1e-7, atol=1e-7)
            ctx.event(kind, len(tx))
        if mc.wind.method == "idw" and spec.get("gust"):
            ctx.check_close(m.state.meteo.wind_speed_gust[roi], one("wind_speed", "wind", row["wind_speed_gust"], None, (0.1, None)), "interp-gust", f"interpolated gust speed {w}", rtol=1e-7, atol=1e-7)
            ctx.event("gust", len(tx))
        if mc.wind.method == "liston":
            for v in ("wind_speed", "wind_speed_gust") if spec.get("gust") else ("wind_speed",):
                g = np.isfinite(row[v]) & np.isfinite(row["wind_dir"])
                if not g.any():
                    ctx.check(np.isnan(m.state.meteo[v][roi]).all(), "liston-nodata", f"wind without data {w}")
                    continue
                th = np.deg2rad(row["wind_dir"][g])
                u = one("wind_vec", "wind", np.where(g, -row[v] * np.sin(np.deg2rad(row["wind_dir"])), np.nan), None, (None, None))
                vv = one("wind_vec", "wind", np.where(g, -row[v] * np.cos(np.deg2rad(row["wind_dir"])), np.nan), None, (None, None))
                sp = np.hypot(u, vv)
                if np.nanmin(sp) < 1e-5:
                    continue  # the direction of calm air is undefined
                dr = np.arctan2(-u, -vv)
                da = dr - np.deg2rad(m.state.base.aspect[roi])
                ws = np.deg2rad(m.state.base.slope[roi]) * np.cos(da)
                lo, hi = np.nanmin(ws), np.nanmax(ws)
                sw = (ws - lo) / (hi - lo) - 0.5 if hi > lo else np.where(np.isnan(ws), np.nan, 0.0)
                fac = 1 + mc.wind.slope_weight * sw + mc.wind.curvature_weight * m.state.base.scaled_curvature[roi]
                ctx.check_close(m.state.meteo[v][roi], np.maximum(sp * fac, 0.1), f"liston-{v}", f"terrain-modified {v} {w}", rtol=1e-6, atol=1e-7)
                ctx.event("liston", len(tx)); ctx.event("liston_gust", len(tx) * (v != "wind_speed"))
                if v == "wind_speed":
                    diff = (m.state.meteo.wind_dir[roi] - np.rad2deg(dr) + 180) % 360 - 180
                    ok = np.isfinite(diff) & (sp > 1e-6)
                    ctx.check((np.abs(diff[ok]) <= 14.4).all(), "liston-dir", f"wind direction is diverted by more than 14.4 degrees {w}")
                    ctx.check(((m.state.meteo.wind_dir[roi][ok] >= 0) & (m.state.meteo.wind_dir[roi][ok] < 360.0001)).all(), "liston-dir-range", f"wind direction outside 0-360 {w}")
        if spec.get("snap") and mc.temperature.trend_method in ("fixed", "regression") and np.isfinite(row["temp"][0]):
            ctx.event("exact_hit")
        # metamorphic: station order and stations without data do not matter
        if twin:
            for t in twin:
                t.run_single()
            for v in S:
                ctx.check_close(twin[1].state.meteo[v][roi], twin[0].state.meteo[v][roi], f"twin-{job['twin']}-{v}", f"{v} depends on {job['twin']} stations {w}", rtol=1e-7, atol=1e-6)
            ctx.event("absent_station" if job["twin"] == "absent" else "permuted")
