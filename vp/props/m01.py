"""M01: the forcing data reaches the model as provided (formats, units, filters, station rules, resampling)."""
import copy

import numpy as np
import pandas as pd

from vp import trace
from vp.scenario import CRS, X0, Y0, Scenario, deep_update

RULE = ("station files (CSV/netCDF) with random periods, gaps, units, resolutions and station rules are read by the real model; the resulting forcing "
        "dataset is compared with an independent evaluation of the raw records; short runs with all formats (incl. memory and callback) are compared "
        "with each other; one evaluation = one forcing value; distinct = (format, source and model resolution, aggregation, variable, period kind)")
REQUIRED = {"station": 60, "excluded": 10, "value": 6000, "filtered": 100, "bin_incomplete": 10, "bin_nan": 100, "precip_nan_bin": 20, "daily": 300, "aggregated": 1000,
            "instantaneous": 1000, "gust": 200, "wind_dir_mean": 300, "rate": 250, "rejected": 16, "equal_runs": 6, "callback": 2, "late": 8, "early": 8, "outside_period": 4,
            "cloud_percent": 100, "same_freq": 500, "border": 4, "outside_grid": 8, "outside_roi": 5, "one_station_missing_var": 5, "non_midnight": 4, "api_station": 20, "api_value": 2000, "api_rejected": 30}
VARS = ["temp", "precip", "rel_hum", "sw_in", "wind_speed", "wind_speed_gust", "wind_dir", "cloud_fraction"]
UNITS = {"temp": "K", "precip": "kg m-2", "rel_hum": "%", "sw_in": "W m-2", "wind_speed": "m s-1", "wind_speed_gust": "m s-1", "wind_dir": "degree", "cloud_fraction": "%"}
NC = {"temp": "tas", "precip": "pr", "rel_hum": "hurs", "sw_in": "rsds", "wind_speed": "wss"}
DEFAULT_FILTERS = {"temp": (200, 330), "rel_hum": (1, 100), "precip": (0, None), "wind_speed": (0, 50), "sw_in": (0, 1600)}


def jobs(tier, seed):
    rng = np.random.default_rng([seed, 22])
    n = 44 if tier == "quick" else 300
    out = []
    combos = [("h", "h"), ("h", "3h"), ("10min", "h"), ("30min", "2h"), ("h", "D"), ("3h", "6h"), ("h", "1D"), ("10min", "3h"), ("3h", "24h"), ("D", "D"), ("h", "12h"), ("15min", "15min"), ("6h", "D"), ("D", "24h")]
    for i in range(n):
        src, dst = combos[i % len(combos)]
        out.append({"kind": "read", "seed": int(rng.integers(1, 2**31)), "src": src, "dst": dst, "agg": bool((i // 2) % 2), "format": ["csv", "netcdf"][(i // len(combos) + i) % 2], "i": i})
    for i in range(6 if tier == "quick" else 24):
        out.append({"kind": "equal", "seed": int(rng.integers(1, 2**31)), "i": i})
    for i in range(2 if tier == "quick" else 8):
        out.append({"kind": "reject", "seed": int(rng.integers(1, 2**31)), "i": i})
    for i in range(6 if tier == "quick" else 40):
        out.append({"kind": "api", "seed": int(rng.integers(1, 2**31)), "i": i})
    for i in range(2 if tier == "quick" else 8):
        out.append({"kind": "callback", "seed": int(rng.integers(1, 2**31)), "i": i})
    return out


def td(f):
    return pd.Timedelta(f if f[0].isdigit() else "1" + f)


def raw_data(rng, idx):
    n = len(idx)
    df = pd.DataFrame({
        "temp": rng.uniform(250, 300, n), "precip": np.where(rng.random(n) < 0.5, 0, rng.gamma(1.2, 1.0, n)), "rel_hum": rng.uniform(5, 100, n),
        "sw_in": rng.uniform(0, 1000, n), "wind_speed": rng.gamma(2, 2, n), "wind_speed_gust": rng.gamma(3, 3, n), "wind_dir": rng.uniform(0, 360, n),
        "cloud_fraction": rng.uniform(0, 100, n)}, index=idx)
    df.index.name = "time"
    return df


def write_nc(path, df, name, lon, lat, alt, rate, step, cloud_unit):
    import xarray as xr

    ds = xr.Dataset({"lon": lon, "lat": lat, "alt": alt}, coords={"time": df.index.values}, attrs={"station_name": name})
    for v in df.columns:
        a, u = df[v].values, UNITS[v]
        if v == "precip" and rate:
            a, u = a / step.total_seconds(), "kg m-2 s-1"
        if v == "cloud_fraction" and cloud_unit == "1":
            a, u = a / 100, "1"
        at = {"units": u} if not (v == "cloud_fraction" and cloud_unit == "none") else {}
        if v == "cloud_fraction" and cloud_unit == "none" and len(df) > 10:  # (only recognised for longer series)
            a = a / 100
        ds[NC.get(v, v)] = ("time", a, at)
    ds.to_netcdf(path)


def reference(df, dates, f, F, agg, ctx, tag):
    """Independent evaluation for one station: {var: (values, judged)}."""
    res = {}
    n = int(f / F)
    day = f == pd.Timedelta("24h")
    first, last = df.index[0], df.index[-1]
    pos = {t: k for k, t in enumerate(df.index)}
    for v in df.columns:
        a = df[v].values
        out = np.full(len(dates), np.nan)
        ok = np.ones(len(dates), bool)
        for j, t in enumerate(dates):
            if n == 1:
                if t in pos:
                    out[j] = a[pos[t]]
                ctx.event("same_freq")
                continue
            t0 = t if day else t - f
            recs = [pos[t0 + F * (q + 1)] for q in range(n) if (t0 + F * (q + 1)) in pos]
            if not recs:
                continue
            if len(recs) < n or (day and t < first) or t > last:
                ok[j] = False  # interval only partly covered by records
                ctx.event("bin_incomplete")
                continue
            x = a[recs]
            ctx.event("bin_nan", np.isnan(x).any())
            if v == "precip":
                out[j] = x.sum()
                ctx.event("precip_nan_bin", np.isnan(x).any())
            elif v == "wind_speed_gust":
                out[j] = np.nanmax(x) if np.isfinite(x).any() else np.nan
                ctx.event("gust")
            elif not (agg or day):
                out[j] = a[pos[t]]
                ctx.event("instantaneous")
            elif v == "wind_dir":
                if "wind_speed" not in df:
                    continue
                w = df["wind_speed"].values[recs]
                uu, vv = -w * np.sin(np.deg2rad(x)), -w * np.cos(np.deg2rad(x))
                g = np.isfinite(uu)
                if g.any():
                    out[j] = np.rad2deg(np.arctan2(-uu[g].mean(), -vv[g].mean())) % 360
                    ctx.event("wind_dir_mean")
            else:
                out[j] = np.nanmean(x) if np.isfinite(x).any() else np.nan
                ctx.event("aggregated")
            if day:
                ctx.event("daily")
        res[v] = (out, ok)
    return res


def run_read(job, ctx):
    import openamundsen as oa
    import pyproj

    rng = np.random.default_rng(job["seed"])
    src, dst, agg, fmt = job["src"], job["dst"], job["agg"], job["format"]
    F, f = td(src), td(dst)
    day = f >= pd.Timedelta("24h")
    start = pd.Timestamp("2020-02-27") + (pd.Timedelta(0) if day else int(rng.integers(0, 8)) * max(F, pd.Timedelta("1h")))
    ctx.event("non_midnight", start != start.normalize())
    steps = 7 if day else int(rng.integers(10, 30))
    end = start + f * (steps - 1)
    sc = Scenario(ctx.workdir, dict(seed=job["seed"], start=str(start), end=str(end), timestep=dst, num_stations=1, rows=6, cols=7, roi_frac=0.6))
    nst = int(rng.integers(3, 7))
    meteo_crs = ["epsg:32632", "epsg:31254", "epsg:4326", None][int(rng.integers(0, 4))]
    tr_ll = pyproj.Transformer.from_crs(CRS, "epsg:4326", always_xy=True)
    tr_m = pyproj.Transformer.from_crs(CRS, meteo_crs or CRS, always_xy=True)
    bounds = [None, "global", "list"][int(rng.integers(0, 3))]
    W, H = sc.cols * sc.res, sc.rows * sc.res
    blist = [X0 - 300.0, Y0 - 300.0, X0 + W * 0.6, Y0 + H + 400.0]
    filters = None
    if rng.random() < 0.6:
        filters = [{"var": "temp", "filter": "range", "min": 255, "max": 296}, {"var": "wind_speed", "filter": "range", "max": 8.0},
                   {"var": "rel_hum", "filter": "range", "min": 20.0}, {"var": "precip", "filter": "range", "max": 3.0}]
        filters = filters[: int(rng.integers(1, 5))]
    rate = fmt == "netcdf" and rng.random() < 0.7
    cloud_unit = ["%", "1", "none"][int(rng.integers(0, 3))] if fmt == "netcdf" else "%"
    cov0 = start - pd.Timedelta("3D")
    cov1 = end + pd.Timedelta("3D")
    full = pd.date_range(start - F * int(pd.Timedelta("3D") / F), cov1, freq=F)
    stations, metas = {}, []
    for k in range(nst):
        inside = rng.random() < 0.7 or k == 0
        if inside:
            r, c = int(rng.integers(0, sc.rows)), int(rng.integers(0, sc.cols))
            x = X0 + (c + rng.uniform(0.05, 0.95)) * sc.res
            y = Y0 + (sc.rows - 1 - r + rng.uniform(0.05, 0.95)) * sc.res
        else:
            x, y = X0 + rng.choice([-250.0, W + 150.0]), Y0 + rng.uniform(0.1, 0.9) * H
            if rng.random() < 0.5:
                x, y = X0 + rng.uniform(0.1, 0.9) * W, Y0 + rng.choice([-250.0, H + 150.0])
        alt = float(np.round(rng.uniform(1500, 3000), 1))
        df = raw_data(rng, full)
        # missing values and values that the filters remove
        for v in VARS:
            df.loc[rng.random(len(df)) < 0.08, v] = np.nan
        df.loc[rng.random(len(df)) < 0.02, "temp"] = rng.choice([150.0, 340.0, -9999.0])
        df.loc[rng.random(len(df)) < 0.02, "rel_hum"] = rng.choice([0.5, 105.0])
        df.loc[rng.random(len(df)) < 0.02, "wind_speed"] = rng.choice([-1.0, 77.0])
        df.loc[rng.random(len(df)) < 0.02, "precip"] = -1.0
        df.loc[rng.random(len(df)) < 0.02, "sw_in"] = -5.0
        drop = [v for v in VARS if rng.random() < 0.12]
        if "wind_speed" in drop and "wind_dir" not in drop:
            drop.append("wind_dir")
        if fmt == "csv":
            drop.append("cloud_fraction")
        df = df.drop(columns=drop)
        ctx.event("one_station_missing_var", bool(drop))
        kind = ["full", "full", "late", "early", "outside", "part"][int(rng.integers(0, 6))] if k else "full"
        if kind in ("late", "part"):
            df = df.loc[start + F * int(rng.integers(1, max(2, int((end - start) / F) - 3))):]
            ctx.event("late")
        if kind in ("early", "part"):
            e = end - F * int(rng.integers(1, max(2, int((end - start) / F) // 2)))
            if kind == "part":
                e = df.index[0] + F * max(3, len(df) // 3)
            df = df.loc[:e]
            ctx.event("early")
        if kind == "outside":
            if rng.random() < 0.5:
                df = df.loc[: start - F * int(rng.integers(1, 4))]
            else:
                df = df.loc[end + f + F * int(rng.integers(0, 4)) :]
            ctx.event("outside_period")
        if len(df) < 3:
            df = raw_data(rng, full)
            kind = "full"
        sid = f"s{k:02d}"
        lon, lat = tr_ll.transform(x, y)
        stations[sid] = dict(df=df, x=x, y=y, alt=alt, lon=lon, lat=lat, kind=kind)
        mx, my = tr_m.transform(x, y)
        metas.append(f"{sid},Name {k},{float(mx)!r},{float(my)!r},{alt!r}")
        if fmt == "csv":
            df.to_csv(sc.meteo_dir / f"{sid}.csv", float_format="%.17g")
        else:
            write_nc(sc.meteo_dir / f"{sid}.nc", df, f"Name {k}", lon, lat, alt, rate, F, cloud_unit)
    if fmt == "csv":
        (sc.meteo_dir / "stations.csv").write_text("id,name,x,y,alt\n" + "\n".join(metas) + "\n")
    ids = list(stations)
    exclude = [s for s in ids[1:] if rng.random() < 0.25]
    include = [s for s in ids[1:] if rng.random() < 0.25]
    bx = {None: [X0, Y0, X0 + W, Y0 + H], "global": [-np.inf, -np.inf, np.inf, np.inf], "list": blist}[bounds]
    if not any(bx[0] <= st["x"] < bx[2] and bx[1] <= st["y"] < bx[3] and s not in exclude for s, st in stations.items()):
        include.append("s00")  # at least one station is left
    me = {"format": fmt, "aggregate_when_downsampling": agg, "enable_missing_data_checks": False, "exclude": exclude, "include": include}
    if bounds:
        me["bounds"] = "global" if bounds == "global" else blist
    if meteo_crs and fmt == "csv":
        me["crs"] = meteo_crs
    if filters is not None:
        me["filters"] = filters
    m = sc.model(input_data={"meteo": me})
    m.initialize()
    ds = m.meteo
    # expected stations
    exp = []
    for s, st in stations.items():
        inb = bx[0] <= st["x"] < bx[2] and bx[1] <= st["y"] < bx[3]
        ctx.event("outside_grid", not (X0 <= st["x"] < X0 + W and Y0 <= st["y"] < Y0 + H))
        if (inb and s not in exclude) or s in include:
            exp.append(s)
        else:
            ctx.event("excluded")
    got = [str(s) for s in ds.station.values]
    ctx.check(len(got) == len(set(got)), "duplicate", f"duplicate stations {got}")
    # stations that have no data at all within the run may be left out
    use = {}
    fl = dict(DEFAULT_FILTERS) if filters is None else {q["var"]: (q.get("min"), q.get("max")) for q in filters}
    for s in exp:
        df = stations[s]["df"].copy()
        for v, (lo, hi) in fl.items():
            if v in df:
                bad = np.zeros(len(df), bool)
                if lo is not None:
                    bad |= (df[v] < lo).values
                if hi is not None:
                    bad |= (df[v] > hi).values
                ctx.event("filtered", bad.sum())
                df.loc[bad, v] = np.nan
        use[s] = reference(df, m.dates, f, F, agg, ctx, s)
    if not ctx.check(set(got) <= set(exp), "stations", f"stations {got} are used, expected {exp}"):
        return
    for s in exp:
        hasdata = any(np.isfinite(o[ok]).any() for o, ok in use[s].values())
        ctx.check(s in got or not hasdata, "station-lost", f"station {s} (records {stations[s]['df'].index[0]} to {stations[s]['df'].index[-1]}) is missing for the period {start} to {end}")
    ctx.check(ds.indexes["time"].equals(m.dates), "times", f"forcing time steps {ds.indexes['time'][:3].tolist()}.. ({len(ds.time)}) differ from the model time steps ({len(m.dates)})")
    if not ds.indexes["time"].equals(m.dates):
        return
    for v in ("temp", "precip", "rel_hum", "sw_in", "wind_speed"):
        ctx.check(v in ds, "required-var", f"{v} is missing in the forcing dataset")
    for s in got:
        d = ds.sel(station=s)
        st = stations[s]
        ctx.event("station")
        ctx.check(str(d.station_name.values) == "Name %d" % int(s[1:]), "name", f"name of station {s}: {d.station_name.values}")
        ctx.check_close([float(d.x), float(d.y), float(d.alt)], [st["x"], st["y"], st["alt"]], "coords", f"coordinates of station {s}", rtol=0, atol=0.02)
        ctx.check_close([float(d.lon), float(d.lat)], [st["lon"], st["lat"]], "lonlat", f"lon/lat of station {s}", rtol=0, atol=1e-6)
        r, c = int(np.floor((Y0 + H - st["y"]) / sc.res)), int(np.floor((st["x"] - X0) / sc.res))
        ing = 0 <= r < sc.rows and 0 <= c < sc.cols
        ctx.check(bool(d.within_grid_extent) == ing, "within-grid", f"within_grid_extent of station {s} at row {r}, column {c}")
        if ing:
            ctx.check((int(d.row), int(d.col)) == (r, c), "row-col", f"station {s} is assigned to pixel {(int(d.row), int(d.col))} instead of {(r, c)}")
            ctx.event("border", r in (0, sc.rows - 1) or c in (0, sc.cols - 1))
        ctx.check(bool(d.within_roi) == bool(ing and sc.roi[r, c]), "within-roi", f"within_roi of station {s}")
        ctx.event("outside_roi", ing and not sc.roi[r, c])
        for v in VARS:
            if v not in use[s]:
                if v in d:
                    ctx.check(bool(d[v].isnull().all()), "absent-var", f"{v} of station {s} has values although the file contains none")
                continue
            want, ok = use[s][v]
            if not ctx.check(v in d, "var", f"{v} of station {s} is not read"):
                continue
            g = d[v].values
            a, b = g[ok], want[ok]
            if v == "wind_dir" and f != F and (agg or day):
                dd = np.abs((a - b + 180) % 360 - 180)
                ctx.check(bool(((dd < 1e-6) | (np.isnan(a) & np.isnan(b))).all()), "wind-dir", f"aggregated wind direction of {s}: {a[:4]} expected {b[:4]}")
            else:
                ctx.check_close(a, b, f"value-{v}", f"{v} of station {s} ({fmt}, {src} to {dst}, aggregate={agg})", rtol=1e-9, atol=1e-9)
            ctx.event("value", ok.sum())
            if v == "precip" and rate:
                ctx.event("rate", ok.sum())
            if v == "cloud_fraction":
                ctx.event("cloud_percent", ok.sum())
            ctx.state(fmt, src, dst, agg, v, st["kind"])
            ctx.check(d[v].attrs.get("units", UNITS[v]) == UNITS[v], "units", f"units of {v}: {d[v].attrs}")


def _plain_spec(rng, seed, **kw):
    s = dict(seed=seed, start="2020-03-30", end="2020-04-01 12:00", timestep="3h", rows=6, cols=6, num_stations=4, missing=0.05,
             config={"snow": {"model": ["multilayer", "cryolayers"][int(rng.integers(0, 2))]}})
    s.update(kw)
    return s


def run_equal(job, ctx):
    """CSV, netCDF and in-memory forcing produce the same run; the passed dataset is left alone."""
    rng = np.random.default_rng(job["seed"])
    cfg = {"snow": {"model": ["multilayer", "cryolayers"][job["i"] % 2]}, "meteo": {"interpolation": {"wind": {"method": ["idw", "liston"][job["i"] // 2 % 2]}},
           "precipitation_correction": [[], [{"method": "wmo", "gauge": "us_unsh"}], [{"method": "constant_scf", "scf": 1.3}]][job["i"] % 3]}}
    sc = Scenario(ctx.workdir, _plain_spec(rng, job["seed"], config=cfg, drops=[[], ["sw_in"], ["rel_hum", "wind_dir"]]))
    for df in sc.forcing.values():
        df["rel_hum"] = df["rel_hum"].clip(lower=2)
    sc.write_csv()
    nc = sc.dir / "nc"
    nc.mkdir()
    for st in sc.stations:
        write_nc(nc / f"{st['id']}.nc", sc.forcing[st["id"]], st["name"], st["lon"], st["lat"], st["alt"], job["i"] % 2 == 0, pd.Timedelta("3h"), "%")
    ds = sc.dataset()
    before = ds.copy(deep=True)
    keep = {k: v.copy() for k, v in sc.forcing.items()}
    m0 = sc.model()
    m0.initialize(meteo=ds)
    m1 = sc.model(input_data={"meteo": {"format": "csv"}})
    m1.initialize()
    m2 = sc.model(input_data={"meteo": {"format": "netcdf", "dir": str(nc)}})
    m2.initialize()
    for _ in m0.dates:
        for m in (m0, m1, m2):
            m.run_single()
        a = trace.snapshot(m0)
        for nm, m in (("csv", m1), ("netcdf", m2)):
            b = trace.snapshot(m)
            for v in a:
                # (coordinates pass through different projections; results agree within their precision)
                if not ctx.check_close(b[v], a[v], "format-" + nm, f"{v} of a run with {nm} forcing differs from in-memory forcing at {m.date}", rtol=1e-4, atol=1e-3):
                    return
        ctx.state("equal", job["i"] % 6)
    ctx.event("equal_runs")
    ctx.check(before.identical(ds), "memory-mutated", "the forcing dataset passed by the user is modified")
    ctx.check(all(keep[k].equals(sc.forcing[k]) for k in keep), "frame-mutated", "a data frame passed to make_point_dataset() is modified")


def run_reject(job, ctx):
    """Inconsistent forcing is refused with a MeteoDataError instead of being used."""
    import openamundsen as oa
    from openamundsen import errors

    rng = np.random.default_rng(job["seed"])

    def attempt(name, change, **over):
        sc = Scenario(ctx.workdir / name, dict(seed=job["seed"], start="2020-01-05", end="2020-01-06", timestep="h", num_stations=2, rows=5, cols=5))
        over = copy.deepcopy(over)
        deep_update(over, {"input_data": {"meteo": {"format": "csv"}}} if "format" not in over.get("input_data", {}).get("meteo", {}) else {})
        sc.write_csv()
        change(sc)
        try:
            m = sc.model(**over)
            if m.config.input_data.meteo.format == "memory":
                m.initialize(meteo=sc.mem)
            else:
                m.initialize()
        except errors.MeteoDataError:
            ctx.event("rejected")
            ctx.ok()
            ctx.state("reject", name)
            return
        ctx.violation("accepted-" + name, f"{name}: invalid forcing is accepted")

    st = lambda sc: sc.stations[0]["id"]  # noqa: E731

    def hole(sc):
        k = int(rng.integers(3, 20))
        sc.forcing[st(sc)].drop(sc.forcing[st(sc)].index[k]).to_csv(sc.meteo_dir / f"{st(sc)}.csv")

    def short(sc):
        for s in sc.stations:
            sc.forcing[s["id"]].iloc[:-2].to_csv(sc.meteo_dir / f"{s['id']}.csv")

    def late(sc):
        for s in sc.stations:
            sc.forcing[s["id"]].iloc[2:].to_csv(sc.meteo_dir / f"{s['id']}.csv")

    def other_year(sc):
        for s in sc.stations:
            d = sc.forcing[s["id"]].copy()
            d.index = d.index + pd.Timedelta("3650D")
            d.to_csv(sc.meteo_dir / f"{s['id']}.csv")

    def units(sc):
        for s in sc.stations:
            (sc.meteo_dir / f"{s['id']}.csv").unlink()
            write_nc(sc.meteo_dir / f"{s['id']}.nc", sc.forcing[s["id"]], s["name"], s["lon"], s["lat"], s["alt"], False, pd.Timedelta("1h"), "%")
        import xarray as xr

        p = sc.meteo_dir / f"{st(sc)}.nc"
        d = xr.load_dataset(p)
        d["tas"].attrs["units"] = "degC"
        d.to_netcdf(p)

    def bad_mem(sc):
        sc.mem = sc.dataset().isel(time=slice(1, None))

    def bad_mem2(sc):
        sc.mem = sc.dataset().drop_vars("rel_hum")

    nothing = lambda sc: None  # noqa: E731
    attempt("missing-record", hole)
    attempt("ends-too-early", short)
    attempt("starts-too-late", late)
    attempt("no-data-in-period", other_year)
    attempt("wrong-units", units, input_data={"meteo": {"format": "netcdf"}})
    attempt("upsampling", nothing, timestep="30min")
    attempt("not-a-multiple", nothing, timestep="90min")
    attempt("unknown-include", nothing, input_data={"meteo": {"include": ["nosuch"]}})
    attempt("nothing-left", nothing, input_data={"meteo": {"exclude": ["st00", "st01"]}})
    attempt("memory-wrong-dates", bad_mem, input_data={"meteo": {"format": "memory"}})
    attempt("memory-missing-variable", bad_mem2, input_data={"meteo": {"format": "memory"}})
    attempt("no-metadata", lambda sc: (sc.meteo_dir / "stations.csv").unlink())


def run_callback(job, ctx):
    rng = np.random.default_rng(job["seed"])
    sc = Scenario(ctx.workdir, _plain_spec(rng, job["seed"], missing=0.0))
    m0 = sc.init_model()
    names = ["temp", "precip", "rel_hum", "wind_speed", "cloud_factor", "cloud_fraction"]
    hist, states = [], []
    for _ in m0.dates:
        m0.run_single()
        hist.append({v: m0.state.meteo[v].copy() for v in names})
        states.append(trace.snapshot(m0))
    calls = []

    def cb(model):
        calls.append((model.date_idx, model.date))
        for v in names:
            model.state.meteo[v][:] = hist[model.date_idx][v]

    m1 = sc.model(input_data={"meteo": {"format": "callback"}})
    m1.initialize(meteo_callback=cb)
    for k in range(len(m1.dates)):
        m1.run_single()
        b = trace.snapshot(m1)
        ctx.check(calls[-1] == (k, m1.dates[k]) and len(calls) == k + 1, "callback-calls", f"callback calls {calls[-2:]} at step {k}")
        for v in names:
            ctx.check_close(b["meteo." + v], hist[k][v], "callback-field", f"{v} supplied by the callback is not the one used at {m1.date}", rtol=0, atol=0)
        a = states[k]
        for v in ("snow.swe", "snow.depth", "surface.temp", "meteo.lw_in", "meteo.snowfall", "meteo.rainfall", "meteo.wet_bulb_temp", "surface.albedo"):
            if not ctx.check_close(b[v], a[v], "callback-" + v, f"{v} of a run forced by a callback at {m1.date}", rtol=1e-6, atol=1e-6):
                return
    ctx.event("callback")


def run_api(job, ctx):
    """Point datasets built by hand: data frames and datasets, metadata from arguments or from the data, units, absent variables, outer joins in time."""
    import xarray as xr

    import openamundsen as oa

    rng = np.random.default_rng(job["seed"])
    parts, exp = [], {}
    t0 = pd.Timestamp("2020-02-27 12:00")
    freq = ["h", "3h", "D", "10min"][job["i"] % 4]
    step = td(freq)
    ids = [f"p{int(q)}" for q in rng.permutation(50)[:5]]
    for n, pid in enumerate(ids):
        idx = pd.date_range(t0 + int(rng.integers(0, 5)) * step, periods=int(rng.integers(12, 40)), freq=freq, name="time")
        cols = [v for v in VARS if rng.random() < 0.75] or ["temp"]
        df = pd.DataFrame({v: {"temp": rng.normal(273, 5, len(idx)), "precip": rng.gamma(.3, 2, len(idx)), "rel_hum": rng.uniform(20, 100, len(idx)), "sw_in": rng.uniform(0, 800, len(idx)),
                               "wind_speed": rng.uniform(0, 9, len(idx)), "wind_speed_gust": rng.uniform(5, 20, len(idx)), "wind_dir": rng.uniform(0, 360, len(idx)),
                               "cloud_fraction": rng.uniform(5, 100, len(idx))}[v] for v in cols}, index=idx)
        df = df.mask(rng.random(df.shape) < 0.1)
        if job["i"] % 2:  # further columns are none of our business
            df["snow_depth"] = 1.0
        meta = dict(point_id=pid, name=f"Name {n}", lon=float(rng.uniform(9, 13)), lat=float(rng.uniform(45, 49)), alt=float(rng.uniform(200, 3000)))
        want = df.copy()
        form = (n + job["i"]) % 4
        if form == 0:
            data, kw = df, meta
        else:
            data = df.to_xarray()
            data["lon"], data["lat"], data["alt"] = (meta[q] for q in ("lon", "lat", "alt"))
            data.attrs = {"station_id": pid, "station_name": meta["name"]}
            for v in cols:
                if n % 2:
                    data[v].attrs["units"] = UNITS[v]
            if form == 2 and "precip" in cols:
                data["precip"] = data["precip"] / step.total_seconds()
                data["precip"].attrs["units"] = "kg m-2 s-1"
            if form == 2 and "cloud_fraction" in cols:
                data["cloud_fraction"] = data["cloud_fraction"] / 100
                data["cloud_fraction"].attrs["units"] = "1"
            kw = {}
            if form == 3:  # arguments win over the metadata in the data
                data["lon"], data["alt"] = 0.0, -1.0
                data.attrs = {"station_id": "other", "station_name": "Other"}
                kw = {q: meta[q] for q in ("point_id", "name", "lon", "alt")}
        keep = data.copy(deep=True)
        d = oa.forcing.make_point_dataset(data, **kw)
        ctx.check(keep.equals(data) if isinstance(data, pd.DataFrame) else keep.identical(data), "api-mutated", "make_point_dataset() modifies the passed data")
        ctx.check("snow_depth" not in d.variables, "api-extra", "a column that is not a forcing variable is carried along")
        for v in cols:
            ctx.check(d[v].attrs.get("units") == UNITS[v], "api-unit:" + v, f"unit of {v} is {d[v].attrs.get('units')}")
        exp[pid] = (meta, want, cols)
        parts.append(d)
        # unusable calls
        for bad in ({"point_id": None} if form in (0,) else {}, {"lon": None} if form == 0 else {}, {"lat": None} if form == 0 else {}, {"alt": None} if form == 0 else {}):
            if bad:
                try:
                    oa.forcing.make_point_dataset(df, **{**meta, **bad})
                    ctx.violation("api-accepted", f"make_point_dataset() without {list(bad)} is accepted")
                except TypeError:
                    ctx.ok()
                ctx.event("api_rejected")
        for obj in ([1, 2], df["temp"] if "temp" in df else 3):
            try:
                oa.forcing.make_point_dataset(obj, **meta)
                ctx.violation("api-accepted", f"make_point_dataset({type(obj).__name__}) is accepted")
            except TypeError:
                ctx.ok()
            ctx.event("api_rejected")
        v = cols[int(rng.integers(0, len(cols)))]
        x = df.to_xarray()
        x[v].attrs["units"] = "furlong"
        try:
            oa.forcing.make_point_dataset(x, **meta)
            ctx.violation("api-units", f"{v} in a wrong unit is accepted")
        except oa.errors.MeteoDataError:
            ctx.ok()
        ctx.event("api_rejected")
    before = [d.copy(deep=True) for d in parts]
    ds = oa.forcing.combine_point_datasets(parts)
    ctx.check(all(a.identical(b) for a, b in zip(before, parts)), "api-combine-mutated", "combine_point_datasets() modifies the passed datasets")
    ctx.check(list(ds.station.values) == ids, "api-stations", f"stations {list(ds.station.values)}, expected {ids}")
    times = sorted(set().union(*[set(w.index) for _, w, _ in exp.values()]))
    ctx.check(list(ds.indexes["time"]) == times, "api-times", "the combined dataset does not cover the union of the periods")
    have = {v for _, _, c in exp.values() for v in c} | {"temp", "precip", "rel_hum", "sw_in", "wind_speed"}
    ctx.check({v for v in VARS if v in ds} == have, "api-vars", f"variables {sorted(v for v in VARS if v in ds)}, expected {sorted(have)}")
    for pid, (meta, want, cols) in exp.items():
        one = ds.sel(station=pid)
        ctx.event("api_station")
        for q in ("lon", "lat", "alt"):
            ctx.check(float(one[q]) == meta[q], "api-meta:" + q, f"{q} of {pid} is {float(one[q])}, expected {meta[q]}")
        ctx.check(str(one["station_name"].values) == meta["name"], "api-meta:name", f"name of {pid} is {one['station_name'].values}, expected {meta['name']}")
        for v in have & set(ds.variables):
            w = want[v].reindex(times).to_numpy() if v in cols else np.full(len(times), np.nan)
            ctx.event("api_value", len(times))
            ctx.check_close(one[v].values, w, "api-value:" + v, f"{v} of {pid} differs from the passed data", rtol=1e-9, atol=1e-9)
    ctx.check(not oa.forcing.is_valid_point_dataset(parts[0]), "api-valid", "a single point dataset is reported as a valid forcing dataset")
    ctx.check(oa.forcing.is_valid_point_dataset(ds), "api-valid", "the combined dataset is reported as invalid")
    ctx.check(oa.forcing.is_valid_point_dataset(ds, dates=ds.indexes["time"]) and not oa.forcing.is_valid_point_dataset(ds, dates=ds.indexes["time"][:-1]), "api-valid-dates", "wrong verdict about the dates of a dataset")
    ctx.check(not oa.forcing.is_valid_point_dataset(ds.drop_vars("temp")), "api-valid", "a dataset without temperature is reported as valid")
    ctx.state("api", freq, job["i"] % 4)


def run(job, ctx):
    {"read": run_read, "equal": run_equal, "reject": run_reject, "callback": run_callback, "api": run_api}[job["kind"]](job, ctx)
