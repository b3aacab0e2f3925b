"""O02: point outputs reproduce the state history exactly once per step."""
import os

import numpy as np
import pandas as pd

from vp import trace, workloads
from vp.scenario import CRS, X0, Y0, Scenario

RULE = ("full runs writing point outputs in all formats and write frequencies; every stored row, value and coordinate is compared with the "
        "history of the model state recorded by the monitor after every step; one evaluation = one stored value; distinct = (format, write "
        "frequency, time step, default points/variables, number of points)")
REQUIRED = {"value": 20000, "csv": 3, "netcdf": 3, "memory": 3, "chunks": 10, "three_dim": 5, "int_var": 2, "default_points": 3, "default_vars": 3,
            "station_outside": 2, "midrun": 3, "stale": 3, "rejected": 5, "same_pixel": 2, "outside_roi_point": 2, "extended_roi": 2, "no_points": 1}
DEFAULT = {"temp": "meteo.temp", "precip": "meteo.precip", "snowfall": "meteo.snowfall", "rainfall": "meteo.rainfall", "rel_hum": "meteo.rel_hum",
           "wind_speed": "meteo.wind_speed", "sw_in": "meteo.sw_in", "sw_out": "meteo.sw_out", "lw_in": "meteo.lw_in", "lw_out": "meteo.lw_out",
           "sw_in_clearsky": "meteo.sw_in_clearsky", "dir_in_clearsky": "meteo.dir_in_clearsky", "diff_in_clearsky": "meteo.diff_in_clearsky",
           "cloud_factor": "meteo.cloud_factor", "cloud_fraction": "meteo.cloud_fraction", "wet_bulb_temp": "meteo.wet_bulb_temp",
           "dew_point_temp": "meteo.dew_point_temp", "atmos_press": "meteo.atmos_press", "sat_vap_press": "meteo.sat_vap_press",
           "vap_press": "meteo.vap_press", "spec_hum": "meteo.spec_hum", "surface_temp": "surface.temp", "surface_heat_flux": "surface.heat_flux",
           "sens_heat_flux": "surface.sens_heat_flux", "lat_heat_flux": "surface.lat_heat_flux", "advective_heat_flux": "surface.advective_heat_flux",
           "surface_albedo": "surface.albedo", "soil_temp": "soil.temp", "soil_heat_flux": "soil.heat_flux", "swe": "snow.swe", "snow_depth": "snow.depth",
           "snow_temp": "snow.temp", "snow_thickness": "snow.thickness", "snow_density": "snow.density", "ice_content": "snow.ice_content",
           "liquid_water_content": "snow.liquid_water_content", "melt": "snow.melt", "runoff": "snow.runoff", "sublimation": "snow.sublimation",
           "refreezing": "snow.refreezing"}


def jobs(tier, seed):
    rng = np.random.default_rng([seed, 19])
    k = 1 if tier == "quick" else 4
    out = []
    for i in range(24 * k):
        fmt = ["csv", "netcdf", "memory"][i % 3]
        ts = ["3h", "h", "2h", "6h"][(i // 3) % 4]
        hours = {"h": 1, "2h": 2, "3h": 3, "6h": 6}[ts]
        n = [40, 45, 33, 41][(i // 3) % 4]
        start = pd.Timestamp(["2020-01-30 12:00", "2019-12-30 01:00", "2020-02-27", "2020-11-29 06:00"][i % 4])
        end = start + pd.Timedelta(hours=hours * (n - 1))
        wf = ["ME", "D", "3h", "7h", "YE", "10min", "2D", "MS", "36h"][i % 9]
        s = dict(seed=int(rng.integers(1, 2**31)), start=str(start), end=str(end), timestep=ts, rows=int(rng.integers(5, 9)), cols=int(rng.integers(5, 9)), res=[50, 25][i % 2],
                 dem="rough", roi_frac=0.6, regime="alpine", missing=[0.0, 0.1][i % 2], num_stations=4, stations_in_roi=bool(i % 2))
        pts = [{"x": X0 + float(rng.uniform(0.1, s["cols"] - 0.1)) * s["res"], "y": Y0 + float(rng.uniform(0.1, s["rows"] - 0.1)) * s["res"]} for _ in range(int(rng.integers(1, 5)))]
        if i % 2 == 0:
            pts[0]["name"] = "mypoint"
        if i % 4 == 1:
            pts.append(dict(pts[0], name="twin"))
        if i % 12 == 7:
            pts = []
        variables = [{"var": "snow.swe", "name": "a"}, {"var": "meteo.sw_in"}, {"var": "snow.thickness", "name": "thick"}][: int(rng.integers(1, 4))]
        dv = bool((i // 2) % 2)
        if dv:
            variables = [{"var": "base.dem", "name": "elevation"}]
        if i % 4 == 3:
            variables.append({"var": "land_cover.land_cover", "name": "lc"})
            s["land_cover"] = [0, 5, 6]
        s["config"] = {"snow": {"model": ["multilayer", "cryolayers"][(i // 3) % 2]}, "canopy": {"enabled": i % 4 == 3}, "extend_roi_with_stations": i % 5 == 0,
                       "output_data": {"timeseries": {"format": fmt, "write_freq": wf, "add_default_points": bool(i % 3 != 1 or i % 2) and i % 24 != 7, "add_default_variables": dv, "points": pts, "variables": variables}}}
        out.append({"spec": s, "stale": bool(i % 2)})
    out.append({"rej": 1})
    return out


def run(job, ctx):
    if "rej" in job:
        return rejected(ctx)
    spec = job["spec"]
    sc = Scenario(ctx.workdir, spec)
    tc = spec["config"]["output_data"]["timeseries"]
    fmt = tc["format"]
    if job["stale"] and fmt != "memory":
        s2 = sc.model(end_date=str(sc.dates[3]))
        s2.initialize(meteo=sc.dataset().isel(time=slice(0, 4)))
        s2.run()
        ctx.event("stale")
    m = sc.model()
    ds = sc.dataset()
    m.initialize(meteo=ds)
    roi = m.grid.roi
    dates = list(m.dates)
    ctx.check(dates == list(sc.dates), "dates", "model dates")
    # expected points
    pts = {}
    if tc["add_default_points"]:
        ctx.event("default_points")
        for st in sc.stations:
            inside = sc.roi[st["row"], st["col"]] and np.isfinite(sc.dem[st["row"], st["col"]])
            if inside or m.config.extend_roi_with_stations:
                pts[st["id"]] = (st["row"], st["col"], st["x"], st["y"])
                ctx.event("extended_roi", not inside)
            else:
                ctx.event("station_outside")
    for i, p in enumerate(tc["points"]):
        c, r = int((p["x"] - X0) // sc.res), int(sc.rows - 1 - (p["y"] - Y0) // sc.res)
        pts[p.get("name", f"point{i + 1}")] = (r, c, p["x"], p["y"])
        ctx.event("outside_roi_point", not roi[r, c])
    ctx.event("same_pixel", "twin" in pts)
    vs = dict(DEFAULT) if tc["add_default_variables"] else {}
    ctx.event("default_vars", tc["add_default_variables"])
    for v in tc["variables"]:
        vs[v.get("name", v["var"].split(".")[-1])] = v["var"]
    if m.config.snow.model != "multilayer":
        ctx.event("cryo")
    hist = []
    mid = int(len(dates) * 0.7)
    for pre, post in trace.iterate(m):
        hist.append({v: np.stack([post[v][..., r, c] for r, c, _, _ in pts.values()], axis=-1) if pts else None for v in vs.values()})
        # (with a file left over by an earlier run, the file can only be judged mid-run if it must have been replaced already)
        if m.date_idx == mid and fmt != "memory" and (not job["stale"] or due(tc["write_freq"], dates, mid)):
            n = read(sc, fmt, pts, vs, hist, dates, m, ctx, mid=True)
            if n is not None:
                ctx.event("midrun")
    ctx.event(fmt)
    ctx.event("no_points", not pts)
    read(sc, fmt, pts, vs, hist, dates, m, ctx)
    ctx.event("chunks", 2 if len(tc["write_freq"]) else 1)
    for v in vs.values():
        ctx.event("three_dim", hist and pts and hist[0][v].ndim == 2)
        ctx.event("int_var", v.startswith("land_cover"))
    ctx.state(fmt, tc["write_freq"], spec["timestep"], tc["add_default_points"], tc["add_default_variables"], len(pts))


def due(wf, dates, i):
    """Have all steps up to index j < i certainly been written at step i? Returns the number of rows that must be there."""
    if wf in ("3h", "7h", "36h", "10min", "D", "2D"):
        step = {"D": 24, "2D": 48, "3h": 3, "7h": 7, "36h": 36, "10min": 1 / 6}[wf]
        ws = [dates[0] + pd.Timedelta(hours=step) * q for q in range(int((dates[i] - dates[0]) / pd.Timedelta(hours=step)) + 1)]
        return sum(d <= ws[-1] for d in dates)
    return None


def read(sc, fmt, pts, vs, hist, dates, m, ctx, mid=False):
    import xarray as xr

    n = len(hist)
    tc = sc.spec["config"]["output_data"]["timeseries"]
    files = sorted(os.listdir(sc.results_dir))
    if fmt == "memory":
        ds = m.point_output.data
        ctx.check(not files, "files", f"files written although the format is memory: {files}")
    elif fmt == "netcdf":
        if mid and not (sc.results_dir / "output_timeseries.nc").exists():
            ctx.check(not due(tc["write_freq"], dates, n - 1), "mid-missing", f"nothing written until {dates[n - 1]} with write frequency {tc['write_freq']}")
            return None
        ctx.check(files == ["output_timeseries.nc"], "files", f"output files {files}")
        with xr.open_dataset(sc.results_dir / "output_timeseries.nc") as d:
            ds = d.load()
    if fmt == "csv":
        exp = sorted(f"point_{p}.csv" for p in pts)
        if mid and not files:
            ctx.check(not pts or not due(tc["write_freq"], dates, n - 1), "mid-missing", f"nothing written until {dates[n - 1]} with write frequency {tc['write_freq']}")
            return None
        ctx.check(files == exp, "files", f"output files {files} instead of {exp}")
        for k, p in enumerate(pts):
            if f"point_{p}.csv" not in files:
                continue
            df = pd.read_csv(sc.results_dir / f"point_{p}.csv", parse_dates=["time"])
            if not rows(df.time, dates, n, mid, tc, ctx, f"point_{p}.csv"):
                continue
            cols = {}
            for name, v in vs.items():
                a = hist[0][v]
                for q in range(a.shape[0]) if a.ndim == 2 else [None]:
                    cols[name if q is None else f"{name}{q}"] = (v, q)
            ctx.check(set(df.columns) == set(cols) | {"time"}, "columns", f"columns {sorted(set(df.columns) ^ (set(cols) | {'time'}))[:6]} differ")
            for cname, (v, q) in cols.items():
                if cname in df:
                    e = np.array([h[v][..., k] if q is None else h[v][q, k] for h in hist[: len(df)]], float)
                    close(ctx, df[cname].values, e, cname, p)
        return True
    if not rows(ds.time.values, dates, n, mid, tc, ctx, "time series dataset"):
        return None
    ctx.check([str(x) for x in ds.point.values] == list(pts), "points", f"output points {list(ds.point.values)} instead of {list(pts)}")
    ctx.check(set(ds.data_vars) == set(vs), "variables", f"output variables differ: {sorted(set(ds.data_vars) ^ set(vs))[:6]}")
    if pts:
        import pyproj

        tr = pyproj.Transformer.from_crs(CRS, "epsg:4326", always_xy=True)
        P = list(pts.values())
        lon, lat = tr.transform([p[2] for p in P], [p[3] for p in P])
        for nm, e, tol in (("x", [p[2] for p in P], 1e-2), ("y", [p[3] for p in P], 1e-2), ("lon", lon, 1e-6), ("lat", lat, 1e-6), ("alt", [m.state.base.dem[p[0], p[1]] for p in P], 1e-6)):
            ctx.check_close(ds[nm].values, e, f"coord-{nm}", f"{nm} of the output points", rtol=0, atol=tol)
    for name, v in vs.items():
        if name not in ds or not pts:
            continue
        meta = m.state.meta(v)
        for a in ("units", "long_name", "standard_name"):
            q = getattr(meta, a)
            if q is not None:
                ctx.check(ds[name].attrs.get(a) == q, "attrs", f"{name}: attribute {a} is {ds[name].attrs.get(a)!r}")
        ctx.check(("time" in ds[name].dims) and "point" in ds[name].dims, "dims", f"{name}: dimensions {ds[name].dims}")
        got = ds[name].values
        e = np.stack([h[v] for h in hist[: got.shape[0]]]).astype(float)
        close(ctx, got, e, name, "")
    return True


def rows(t, dates, n, mid, tc, ctx, what):
    t = list(pd.DatetimeIndex(t))
    if mid:
        d = due(tc["write_freq"], dates, n - 1)
        ok = t == dates[: len(t)] and len(t) <= n and (d is None or len(t) >= d)
        return ctx.check(ok, "rows-midrun", f"{what}: {len(t)} rows after {n} steps with write frequency {tc['write_freq']} (at least {d} expected)")
    ctx.event("rows")
    return ctx.check(t == dates, "rows", f"{what}: {len(t)} rows for {len(dates)} time steps, first {[str(x) for x in t[:2]]}, last {[str(x) for x in t[-2:]]}")


def close(ctx, got, e, name, p):
    sc_ = np.nanmax(np.abs(e)) if np.isfinite(e).any() else 0
    ctx.check_close(got, e, "value", f"{name} {p}", rtol=3e-7, atol=1e-38)
    ctx.event("value", np.size(e))


def rejected(ctx):
    base = dict(seed=5, start="2020-01-01", end="2020-01-02", timestep="3h", rows=5, cols=5, config={"snow": {"model": "cryolayers"}})
    sc = Scenario(ctx.workdir, base)
    V = lambda **k: {"output_data": {"timeseries": k}}
    p = {"x": X0 + 60, "y": Y0 + 60}
    cases = [V(variables=[{"var": "snow.nonexistent"}]), V(variables=[{"var": "nocategory.swe"}]), V(variables=[{"var": "snow.swe"}, {"var": "meteo.temp", "name": "swe"}]),
             V(points=[dict(p, name="a"), dict(p, name="a")]), V(points=[{"x": X0 - 10, "y": Y0 + 20}]), V(points=[{"x": X0 + 20, "y": Y0 + 5 * 50 + 1}]),
             V(add_default_points=True, points=[dict(p, name=sc.stations[0]["id"])]), V(points=[{"x": X0 + 5 * 50 + 0.1, "y": Y0 + 20}]), V(points=[{"x": X0 + 20, "y": Y0 - 0.1}])]
    for c in cases:
        try:
            m = sc.model(**c)
            m.initialize(meteo=sc.dataset())
        except Exception:  # noqa: BLE001
            ctx.event("rejected"); ctx.ok()
        else:
            ctx.violation("accepted", f"invalid output configuration accepted: {c}")
