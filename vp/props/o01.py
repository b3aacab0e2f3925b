"""O01: gridded outputs reproduce the state history."""
import os

import numpy as np
import pandas as pd

from vp import trace, workloads
from vp.scenario import CRS, X0, Y0, Scenario

RULE = ("full runs writing random sets of gridded outputs; every stored value, date, interval bound, coordinate and file name is compared with "
        "the history of the model state recorded by the monitor after every step; one evaluation = one stored value; distinct = (format, "
        "layout, append, compress, frequency, aggregation, rank)")
REQUIRED = {"value": 20000, "agg_sum": 20, "agg_mean": 20, "instant": 20, "three_dim": 10, "int_var": 3, "roi_pixel": 5, "grid": 10, "ascii": 2,
            "geotiff": 2, "netcdf": 6, "memory": 6, "dates_list": 5, "anchored": 10, "partial_last": 3, "midrun": 3, "stale": 2, "off_midnight": 4,
            "converted": 3, "rejected": 4, "missing": 50, "nothing_to_write": 2, "default_name": 5, "one_time": 1, "many_times": 5}
VARS2 = ["meteo.temp", "meteo.precip", "snow.swe", "snow.melt", "surface.temp", "meteo.sw_in", "snow.depth", "meteo.rainfall"]
VARS3 = ["snow.thickness", "snow.ice_content", "snow.density", "soil.temp"]


def jobs(tier, seed):
    rng = np.random.default_rng([seed, 18])
    k = 1 if tier == "quick" else 4
    out = []
    fmts = [("memory", "grid"), ("netcdf", "grid"), ("memory", "roi_pixel"), ("netcdf", "roi_pixel"), ("ascii", "grid"), ("netcdf", "grid"), ("geotiff", "grid"), ("memory", "grid")]
    for i in range(24 * k):
        fmt, lay = fmts[i % 8]
        ts = ["3h", "h", "6h", "2h", "D", "3h"][(i // 2) % 6]
        hours = {"h": 1, "2h": 2, "3h": 3, "6h": 6, "D": 24}[ts]
        n = [60, 50, 44, 60, 70, 60][(i // 2) % 6]
        start = pd.Timestamp(["2020-01-29 12:00", "2020-01-29", "2019-12-27", "2020-02-26 06:00", "2020-11-28 15:00"][i % 5])
        if ts == "h":
            start = pd.Timestamp(["2020-01-30 22:00", "2019-12-31 01:00", "2020-02-28 05:00"][i % 3])
        if ts == "D":
            start = pd.Timestamp(["2019-12-20", "2020-01-28 06:00"][i % 2])
        end = start + pd.Timedelta(hours=hours * (n - 1))
        variables = []
        for j in range(int(rng.integers(3, 8))):
            three = rng.random() < 0.3
            v = {"var": workloads.pick(rng, *(VARS3 if three else VARS2)), "name": f"v{j}"}
            a = workloads.pick(rng, None, "sum", "mean")
            if a:
                v["agg"] = a
            r = rng.random()
            if r < 0.25:
                dts = [start + pd.Timedelta(hours=hours * int(q)) for q in sorted(rng.choice(n, 4, replace=False))]
                if rng.random() < 0.5:
                    dts = [start - pd.Timedelta(hours=hours)] + dts + [end + pd.Timedelta(days=3)]
                v["dates"] = [str(d) for d in dts]
            elif r < 0.85:
                v["freq"] = workloads.pick(rng, "D", "12h" if hours <= 12 else "2D", "ME", "MS", "YE", "YS", f"{2 * hours}h", f"{7 * hours}h", "ME")
            variables.append(v)
        if i % 7 == 4 or i % 12 == 5:  # all fields written at the same dates
            for v in variables:
                v.pop("dates", None); v.pop("freq", None); v.pop("agg", None)
                v.update({"freq": f"{2 * hours}h", "agg": "mean"} if i % 2 else {"freq": "D"})
        elif i % 3 == 0:
            variables.append({"var": "land_cover.land_cover", "name": "lc"} if i % 2 else {"var": "land_cover.land_cover", "name": "lc", "agg": "mean", "freq": f"{4 * hours}h"})
            if i % 6 == 3:
                variables.append({"var": "land_cover.land_cover", "name": "lcs", "agg": "sum", "freq": f"{4 * hours}h"})
        if i % 2 == 0 or i % 7 == 1:  # without a name: the last part of the variable name
            comp = [v["var"].split(".")[-1] for v in variables]
            k2 = next((q for q in range(len(variables)) if comp.count(comp[q]) == 1), None)
            if k2 is not None:
                variables[k2].pop("name")
        cfg = {"snow": {"model": "multilayer"}, "canopy": {"enabled": i % 3 == 0},
               "output_data": {"grids": {"format": fmt, "layout": lay, "append": bool((i // 8) % 2 == 0), "compress": bool(i % 2), "variables": variables}}}
        s = dict(seed=int(rng.integers(1, 2**31)), start=str(start), end=str(end), timestep=ts, rows=int(rng.integers(4, 8)), cols=int(rng.integers(4, 8)), res=[50, 25, 100][i % 3],
                 dem="rough", roi_frac=[0.6, 1.0][(i // 4) % 2], regime="alpine", missing=[0.0, 0.1][i % 2], config=cfg, blackout=[7] if i % 2 else [])
        if i % 3 == 0:
            s["land_cover"] = [0, 5, 6]
        out.append({"spec": s, "stale": i % 4 == 1})
    out += [{"wd": int(rng.integers(1, 2**31)), "n": 30 * k} for _ in range(4)]
    out.append({"rej": 1})
    return out


def period(d, freq):
    return (d.year, d.month) if freq[0] == "M" else d.year


def write_dates(dates, dt, freq, agg):
    """Dates at which a field is written, by definition: end (aggregated, *E) or start of each completely covered interval."""
    if freq in ("ME", "MS", "YE", "YS"):
        at_end = agg or freq[1] == "E"
        return [d for d in dates if period(d + dt if at_end else d - dt, freq) != period(d, freq)]
    num = freq.rstrip("hDmin") or "1"
    unit = freq[len(freq.rstrip("hDmin")):]
    step = pd.Timedelta(int(num), unit={"h": "h", "D": "D", "min": "min"}[unit])
    k = round(step / dt)
    return [d for i, d in enumerate(dates) if (i % k == k - 1 if agg else i % k == 0)]


def run(job, ctx):
    if "wd" in job:
        return fn_dates(job, ctx)
    if "rej" in job:
        return rejected(ctx)
    spec = job["spec"]
    sc = Scenario(ctx.workdir, spec)
    gc = spec["config"]["output_data"]["grids"]
    fmt, lay = gc["format"], gc["layout"]
    if job["stale"] and fmt == "netcdf":  # an earlier run left results behind
        s2 = sc.model(end_date=str(sc.dates[3]), output_data={"grids": {"variables": [{"var": "snow.swe", "name": "old"}], "layout": "grid"}})
        s2.initialize(meteo=sc.dataset().isel(time=slice(0, 4)))
        s2.run()
        ctx.check((sc.results_dir / "output_grids.nc").exists(), "stale-run", "no output file written")
        ctx.event("stale")
    m = sc.init_model()
    roi = m.grid.roi
    dates, dt = list(m.dates), m.dates[1] - m.dates[0]
    hist = []
    cats = {"meteo", "snow", "surface", "soil", "land_cover"}
    want = {}
    for v in gc["variables"]:
        agg = v.get("agg")
        if "dates" in v:
            wd = [pd.Timestamp(d) for d in v["dates"]]
            wd = [d for d in wd if dates[0] <= d <= dates[-1]]
            ctx.event("dates_list")
        else:
            f = v.get("freq")
            wd = dates if f is None else write_dates(dates, dt, f, agg is not None)
            if f and f[0] in "MY":
                ctx.event("anchored")
                ctx.event("off_midnight", dates[0].hour != 0)
                ctx.event("partial_last", agg is not None and (not wd or wd[-1] != dates[-1]))
        ctx.event("default_name", "name" not in v)
        want[v.get("name", v["var"].split(".")[-1])] = dict(var=v["var"], agg=agg, dates=wd)
        ctx.event("nothing_to_write", not wd)
    want = {k: v for k, v in want.items() if v["dates"]}
    mid = int(len(dates) * 0.6)
    for pre, post in trace.iterate(m, cats):
        hist.append({v["var"]: post[v["var"]] for v in want.values()})
        if m.date_idx == mid and fmt == "netcdf" and want:
            compare_ds(open_nc(sc), want, hist, dates, dt, m, roi, lay, ctx, upto=m.date, append=gc["append"])
            ctx.event("midrun")
    ctx.event(fmt); ctx.event(lay)
    for w in want.values():
        ctx.event({None: "instant", "sum": "agg_sum", "mean": "agg_mean"}[w["agg"]])
        ctx.event("three_dim", hist[0][w["var"]].ndim == 3)
        ctx.event("int_var", w["var"].startswith("land_cover"))
    files = sorted(os.listdir(sc.results_dir))
    if not want:
        ctx.check(m.gridded_output.data is None and not files, "nothing", f"output although nothing is to be written: {files}")
        return
    if fmt in ("memory", "netcdf"):
        ds = m.gridded_output.data if fmt == "memory" else open_nc(sc)
        if fmt == "netcdf":
            ctx.check(files == ["output_grids.nc"], "files", f"unexpected output files {files}")
            ctx.check("old" not in ds, "stale", "variables of an earlier run are still in the output file")
        compare_ds(ds, want, hist, dates, dt, m, roi, lay, ctx)
        if lay == "roi_pixel":
            from openamundsen import util

            full = util.convert_roi_pixel_dataset_to_grid(ds)
            compare_ds(full, want, hist, dates, dt, m, roi, "converted", ctx)
            ctx.event("converted")
    else:
        compare_files(sc, files, fmt, want, hist, dates, dt, m, roi, ctx)
    for w in want.values():
        ctx.state(fmt, lay, gc["append"], gc["compress"], w["agg"], hist[0][w["var"]].ndim, str(len(w["dates"])))


def open_nc(sc):
    import xarray as xr

    with xr.open_dataset(sc.results_dir / "output_grids.nc") as ds:
        return ds.load()


def expected(w, hist, dates, d, roi):
    """Value to be written at date d (None: not a model date)."""
    if d not in dates:
        return None
    i = dates.index(d)
    if w["agg"] is None:
        return hist[i][w["var"]].astype(float)
    prev = [dates.index(q) for q in w["dates"] if q < d and q in dates]
    j = max(prev) + 1 if prev else 0
    st = np.stack([hist[q][w["var"]].astype(float) for q in range(j, i + 1)])
    r = st.sum(0) if w["agg"] == "sum" else st.mean(0)
    r = np.where(roi, r, np.nan)
    return r


def compare_ds(ds, want, hist, dates, dt, m, roi, lay, ctx, upto=None, append=True):
    names = set(want)
    ctx.check(set(ds.data_vars) == names, "variables", f"output variables {sorted(ds.data_vars)} instead of {sorted(names)}")
    g = m.grid
    if lay != "roi_pixel":
        ctx.check_close(ds.x.values, X0 + (np.arange(g.cols) + 0.5) * g.resolution, "x", "x coordinates", rtol=1e-12)
        ctx.check_close(ds.y.values, Y0 + (g.rows - np.arange(g.rows) - 0.5) * g.resolution, "y", "y coordinates", rtol=1e-12)
    else:
        ctx.check(np.array_equal(ds.pixel.values, np.flatnonzero(roi)), "pixel", "pixel indexes of the ROI")
    tdims = {}
    for name, w in want.items():
        da = ds[name]
        td = da.dims[0]
        wd = w["dates"]
        key = (tuple(wd), w["agg"] is None)
        ctx.check(tdims.setdefault(td, key) == key, "time-dims", f"variables with different dates share the time dimension {td}")
        t = pd.DatetimeIndex(da[td].values)
        full = len(t) == len(wd)
        if upto is None or not append:
            ctx.check(full and list(t) == wd, "times", f"{name}: dates {list(map(str, t[:4]))} ({len(t)}) instead of {list(map(str, wd[:4]))} ({len(wd)})")
        else:
            wd = [d for d in wd if d <= upto]
            ctx.check(list(t[: len(wd)]) == wd, "times-midrun", f"{name}: dates written until {upto}")
        if w["agg"] is not None:
            b = da[td].attrs.get("bounds") or da[td].encoding.get("bounds")
            ctx.check(b is not None and b in ds, "bounds", f"{name}: no time bounds for an aggregated variable")
            if b in ds:
                bv = ds[b].values[: len(wd)]
                e0 = [dates[0]] + w["dates"][:-1]
                ctx.check(all(pd.Timestamp(x[0]) == y and pd.Timestamp(x[1]) == z for x, y, z in zip(bv, e0, w["dates"])), "bounds", f"{name}: time bounds do not cover the aggregation intervals")
        meta = m.state.meta(w["var"])
        for a in ("units", "long_name", "standard_name"):
            q = getattr(meta, a)
            if q is not None:
                ctx.check(da.attrs.get(a) == q, "attrs", f"{name}: attribute {a} is {da.attrs.get(a)!r} instead of {q!r}")
        vals = da.values.astype(float)
        isint = np.issubdtype(meta.dtype, np.integer) and w["agg"] != "mean"
        for k, d in enumerate(wd):
            if upto is not None and d > upto:
                break
            e = expected(w, hist, dates, d, roi)
            if e is None:
                ctx.check(np.isnan(vals[k]).all() or isint, "no-step", f"{name}: value at {d}, which is not a time step")
                continue
            if lay == "roi_pixel":
                e = e[..., roi]
            got = vals[k].copy()
            if isint and np.issubdtype(da.dtype, np.integer):
                got[got == np.iinfo(np.int32).min] = np.nan
            if lay == "converted":
                e = np.where(roi, e, np.nan)
            inroi = np.ones(got.shape, bool) if lay == "roi_pixel" else np.broadcast_to(roi, got.shape)
            sc_ = np.nanmax(np.abs(e)) if np.isfinite(e).any() else 0
            ctx.check_close(got, e, "value-" + (w["agg"] or "instant"), f"{name} ({w['var']}, {w['agg']}) at {d}", rtol=3e-7, atol=1e-7 * max(sc_, 1e-30) + 1e-30, mask=inroi)
            ctx.event("value", got.size); ctx.event("missing", np.isnan(e).sum())
            if lay in ("grid", "converted") and (w["agg"] is not None or lay == "converted"):
                ctx.check(np.isnan(got[~inroi]).all(), "outside", f"{name}: values outside of the ROI at {d}")
    if len(set(tdims.values())) == 1:
        ctx.check(set(tdims) == {"time"}, "time-name", f"the only time dimension is called {sorted(tdims)} instead of time")
    ctx.event("one_time" if len(tdims) == 1 else "many_times")
    ctx.check("crs" in ds.coords or "crs" in ds, "crs", "no coordinate reference system in the output")


def compare_files(sc, files, fmt, want, hist, dates, dt, m, roi, ctx):
    import rasterio

    ext = {"ascii": "asc", "geotiff": "tif"}[fmt]
    exp = {}
    for name, w in want.items():
        prev = None
        for k, d in enumerate(w["dates"]):
            e = expected(w, hist, dates, d, roi)
            if e is None:
                continue
            ds = f"{d:%Y-%m-%dT%H%M}"
            if w["agg"] is not None:
                st = dates[0] if k == 0 else w["dates"][k - 1] + dt
                ds = f"{st:%Y-%m-%dT%H%M}_{ds}"
            if e.ndim == 2:
                exp[f"{name}_{ds}.{ext}"] = (e, name, w)
            else:
                for q in range(e.shape[0]):
                    exp[f"{name}_{q}_{ds}.{ext}"] = (e[q], name, w)
    ctx.check(set(files) == set(exp), "files", f"missing files {sorted(set(exp) - set(files))[:3]}, unexpected files {sorted(set(files) - set(exp))[:3]}")
    for f in sorted(set(files) & set(exp)):
        e, name, w = exp[f]
        with rasterio.open(sc.results_dir / f) as r:
            got = r.read(1).astype(float) if fmt == "geotiff" else read_asc(sc.results_dir / f)
            t = r.transform
            ctx.check((t.a, t.e, t.c, t.f) == (sc.res, -sc.res, X0, Y0 + sc.rows * sc.res), "transform", f"{f}: georeference {t}")
            if fmt == "geotiff":
                ctx.check(r.crs is not None and r.crs.to_string().lower() == CRS, "crs", f"{f}: coordinate reference system {r.crs}")
        got[got == np.iinfo(np.int32).min] = np.nan
        sc_ = np.nanmax(np.abs(e)) if np.isfinite(e).any() else 0
        ctx.check_close(got, e, "file-value", f"{f}", rtol=3e-6, atol=1e-6 * sc_ + 1e-30, mask=np.broadcast_to(roi, e.shape))
        ctx.event("value", e.size)


def read_asc(p):
    rows, nodata = [], None
    for ln in p.read_text().split("\n"):
        q = ln.split()
        if q and q[0][0].isalpha() and q[0].lower() != "nan":
            if q[0].lower() == "nodata_value":
                nodata = float(q[1])
        elif q:
            rows.append([float(x) for x in q])
    a = np.array(rows)
    return a if nodata is None else np.where(a == nodata, np.nan, a)


def fn_dates(job, ctx):
    """Write dates over random run periods, without running the model."""
    try:
        from openamundsen.fileio.griddedoutput import _freq_write_dates
    except ImportError:  # internal helper: the full runs cover the dates, too
        return
    rng = np.random.default_rng(job["wd"])
    for it in range(job["n"]):
        ts = workloads.pick(rng, "h", "2h", "3h", "6h", "12h", "30min", "D")
        start = pd.Timestamp("2019-06-01") + pd.Timedelta(hours=int(rng.integers(0, 9000)))
        dates = pd.date_range(start, start + pd.Timedelta(days=int(rng.integers(2, 500)), hours=int(rng.integers(0, 24))), freq="24h" if ts == "D" else ts)
        dt = dates[1] - dates[0]
        for freq in ("ME", "YE", "MS", "YS", "D", "2D", "48h"):
            for agg in (False, True):
                wd = _freq_write_dates(dates, freq, agg)
                wd = wd[(wd >= dates[0]) & (wd <= dates[-1])]
                e = write_dates(list(dates), dt, freq, agg)
                ctx.check(list(wd) == e, f"write-dates-{freq}-{agg}", f"{freq} (aggregated {agg}) for {dates[0]} to {dates[-1]} every {ts}: "
                          f"{[str(x) for x in list(wd)[:3]]} instead of {[str(x) for x in e[:3]]}")
                ctx.event("write_dates")
        ctx.state("wd", ts, start.hour // 6, len(dates) > 3000)


def rejected(ctx):
    """Invalid output configurations are rejected when the model is set up."""
    base = dict(seed=5, start="2020-01-01", end="2020-01-02", timestep="3h", rows=5, cols=5, config={"snow": {"model": "cryolayers"}})
    sc = Scenario(ctx.workdir, base)
    V = lambda **k: {"output_data": {"grids": k}}
    cases = [V(format="geotiff", layout="roi_pixel", variables=[{"var": "snow.swe"}]), V(format="ascii", layout="roi_pixel", variables=[{"var": "snow.swe"}]),
             V(variables=[{"var": "snow.swe"}, {"var": "snow.swe"}]),
             V(variables=[{"var": "meteo.temp"}, {"var": "snow.swe", "agg": "mean", "freq": "6h"}, {"var": "snow.swe"}]),
             V(variables=[{"var": "meteo.temp"}, {"var": "surface.temp"}]),
             V(variables=[{"var": "snow.depth"}, {"var": "meteo.temp", "name": "x"}, {"var": "snow.swe", "name": "x", "freq": "D"}]),
             V(variables=[{"var": "snow.swe", "freq": "5h"}]), V(variables=[{"var": "snow.swe", "freq": "h"}]), V(variables=[{"var": "snow.swe", "freq": "W"}]),
             V(variables=[{"var": "snow.swe", "agg": "median"}])]
    for c in cases:
        try:
            m = sc.model(**c)
            m.initialize(meteo=sc.dataset())
        except Exception:  # noqa: BLE001
            ctx.event("rejected"); ctx.ok()
        else:
            ctx.violation("accepted", f"invalid output configuration accepted: {c}")
