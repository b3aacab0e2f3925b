"""N01: spatial inputs are read where they belong, and the simulation is confined to the region of interest."""
import copy
from pathlib import Path

import numpy as np

from vp import trace, workloads
from vp.scenario import CRS, X0, Y0, Scenario, deep_update, make_dem, write_asc

RULE = ("models on random grids (shape, resolution, origin, nodata patterns, optional and extended rasters, station positions) are initialised and run; every raster, coordinate and mask held by "
        "the model is compared with what was written to the input files, unusable rasters must be rejected, pixels outside the region of interest must stay untouched, and twin runs with different "
        "regions of interest must agree on common pixels; distinct = (kind, grid class, model type)")
REQUIRED = {"raster": 60, "pixel_value": 900, "coords": 20, "roi_file": 8, "no_roi_file": 3, "dem_nan": 4, "roi_nodata": 1, "lc_nodata": 3, "rejected": 40, "extended": 6, "extended_svf_file": 2,
            "extended_rejected": 6, "station_pos": 60, "station_outside": 6, "extend_roi": 3, "extend_roi_nan": 1, "outside_checked": 2000, "outside_step": 50, "subset_run": 8, "subset_step": 60, "single_pixel": 2,
            "static_checked": 500, "narrow_grid": 2}
NOT_CONFINED = {"snow.runoff", "surface.thickness"}  # plain sums over the whole grid, set to zero outside
GRID_WIDE = {"surface.albedo", "snow.area_fraction", "surface.roughness_length"}  # assigned over the whole grid, without meaning outside


def jobs(tier, seed):
    rng = np.random.default_rng([seed, 43])
    k = 1 if tier == "quick" else 6
    out = []

    def add(kind, n):
        for i in range(n):
            out.append(dict(kind=kind, seed=int(rng.integers(1, 2**31)), i=i))

    add("inputs", 12 * k)
    add("reject", 4 * k)
    add("extended", 8 * k)
    add("stations", 8 * k)
    add("confined", 10 * k)
    add("subset", 10 * k)
    return out


def base_config(d, res, fmt="callback", **over):
    c = {"domain": "synth", "start_date": "2020-03-01 00:00", "end_date": "2020-03-01 09:00", "resolution": res, "timestep": "3h", "crs": CRS, "timezone": 1, "results_dir": str(d / "results"),
         "log_level": "CRITICAL", "input_data": {"grids": {"dir": str(d)}, "meteo": {"format": fmt}},
         "output_data": {"timeseries": {"format": "memory", "add_default_points": False, "add_default_variables": False}, "grids": {"format": "memory"}}}
    return deep_update(c, over)


def fill(model):
    roi = model.grid.roi
    m = model.state.meteo
    m.temp[roi] = 272.0
    m.rel_hum[roi] = 70.0
    m.wind_speed[roi] = 2.0
    m.precip[roi] = 1.0
    m.cloud_factor[roi] = 0.7
    m.cloud_fraction[roi] = 0.5


def f32(a):
    return np.asarray(a, dtype=np.float32).astype(float)


def run_inputs(job, ctx):
    import openamundsen as oa

    rng = np.random.default_rng(job["seed"])
    i = job["i"]
    d = ctx.workdir
    rows, cols = [(5, 9), (9, 5), (4, 4), (7, 3), (3, 8), (6, 6)][i % 6]
    res = [50, 20, 100, 10, 25, 30][(i // 2) % 6]
    x0, y0 = X0 + float(rng.integers(-2000, 2000)), Y0 + float(rng.integers(-2000, 2000))
    ctx.event("narrow_grid", min(rows, cols) <= 3)
    dem = make_dem(rng, rows, cols, "rough", res)
    if i % 3 == 1:
        dem[rng.random(dem.shape) < 0.15] = np.nan
        dem[rows // 2, cols // 2] = 2000.0
        ctx.event("dem_nan")
    sfx = f"_synth_{res}.asc"
    kw = dict(x0=x0, y0=y0)
    write_asc(d / f"dem{sfx}", dem, res, **kw)
    roi = np.ones(dem.shape, bool)
    if i % 4 != 3:
        v = (rng.random(dem.shape) < 0.6).astype(float)
        v[rows // 2, cols // 2] = 1
        if i % 2:
            nod = rng.random(dem.shape) < 0.2
            nod[rows // 2, cols // 2] = False
            v[nod] = np.nan
            ctx.event("roi_nodata", nod.any())
        write_asc(d / f"roi{sfx}", v, res, fmt="%d", **kw)
        roi = v == 1
        ctx.event("roi_file")
    else:
        ctx.event("no_roi_file")
    svf = None
    if i % 2:
        svf = np.round(rng.uniform(0.5, 1, dem.shape), 3)
        write_asc(d / f"svf{sfx}", svf, res, **kw)
    codes = rng.choice([0, 1, 2, 4, 5, 6, 7], dem.shape).astype(float)
    soil = rng.choice([1, 2, 3, 5, 8], dem.shape).astype(float)
    if i % 3 == 0:
        codes[0, 0] = np.nan
        soil[0, 1] = np.nan
        ctx.event("lc_nodata")
    srf = np.round(rng.uniform(0.2, 2, dem.shape), 4)
    gla = rng.integers(0, 4, dem.shape).astype(float)
    write_asc(d / f"lc{sfx}", codes, res, fmt="%d", **kw)
    write_asc(d / f"soil{sfx}", soil, res, fmt="%d", **kw)
    other = i % 4 == 2
    sf = d / (f"other{sfx}" if other else f"srf{sfx}")
    write_asc(sf, srf, res, **kw)
    write_asc(d / f"glaciers{sfx}", gla, res, fmt="%d", **kw)
    pc = {"method": "srf"}
    if other:
        pc["file"] = str(sf)
    files = {p.name: p.read_bytes() for p in d.glob("*.asc")}
    c = base_config(d, res, canopy={"enabled": True}, evapotranspiration={"enabled": True}, snow={"model": "cryolayers"}, glaciers={"enabled": True}, meteo={"precipitation_correction": [pc], "interpolation": {"wind": {"method": ["idw", "liston"][i % 2]}}})
    m = oa.OpenAmundsen(c)
    m.initialize(meteo_callback=fill)
    g = m.grid
    want = roi & np.isfinite(dem)
    ctx.check(np.array_equal(g.roi, want), "roi", f"region of interest has {g.roi.sum()} pixels, expected {want.sum()}")
    for nm, got, exp in (("DEM", m.state.base.dem, f32(dem)), ("land cover", m.state.land_cover.land_cover, np.nan_to_num(codes, nan=0)), ("soil", m.state.evapotranspiration.soil_texture, np.nan_to_num(soil, nan=0)),
                         ("snow redistribution factor", m.state.base.srf, f32(srf)), ("glaciers", m.state.glaciers.glacier, gla)):
        ctx.check_close(got, exp, "raster:" + nm, f"{nm} of the model differs from its input file", rtol=0, atol=0)
        ctx.event("raster")
        ctx.event("pixel_value", got.size)
    if svf is not None:
        ctx.check_close(m.state.base.svf, f32(svf), "raster:svf", "sky view factor of the model differs from its input file", rtol=0, atol=0)
        ctx.event("raster")
    else:
        out = d / f"svf{sfx}"
        ctx.check(out.exists(), "svf-file", "sky view factor file is not written")
        lines = out.read_text().split("\n")
        vals = np.array([[float(x) for x in ln.split()] for ln in lines if ln.strip() and not ln.strip()[0].isalpha() or ln.strip().lower().startswith("nan")])
        if vals.shape == dem.shape:
            fin = np.isfinite(dem)
            ctx.check_close(m.state.base.svf[fin], vals[fin], "svf-stored", "stored sky view factor differs from the used one", rtol=0, atol=1.1e-3)
        hdr = {ln.split()[0].lower(): float(ln.split()[1]) for ln in lines[:6] if len(ln.split()) == 2}
        ctx.check(hdr.get("ncols") == cols and hdr.get("nrows") == rows and abs(hdr.get("xllcorner", 0) - x0) < 1e-6 and abs(hdr.get("yllcorner", 0) - y0) < 1e-6 and hdr.get("cellsize") == res, "svf-header", f"header of the sky view factor file {hdr}")
    # coordinates: pixel centres, first row is the northernmost
    xs = x0 + (np.arange(cols) + 0.5) * res
    ys = y0 + (rows - 0.5 - np.arange(rows)) * res
    X, Y = np.meshgrid(xs, ys)
    for nm, got, exp in (("xs", g.xs, xs), ("ys", g.ys, ys), ("X", g.X, X), ("Y", g.Y, Y), ("extent", [g.x_min, g.x_max, g.y_min, g.y_max], [x0, x0 + cols * res, y0, y0 + rows * res]),
                         ("all_points", g.all_points, np.column_stack([X.ravel(), Y.ravel()])), ("roi_points", g.roi_points, np.column_stack([X[want], Y[want]])),
                         ("roi_xs", g.roi_xs, X[want]), ("roi_ys", g.roi_ys, Y[want]), ("roi_idxs", g.roi_idxs, np.argwhere(want)), ("roi_idxs_flat", g.roi_idxs_flat, np.flatnonzero(want.ravel()))):
        ctx.check_close(got, exp, "coords:" + nm, f"grid coordinates {nm}", rtol=0, atol=1e-6)
        ctx.event("coords")
    import pyproj

    lon, lat = pyproj.Transformer.from_crs(CRS, "epsg:4326", always_xy=True).transform(x0 + cols * res / 2, y0 + rows * res / 2)
    ctx.check_close([g.center_lon, g.center_lat], [lon, lat], "coords:center", "geographic centre of the grid", rtol=0, atol=1e-9)
    m.run()
    for nm, b in files.items():
        ctx.check((d / nm).read_bytes() == b, "input-changed", f"input file {nm} is modified by the run")
    ctx.check(np.array_equal(g.roi, want), "roi-changed", "the region of interest changes during the run")
    ctx.state("inputs", rows, cols, res, i % 4)


def run_reject(job, ctx):
    import openamundsen as oa

    rng = np.random.default_rng(job["seed"])
    i = job["i"]
    rows, cols, res = 6, 7, 50
    dem = make_dem(rng, rows, cols, "rough", res)
    kinds = {"dem": dem, "roi": np.ones(dem.shape), "svf": np.full(dem.shape, 0.9), "lc": np.full(dem.shape, 5), "soil": np.full(dem.shape, 2), "srf": np.full(dem.shape, 1.1), "glaciers": np.ones(dem.shape)}
    conf = dict(canopy={"enabled": True}, evapotranspiration={"enabled": True}, snow={"model": "cryolayers"}, glaciers={"enabled": True}, meteo={"precipitation_correction": [{"method": "srf"}]})
    n = [0]

    def attempt(kind, how):
        n[0] += 1
        d = ctx.workdir / f"r{n[0]}"
        d.mkdir()
        for nm, a in kinds.items():
            kw = dict(x0=X0, y0=Y0)
            r = res
            if nm == kind:
                if how == "missing":
                    continue
                if how == "rows":
                    a = a[1:]
                elif how == "cols":
                    a = a[:, :-1]
                elif how == "transposed":
                    a = a.T
                elif how == "shift_x":
                    kw["x0"] = X0 + [res, 10.0][i % 2]
                elif how == "shift_y":
                    kw["y0"] = Y0 - [res, 25.0][i % 2]
                elif how == "resolution":
                    r = 25
                elif how == "coarser":
                    r = 100
            write_asc(d / f"{nm}_synth_{res}.asc", a, r, **kw)
        try:
            m = oa.OpenAmundsen(base_config(d, res, **copy.deepcopy(conf)))
            m.initialize(meteo_callback=fill)
        except oa.errors.RasterFileError:
            ctx.event("rejected")
            ctx.check(how != "missing", "error-type", "missing file reported as raster error")
            ok = True
        except Exception as e:  # noqa: BLE001
            ctx.event("rejected")
            # a missing file is reported in some other way
            ctx.check(how == "missing", f"error:{kind}:{how}", f"{kind} raster with wrong {how}: {type(e).__name__} {e}")
            ok = True
        else:
            ok = False
        return ok

    ctx.check(not attempt(None, None), "valid", "matching rasters are rejected")
    for kind in ("roi", "svf", "lc", "soil", "srf", "glaciers"):
        for how in ("rows", "cols", "transposed", "shift_x", "shift_y", "resolution", "coarser"):
            ctx.check(attempt(kind, how), f"accepted:{kind}:{how}", f"{kind} raster with wrong {how} is accepted")
        if kind not in ("roi", "svf"):
            ctx.check(attempt(kind, "missing"), f"accepted:{kind}:missing", f"missing {kind} raster is accepted")
    ctx.check(attempt("dem", "missing"), "accepted:dem", "missing DEM is accepted")
    ctx.check(attempt("dem", "coarser"), "accepted:dem-res", "DEM coarser than the configured resolution is accepted")
    ctx.check(attempt("dem", "resolution"), "accepted:dem-res", "DEM with a resolution other than the configured one is accepted")
    ctx.state("reject", i % 2)


def run_extended(job, ctx):
    import openamundsen as oa

    rng = np.random.default_rng(job["seed"])
    i = job["i"]
    res = [50, 20, 100][i % 3]
    er, ec = int(rng.integers(9, 14)), int(rng.integers(9, 14))
    rows, cols = int(rng.integers(3, 6)), int(rng.integers(3, 7))
    ro, co = int(rng.integers(0, er - rows + 1)), int(rng.integers(0, ec - cols + 1))
    if i % 4 == 1:
        ro, co = 0, ec - cols
    ext = make_dem(rng, er, ec, "rough", res)
    ext = np.round(1800 + (ext - 1800) * 2, 2)
    sub = ext[ro:ro + rows, co:co + cols]
    ex0, ey0 = X0 - 300, Y0 + 700
    x0, y0 = ex0 + co * res, ey0 + (er - ro - rows) * res
    d = ctx.workdir / "e"
    d.mkdir()
    sfx = f"_synth_{res}.asc"
    write_asc(d / f"dem{sfx}", sub, res, x0=x0, y0=y0)
    write_asc(d / f"extended-dem{sfx}", ext, res, x0=ex0, y0=ey0)
    esvf = None
    if i % 2:
        esvf = np.round(rng.uniform(0.4, 1, ext.shape), 3)
        write_asc(d / f"extended-svf{sfx}", esvf, res, x0=ex0, y0=ey0)
        ctx.event("extended_svf_file")
    c = base_config(d, res, snow={"model": "cryolayers"})
    m = oa.OpenAmundsen(c)
    m.initialize(meteo_callback=fill)
    ctx.event("extended")
    ctx.check_close(m.state.base.dem, f32(sub), "ext-dem", f"DEM is not the part of the extended DEM at offset {ro}, {co}", rtol=0, atol=0)
    eg = m.grid.extended_grid
    ctx.check(bool(eg.available), "ext-available", "extended grid not used")
    ctx.check((eg.row_offset, eg.col_offset) == (ro, co), "ext-offset", f"offset {eg.row_offset}, {eg.col_offset}, expected {ro}, {co}")
    if esvf is not None:
        ctx.check_close(m.state.base.svf, f32(esvf[ro:ro + rows, co:co + cols]), "ext-svf", "sky view factor is not the part of the extended one", rtol=0, atol=0)
    else:
        # as calculated on the extended terrain, not on the model grid only
        d2 = ctx.workdir / "full"
        d2.mkdir()
        write_asc(d2 / f"dem{sfx}", ext, res, x0=ex0, y0=ey0)
        m2 = oa.OpenAmundsen(base_config(d2, res, snow={"model": "cryolayers"}))
        m2.initialize(meteo_callback=fill)
        ctx.check_close(m.state.base.svf, m2.state.base.svf[ro:ro + rows, co:co + cols], "ext-svf-calc", "sky view factor does not consider the extended terrain", rtol=0, atol=1e-3)
        ctx.check((d / f"extended-svf{sfx}").exists(), "ext-svf-file", "extended sky view factor is not stored")
        a = m.state.base.svf.copy()
        m3 = oa.OpenAmundsen(copy.deepcopy(c))
        m3.initialize(meteo_callback=fill)
        ctx.check(np.array_equal(m3.state.base.svf, a, equal_nan=True), "ext-svf-reuse", "sky view factor differs when read from the stored file")
    m.run()
    # unusable extended grids
    for how in ("shifted", "too_small", "resolution", "finer", "svf_shape", "svf_transposed"):
        if how == "svf_transposed" and er == ec:
            continue
        dd = ctx.workdir / f"x_{how}"
        dd.mkdir()
        write_asc(dd / f"dem{sfx}", sub, res, x0=x0, y0=y0)
        e, kx, ky, r = ext, ex0, ey0, res
        if how == "shifted":
            kx, ky = ex0 - [res / 2, 0, 3][i % 3], ey0 - [0, res / 4, 0][i % 3]
        elif how == "too_small":
            side = i % 4
            if side == 0:
                e = ext[ro + 1:]
            elif side == 1:
                e, ky = ext[: ro + rows - 1], ey0 + (er - ro - rows + 1) * res
            elif side == 2:
                e, kx = ext[:, co + 1:], ex0 + (co + 1) * res
            else:
                e = ext[:, : co + cols - 1]
        elif how == "resolution":
            r = res * 2
        elif how == "finer":
            r = res / 2
        write_asc(dd / f"extended-dem{sfx}", e, r, x0=kx, y0=ky)
        if how == "svf_transposed":
            write_asc(dd / f"extended-svf{sfx}", np.full((ec, er), 0.9), res, x0=ex0, y0=ey0)
        if how == "svf_shape":
            write_asc(dd / f"extended-svf{sfx}", np.full((er + 1, ec), 0.9), res, x0=ex0, y0=ey0)
        mm = oa.OpenAmundsen(base_config(dd, res, snow={"model": "cryolayers"}))
        try:
            mm.initialize(meteo_callback=fill)
            ctx.violation("ext-accepted:" + how, f"extended DEM is accepted although {how} (offset {ro}, {co})")
        except oa.errors.RasterFileError:
            ctx.ok()
        ctx.event("extended_rejected")
    ctx.state("extended", res, ro == 0, co == 0, esvf is not None)


def run_stations(job, ctx):
    rng = np.random.default_rng(job["seed"])
    i = job["i"]
    s = dict(seed=job["seed"], start="2020-03-01", end="2020-03-01 12:00", timestep="3h", rows=6, cols=8, res=[50, 20][i % 2], roi_frac=0.4, num_stations=9, stations_in_roi=False, dem_nan=i % 2 == 0, omit_empty=False,
             config={"snow": {"model": "cryolayers"}, "extend_roi_with_stations": bool(i % 2 == 0)})
    sc = Scenario(ctx.workdir, s)
    import pyproj

    tr = pyproj.Transformer.from_crs(CRS, "epsg:4326", always_xy=True)
    res = sc.res
    # some stations outside the grid, on all sides, and one in a pixel without elevation
    out = [(-0.9, 3), (6.4, 3), (3, -0.9), (3, 8.4), (2.5, 200), (-300, 4)]
    for st, (r, c) in zip(sc.stations[:6:2], [out[(i + j) % 6] for j in range(3)]):
        st["x"], st["y"] = X0 + (c + 0.5) * res, Y0 + (sc.rows - 0.5 - r) * res
        st["row"] = st["col"] = None
        st["lon"], st["lat"] = (float(v) for v in tr.transform(st["x"], st["y"]))
        ctx.event("station_outside")
    if s["dem_nan"]:
        st = sc.stations[7]
        r, c = sc.rows // 2, 1
        st["x"], st["y"], st["row"], st["col"] = X0 + (c + 0.4) * res, Y0 + (sc.rows - 0.5 - r) * res, r, c
        st["lon"], st["lat"] = (float(v) for v in tr.transform(st["x"], st["y"]))
        ctx.event("extend_roi_nan")
    m = sc.init_model()
    valid = sc.roi & np.isfinite(sc.dem)
    exp = valid.copy()
    ds = m.meteo
    for st in sc.stations:
        q = ds.sel(station=st["id"])
        inside = st["row"] is not None
        ctx.event("station_pos")
        ctx.check(bool(q.within_grid_extent) == inside, "within-grid", f"station {st['id']} within_grid_extent {bool(q.within_grid_extent)}, expected {inside}")
        ctx.check(abs(float(q.x) - st["x"]) < 0.01 and abs(float(q.y) - st["y"]) < 0.01, "station-xy", f"station coordinates {float(q.x)}, {float(q.y)}, expected {st['x']}, {st['y']}")
        if inside:
            ctx.check((int(q.row), int(q.col)) == (st["row"], st["col"]), "station-pixel", f"station {st['id']} in pixel {int(q.row)}, {int(q.col)}, expected {st['row']}, {st['col']}")
            if s["config"]["extend_roi_with_stations"] and np.isfinite(sc.dem[st["row"], st["col"]]):
                exp[st["row"], st["col"]] = True
        else:
            ctx.check(not bool(q.within_roi), "outside-roi", "station outside of the grid is within the region of interest")
    ctx.event("extend_roi", (exp != valid).any())
    ctx.check(np.array_equal(m.grid.roi, exp), "extended-roi", f"region of interest has {m.grid.roi.sum()} pixels, expected {exp.sum()} (extend_roi_with_stations {s['config']['extend_roi_with_stations']})")
    for st in sc.stations:
        if st["row"] is not None:
            ctx.check(bool(ds.sel(station=st["id"]).within_roi) == bool(exp[st["row"], st["col"]]), "within-roi", f"within_roi of station {st['id']}")
    ctx.check(np.array_equal(m.grid.roi_idxs, np.argwhere(exp)) and len(m.grid.roi_points) == exp.sum(), "roi-index", "coordinates of the region of interest are not updated")
    for _ in range(3):
        m.run_single()
        for v in ("meteo.temp", "snow.swe", "surface.temp", "meteo.sw_in"):
            a = m.state[v]
            ctx.check(np.isfinite(a[exp]).all() or v == "meteo.sw_in", "roi-filled", f"{v} is not available in the whole region of interest")
            ctx.check(np.isnan(a[~exp]).all(), "roi-confined", f"{v} is available outside of the region of interest")
    ctx.state("stations", i % 2, int(exp.sum()))


def full_spec(rng, i, steps=24):
    s = workloads.snow_specs(rng, 5, steps=steps, snow=["multilayer", "cryolayers"][i % 2], regimes=["alpine", "swing", "meltout", "cold", "warm"])[i % 5]
    s["roi_frac"] = 0.55
    s["roi"] = True
    if i % 3 == 0:
        s["soil"] = [1, 2, 5]
        s["land_cover"] = [1, 2, 4, 5, 6, 7]
        deep_update(s["config"], {"evapotranspiration": {"enabled": True}, "canopy": {"enabled": True}})
    if s["config"]["snow"]["model"] == "cryolayers" and i % 4 == 1:
        s["glaciers"] = 0.5
        deep_update(s["config"], {"glaciers": {"enabled": True}})
    return s


STATIC = ["base.dem", "base.slope", "base.aspect", "base.normal_vec", "base.svf", "base.srf", "base.scaled_curvature", "land_cover.land_cover", "evapotranspiration.soil_texture", "glaciers.glacier", "soil.thickness",
          "soil.vol_moisture_content_sat", "soil.vol_moisture_content_crit", "soil.clapp_hornberger", "soil.sat_water_pressure", "soil.vol_heat_cap_dry", "soil.therm_cond_dry", "soil.therm_cond_minerals",
          "evapotranspiration.readily_evaporable_water", "evapotranspiration.total_evaporable_water"]


def run_confined(job, ctx):
    rng = np.random.default_rng(job["seed"])
    s = full_spec(rng, job["i"])
    m = Scenario(ctx.workdir, s).init_model()
    out = ~m.grid.roi
    init = trace.snapshot(m)
    n = len(m.dates)
    for q in range(n):
        m.run_single()
        if q % 5 and q != n - 1:
            continue
        b = trace.snapshot(m)
        ctx.event("outside_step")
        for v in b:
            if v in STATIC:
                ctx.event("static_checked")
                ctx.check(np.array_equal(init[v], b[v], equal_nan=init[v].dtype.kind == "f"), "static:" + v, f"{v} changes during the run")
                continue
            if v in GRID_WIDE:
                continue
            x = b[v][..., out]
            ctx.event("outside_checked")
            if x.dtype.kind == "f":
                ok = np.isnan(x) | (x == init[v][..., out]) | ((x == 0) if v in NOT_CONFINED else False)
            else:
                ok = (x == init[v][..., out]) | (x == 0)
            ctx.check(ok.all(), "outside:" + v, f"{v} is modified outside of the region of interest at step {q} (e.g. {x[~ok][:1]})")
    ctx.state("confined", s["config"]["snow"]["model"], job["i"])


def run_subset(job, ctx):
    """Results of a pixel do not depend on which other pixels are simulated.

    (radiation and the albedo of the surroundings couple the pixels, so runs without this coupling are used: temperature index melt, or polar night over flat terrain)
    """
    rng = np.random.default_rng(job["seed"])
    i = job["i"]
    ti = i % 2 == 0
    s = workloads.snow_specs(rng, 5, steps=40, snow="cryolayers" if ti else ["multilayer", "cryolayers"][(i // 2) % 2], melt=["temperature_index"][0] if ti else "energy_balance", regimes=["alpine", "swing", "meltout", "cold"], features=False)[i % 5]
    s["dem_nan"] = False
    s["config"]["meteo"]["precipitation_phase"]["enforce_no_snow_below_rain"] = False
    # (the search range of the legacy iteration ends 3 K below the coldest pixel)
    deep_update(s["config"], {"snow": {"cryolayers": {"surface_temperature_iteration_method": "secant"}}})
    if not ti:
        s["dem"] = "flat"
        s["start"], s["end"] = "2020-12-10", "2020-12-12 21:00"
        s["timestep"] = "3h"
    sc = Scenario(ctx.workdir / "a", s)
    if not ti:
        # far north: the sun stays below the horizon
        for d in (sc.grid_dir,):
            for p in d.glob("*.asc"):
                p.write_text(p.read_text().replace(f"yllcorner {Y0}", "yllcorner 8900000.0"))
        import pyproj

        tr = pyproj.Transformer.from_crs(CRS, "epsg:4326", always_xy=True)
        for st in sc.stations:
            st["y"] = st["y"] - Y0 + 8900000.0
            st["lon"], st["lat"] = (float(v) for v in tr.transform(st["x"], st["y"]))
    roi0 = sc.roi.copy()
    sub = roi0 & (rng.random(roi0.shape) < 0.5)
    if i % 5 == 4:
        sub[:] = False
    if not sub.any():
        r, c = np.argwhere(roi0)[int(rng.integers(0, roi0.sum()))]
        sub[:] = False
        sub[r, c] = True
        ctx.event("single_pixel")
    ds = sc.dataset()
    m0 = sc.model()
    m0.initialize(meteo=ds)
    y0 = Y0 if ti else 8900000.0
    write_asc(sc.grid_dir / f"roi_synth_{sc.res}.asc", sub.astype(int), sc.res, y0=y0, fmt="%d")
    m1 = sc.model()
    m1.initialize(meteo=ds)
    ctx.check(np.array_equal(m0.grid.roi, roi0) and np.array_equal(m1.grid.roi, sub), "subset-roi", "regions of interest differ from the files")
    skip = set()
    if ti:
        # everything but the radiation chain
        keep = {"meteo.temp", "meteo.precip", "meteo.rel_hum", "meteo.wind_speed", "meteo.snowfall", "meteo.rainfall", "meteo.wet_bulb_temp", "meteo.dew_point_temp", "meteo.atmos_press", "snow.swe", "snow.depth", "snow.melt",
                "snow.runoff", "snow.ice_content", "snow.liquid_water_content", "snow.thickness", "snow.density"}
    else:
        keep = None
    for q in range(len(m0.dates)):
        m0.run_single()
        m1.run_single()
        ctx.event("subset_step")
        a, b = trace.snapshot(m0), trace.snapshot(m1)
        if not ti and q == 0:
            ctx.check(not m0.sun_params["sun_over_horizon"], "polar-night", "the sun is up in the polar night")
        bad = False
        for v in sorted(keep or a):
            if v in skip or v not in a or a[v].dtype.kind != "f":
                continue
            bad |= not ctx.check_close(b[v][..., sub], a[v][..., sub], "subset:" + v, f"{v} of a pixel depends on the other pixels of the region of interest (step {q})", rtol=1e-9, atol=1e-9)
        if bad:
            break
    ctx.event("subset_run")
    ctx.state("subset", ti, s["config"]["snow"]["model"], int(sub.sum()))


def run(job, ctx):
    globals()["run_" + job["kind"]](job, ctx)
