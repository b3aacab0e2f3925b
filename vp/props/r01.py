"""R01: radiation: sun geometry, terrain shadows, clear-sky, cloudiness, longwave."""
import numpy as np
import pandas as pd

from vp import ref, trace, workloads
from vp.props import a01, i01
from vp.scenario import CRS, X0, Y0, Scenario, make_dem, write_asc

RULE = ("full runs over day and night, seasons, time zones, terrain kinds, shadow settings and cloudiness methods; one evaluation = one "
        "pixel-step radiation value compared with an independent evaluation (sun position, ray-wise shadows, clear-sky transmission, "
        "cloud factor, longwave); distinct = (method used, sun class, shadowed, sweeps, downsampling, extended grid)")
REQUIRED = {"clearsky": 3000, "shadowed": 200, "night": 500, "lw": 3000, "m_clear_sky_fraction": 20, "m_humidity": 20, "m_prescribed": 10,
            "m_constant": 5, "m_none": 2, "extended": 10, "ext_station": 8, "downsampled": 50, "tz_shift": 100, "low_sun": 50, "sun": 300,
            "sun_astro": 200, "shadow_fn": 1000, "callback": 50, "fallback": 5, "outside_roi": 3, "all_sweeps": 50, "high_terrain": 200}
T0, SB = ref.T0, ref.SB
SOLAR = 1366.1


def day_angle(doy):
    return 2 * np.pi * (doy - 1) / 365.25


def sun(date, lon, lat, tz):
    date = pd.Timestamp(date)
    doy = date.dayofyear
    da = day_angle(doy)
    eot = 229.18311805232929 * (0.0000075 + 0.001868 * np.cos(da) - 0.032077 * np.sin(da) - 0.014615 * np.cos(2 * da) - 0.040849 * np.sin(2 * da))
    n = np.deg2rad(360 / 365.25 * (doy - 79.346))
    dec = (0.3723 + 23.2567 * np.sin(n) - 0.758 * np.cos(n) + 0.1149 * np.sin(2 * n) + 0.3656 * np.cos(2 * n)
           - 0.1712 * np.sin(3 * n) + 0.0201 * np.cos(3 * n))
    hour = date.hour + date.minute / 60 + date.second / 3600
    ha = 15 * (hour - 12 + (4 * (lon - 15 * tz) + eot) / 60)
    h, d, la = np.deg2rad([ha, dec, lat])
    v = np.array([-np.sin(h) * np.cos(d), np.sin(la) * np.cos(h) * np.cos(d) - np.cos(la) * np.sin(d),
                  np.cos(la) * np.cos(h) * np.cos(d) + np.sin(la) * np.sin(d)])
    return dict(day_angle=da, equation_of_time=eot, declination_angle=dec, hour_angle=ha, sun_vector=v, zenith_angle=np.rad2deg(np.arccos(v[2])))


def sun_astro(utc, lon, lat):
    """Low-precision almanac position: (azimuth from north clockwise, zenith) in degrees."""
    jd = pd.Timestamp(utc).to_julian_date()
    n = jd - 2451545.0
    g = np.deg2rad((357.528 + 0.9856003 * n) % 360)
    L = (280.460 + 0.9856474 * n) % 360
    lam = np.deg2rad(L + 1.915 * np.sin(g) + 0.020 * np.sin(2 * g))
    eps = np.deg2rad(23.439 - 4e-7 * n)
    ra = np.arctan2(np.cos(eps) * np.sin(lam), np.cos(lam))
    dec = np.arcsin(np.sin(eps) * np.sin(lam))
    gmst = (18.697374558 + 24.06570982441908 * n) % 24
    h = np.deg2rad(gmst * 15 + lon) - ra
    la = np.deg2rad(lat)
    e, nn, u = -np.sin(h) * np.cos(dec), np.cos(la) * np.sin(dec) - np.sin(la) * np.cos(h) * np.cos(dec), np.sin(la) * np.sin(dec) + np.cos(la) * np.cos(dec) * np.cos(h)
    return np.array([e, nn, u])


def shadow_ref(dem, res, sv, sweeps):
    """Scan lines along the sun azimuth; returns (illuminated, near-tie pixels)."""
    rows, cols = dem.shape
    step = -sv[:2] / np.max(np.abs(sv[:2]))
    hor = np.hypot(sv[0], sv[1])
    nv = np.array([-sv[0] * sv[2] / hor, -sv[1] * sv[2] / hor, hor])
    if sweeps == -1:
        sweeps = max(rows, cols)
    starts = set()
    r_edge = range(min(sweeps, rows)) if sv[1] < 0 else range(max(0, rows - sweeps), rows)
    c_edge = range(min(sweeps, cols)) if sv[0] < 0 else range(max(0, cols - sweeps), cols)
    for r in r_edge:
        starts |= {(r, c) for c in range(cols)}
    for c in c_edge:
        starts |= {(r, c) for r in range(rows)}
    ill = np.ones(dem.shape, int)
    tie = np.zeros(dem.shape, bool)
    for r0, c0 in starts:
        top, n = -np.inf, 0
        while True:
            fx, fy = c0 + step[0] * n, r0 + step[1] * n
            c, r = int(np.rint(fx)), int(np.rint(fy))
            if not (0 <= c < cols and 0 <= r < rows):
                break
            zp = step[0] * n * res * nv[0] + step[1] * n * res * nv[1] + dem[r, c] * nv[2]
            half = min(abs(fx - np.floor(fx) - 0.5), abs(fy - np.floor(fy) - 0.5)) < 1e-9
            if abs(zp - top) < 1e-7 or half:
                tie[r, c] = True
            if zp < top:
                ill[r, c] = 0
            else:
                top = zp  # a NaN elevation ends the comparison along the line
            n += 1
    return ill, tie


def clearsky(sp, ill, dem, svf, nv, press, pw, alb, roi, rc):
    z = np.arccos(sp["sun_vector"][2])
    da, sv = sp["day_angle"], sp["sun_vector"]
    ecc = 1.00011 + 0.034221 * np.cos(da) + 0.00128 * np.sin(da) + 0.000719 * np.cos(2 * da) + 0.000077 * np.sin(2 * da)
    aoi = np.maximum(sv[0] * nv[0] - sv[1] * nv[1] + sv[2] * nv[2], 0)
    aoi = np.where(np.isnan(nv[0]), np.nan, aoi)
    m = min(1 / (np.cos(z) + 0.15 * (93.885 - np.rad2deg(z)) ** -1.253), 14.1952)
    ma = m * press / 101325.0
    o3 = rc.ozone_layer_thickness * 100 * m
    t_r = np.exp(-0.0903 * ma**0.84 * 1.0) * (1 + ma - ma**1.01)
    t_o = 1 - (0.1611 * o3 * (1 + 139.48 * o3) ** -0.3035 - 0.002715 * o3 / (1 + 0.044 * o3 + 3e-4 * o3**2))
    t_g = np.exp(-0.0127 * ma**0.26)
    w = pw / 10 * m
    t_w = 1 - 2.4959 * w / ((1 + 79.034 * w) ** 0.6828 + 6.385 * w)
    t_a = (0.97 - 1.265 * (rc.atmospheric_visibility / 1000) ** -0.66) ** (ma**0.9)
    t_aa = 1 - (1 - rc.single_scattering_albedo) * (1 - ma + ma**1.06) * (1 - t_a)
    t_dir = np.clip(t_r * t_o * t_g * t_w * t_a + 2.2e-5 * np.minimum(dem, 3000), 0, 1)
    i0 = SOLAR * ecc
    pot = i0 * aoi * ill
    direct = 0.9751 * pot * t_dir
    com = 0.79 * i0 * np.cos(z) * t_o * t_g * t_w * t_aa / (1 - ma + ma**1.02)
    fc = -0.2562 * z**2 + 0.1409 * z + 0.9067
    ray, aer = com * 0.5 * (1 - t_r), com * fc * (1 - t_a / t_aa)
    atm = rc.clear_sky_albedo + (1 - fc) * (1 - t_a / t_aa)
    mult = (direct * np.cos(z) + ray + aer) * alb * atm / (1 - alb * atm)
    dif = ray + aer + mult
    lit = ill[roi] == 1
    ma_sun = np.nanmean(aoi[roi][lit]) if lit.any() else 0.0
    terr = (1 - svf) * (pot * t_dir * ill[roi].mean() * ma_sun + dif) * alb
    return direct, dif * svf + terr


def jobs(tier, seed):
    rng = np.random.default_rng([seed, 16])
    k = 1 if tier == "quick" else 4
    out = []
    for i in range(28 * k):
        start = ["2020-06-20", "2020-12-20", "2021-03-20 06:00", "2020-09-21 12:00", "2020-02-28", "2020-12-31"][i % 6]
        method = ["clear_sky_fraction", "humidity", "clear_sky_fraction", "prescribed", "clear_sky_fraction"][i % 5]
        rad = {"num_shadow_sweeps": [1, -1, 2, 1][i % 4], "shadows_downsampling_factor": [1, 1, 2, 1, 3][i % 5]}
        if i % 3 == 1:
            rad.update(ozone_layer_thickness=0.004, atmospheric_visibility=60000.0, single_scattering_albedo=0.85, clear_sky_albedo=0.1,
                       cloud_emissivity=0.95, rock_emission_factor=0.02)
        c = {"snow": {"model": ["cryolayers", "cryolayers", "multilayer"][i % 3]}, "timezone": [1, 1, 3, 0][i % 4],
             "soil": {"albedo": [0.15, 0.25][i % 2]},
             "meteo": {"radiation": rad, "interpolation": {"cloudiness": {
                 "method": method, "clear_sky_fraction_night_method": ["humidity", "constant"][(i // 2) % 2], "allow_fallback": i % 6 != 5,
                 "pressure_level": [700, 650][i % 2], "saturation_cloud_fraction": [0.832, 1.0][(i // 2) % 2], "e_folding_humidity": [58.4, 40.0][(i // 3) % 2]}}}}
        if i % 4 == 2:
            c["simulation_timezone"] = [0, 5, -3][(i // 4) % 3]
        s = dict(seed=int(rng.integers(1, 2**31)), start=start, timestep=["h", "2h", "h"][i % 3], rows=int(rng.integers(6, 11)), cols=int(rng.integers(6, 11)),
                 res=[50, 100, 20][i % 3], dem=["rough", "valley", "peak", "rough", "flat"][i % 5], num_stations=[3, 5, 1, 4][i % 4], missing=[0.0, 0.35, 0.0, 0.6][(i // 2) % 4],
                 regime=["alpine", "cold", "warm"][i % 3], roi_frac=[0.7, 1.0, 0.5][i % 3], stations_in_roi=bool(i % 2), blackout=[2, 9], config=c,
                 extended=(i % 4 == 3 or i % 5 == 4), dem_nan=(i % 7 == 6), no_sw=(i % 9 == 4), lift=(i % 3 == 2), ext_kind=(i // 2) % 3, high=(i % 5 == 1))
        s["end"] = str(pd.Timestamp(start) + pd.Timedelta(hours=30 if s["timestep"] == "h" else 44))
        out.append({"spec": s})
    for i in range(2 * k):
        out.append({"spec": dict(seed=int(rng.integers(1, 2**31)), start="2020-05-01", end="2020-05-02", timestep="h", rows=7, cols=8, res=50, dem="rough",
                                 config={"snow": {"model": "cryolayers"}, "input_data": {"meteo": {"format": "callback"}}}), "callback": True})
    out += [{"sun": int(rng.integers(1, 2**31)), "n": 150 * k} for _ in range(2)]
    out += [{"sh": int(rng.integers(1, 2**31)), "n": 25 * k} for _ in range(4)]
    return workloads.hostile(out)


def fn_sun(job, ctx):
    from openamundsen.modules import radiation as r

    rng = np.random.default_rng(job["sun"])
    for it in range(job["n"]):
        lat, lon = float(rng.uniform(-75, 75)), float(rng.uniform(-180, 180))
        tz = int(np.round(lon / 15)) if it % 2 else int(rng.integers(-11, 13))
        date = pd.Timestamp("2019-01-01") + pd.Timedelta(minutes=int(rng.integers(0, 3 * 365 * 1440)))
        if it % 11 == 0:
            date = pd.Timestamp(f"{2019 + it % 3}-12-31 23:59")
        got = r.sun_parameters(date, lon, lat, tz)
        want = sun(date, lon, lat, tz)
        for k2, v in want.items():
            ctx.check_close(got[k2], v, f"sun-{k2}", f"{k2} at {date} {lon:.2f} {lat:.2f} tz {tz}", rtol=1e-9, atol=1e-9)
        ctx.check(bool(got["sun_over_horizon"]) == (got["zenith_angle"] < 90), "sun-horizon", "sun_over_horizon does not match the zenith angle")
        ctx.event("sun")
        # almanac: the simplified position must agree within the daily change of declination and equation of time
        # (both are evaluated for local noon of the day)
        e, n, u = sun_astro(date - pd.Timedelta(hours=tz), lon, lat)
        v = got["sun_vector"]
        ang = np.rad2deg(np.arccos(np.clip(v[0] * e - v[1] * n + v[2] * u, -1, 1)))
        ctx.check(ang < 1.2, "sun-astro", f"sun position at {date} {lon:.2f} {lat:.2f} tz {tz} is {ang:.2f} degrees from the astronomical position")
        ctx.event("sun_astro")
        ctx.state("sun", int(want["zenith_angle"] // 30), lat > 0)


def fn_shadows(job, ctx):
    from openamundsen.modules import radiation as r

    rng = np.random.default_rng(job["sh"])
    for it in range(job["n"]):
        rows, cols = int(rng.integers(3, 14)), int(rng.integers(3, 14))
        res = float(rng.choice([20, 50, 250]))
        dem = make_dem(rng, rows, cols, ["rough", "valley", "peak", "flat"][it % 4], res) + (rng.normal(0, 0.5 * res, (rows, cols)) if it % 3 == 0 else 0)
        az, el = rng.uniform(0, 360), rng.uniform(1, 60)
        a, e = np.deg2rad([az, el])
        sv = np.array([np.sin(a) * np.cos(e), -np.cos(a) * np.cos(e), np.sin(e)])
        sw = [1, -1, 2, 5][it % 4]
        got = np.asarray(r.shadows(dem, res, sv, num_sweeps=sw)).astype(int)
        want, tie = shadow_ref(dem, res, sv, sw)
        bad = (got != want) & ~tie
        ctx.check(not bad.any(), "shadows", f"{int(bad.sum())} pixels differ from scan-line shadows (azimuth {az:.1f}, elevation {el:.1f}, sweeps {sw})")
        ctx.ok(dem.size)
        ctx.event("shadow_fn", dem.size)
        ctx.state("shadow", int(az // 45), sw, bool((want == 0).any()))
        # physical: the highest pixel is always illuminated
        ctx.check(got[np.unravel_index(np.argmax(dem), dem.shape)] == 1, "summit", "the highest pixel is in shadow")


def run(job, ctx):
    import openamundsen as oa

    if "sun" in job:
        return fn_sun(job, ctx)
    if "sh" in job:
        return fn_shadows(job, ctx)
    spec = job["spec"]
    rng = np.random.default_rng(spec["seed"] + 1)
    sc = Scenario(ctx.workdir, spec)
    if spec.get("lift"):
        # southern wall so that pixels are shadowed at noon, too
        sc.dem[-1] += 25 * sc.res / 10
        sc.dem[:, 0] += 10 * sc.res / 10
        write_asc(sc.grid_dir / f"dem_synth_{sc.res}.asc", sc.dem, sc.res)
    if spec.get("high"):
        sc.dem += 3000 - float(np.nanmean(sc.dem))
        write_asc(sc.grid_dir / f"dem_synth_{sc.res}.asc", sc.dem, sc.res)
    ext = None
    if spec.get("extended"):
        pr, pc = 2, 3
        big = make_dem(rng, sc.rows + 2 * pr, sc.cols + 2 * pc, "rough", sc.res) + 3 * sc.res
        big[pr:-pr, pc:-pc] = sc.dem
        ext = (pr, pc)
        write_asc(sc.grid_dir / f"extended-dem_synth_{sc.res}.asc", big, sc.res, X0 - pc * sc.res, Y0 - pr * sc.res)
        # one or two stations in the extension, one beyond it
        import pyproj

        tr = pyproj.Transformer.from_crs(CRS, "epsg:4326", always_xy=True)
        for st, (ox, oy) in zip(sc.stations, [
            [(-1.5, 1.5), (sc.cols + 1.4, sc.rows + 0.6), (-4.5, 2.5)], [(-2.5, -1.5), (sc.cols + 2.5, sc.rows + 1.5), (2.5, sc.rows + 2.5)],
            [(sc.cols + 2.4, -1.4), (2.5, -2.5), (sc.cols + 3.5, 2.5)]][spec["ext_kind"]][: max(1, len(sc.stations) - 1)]):
            st["x"], st["y"] = X0 + ox * sc.res, Y0 + oy * sc.res
            st["lon"], st["lat"] = (float(v) for v in tr.transform(st["x"], st["y"]))
    cc = spec["config"].get("meteo", {}).get("interpolation", {}).get("cloudiness", {})
    for j, df in enumerate(sc.forcing.values()):
        if spec.get("no_sw"):
            df["sw_in"] = np.nan
        if cc.get("method") == "prescribed":
            cf = rng.uniform(0, 100, len(df))
            cf[rng.random(len(df)) < 0.55] = np.nan
            df["cloud_fraction"] = cf
    if job.get("callback"):
        return callback(sc, job, ctx)
    ds = sc.dataset()
    m = sc.model()
    m.initialize(meteo=ds)
    cfg = m.config
    rc, cl = cfg.meteo.radiation, cfg.meteo.interpolation.cloudiness
    roi = m.grid.roi
    dem, svf, nv = m.state.base.dem, m.state.base.svf, m.state.base.normal_vec
    mt = m.meteo
    g = {v: (mt[v].transpose("time", "station").values.astype(float) if v in mt else None) for v in ("temp", "rel_hum", "sw_in", "cloud_fraction")}
    X, Y, Z = (mt[v].values.astype(float) for v in ("x", "y", "alt"))
    order = [next(s for s in sc.stations if s["id"] == i) for i in mt.station.values]
    lon, lat = center(m)
    tz = cfg.timezone
    shift = pd.Timedelta(hours=0 if cfg.simulation_timezone is None else tz - cfg.simulation_timezone)
    px, py = X0 + (np.where(roi)[1] + 0.5) * sc.res, Y0 + (sc.rows - 0.5 - np.where(roi)[0]) * sc.res
    f = rc.shadows_downsampling_factor
    prev_cf = None
    sdem = m.grid.extended_grid.dem if ext else dem
    # station positions from the coordinates
    c_i = np.floor((X - X0) / sc.res).astype(int)
    r_i = sc.rows - 1 - np.floor((Y - Y0) / sc.res).astype(int)
    in_grid = (r_i >= 0) & (r_i < sc.rows) & (c_i >= 0) & (c_i < sc.cols)
    in_roi = in_grid.copy()
    in_roi[in_grid] = roi[r_i[in_grid], c_i[in_grid]]
    if ext:
        in_ext = ~in_grid & (r_i + ext[0] >= 0) & (r_i + ext[0] < sdem.shape[0]) & (c_i + ext[1] >= 0) & (c_i + ext[1] < sdem.shape[1])
    tri = np.isnan(nv[0]) | np.isnan(dem)
    for pre, post in trace.iterate(m, ("meteo", "surface", "snow")):
        i = m.date_idx
        d = m.date
        w = f"at {d}"
        sp = sun(d + shift, lon, lat, tz)
        zen = sp["zenith_angle"]
        if abs(zen - 90) < 0.02:
            continue
        up = zen < 90
        Q = lambda v: post[f"meteo.{v}"][roi]
        alb = pre["surface.albedo"][roi].mean()
        alb = cfg.soil.albedo if np.isnan(alb) else alb
        if not up:
            for v in ("sw_in_clearsky", "dir_in_clearsky", "diff_in_clearsky"):
                ctx.check_close(Q(v), 0.0, f"night-{v}", f"{v} {w} (zenith {zen:.1f})")
            ctx.event("night", roi.sum())
            tie = np.zeros(dem.shape, bool)
        else:
            small = sdem[::f, ::f]
            ill_s, tie_s = shadow_ref(small, sc.res * f, sp["sun_vector"], rc.num_shadow_sweeps)
            big = lambda a: a.repeat(f, 0).repeat(f, 1)[: sdem.shape[0], : sdem.shape[1]]
            ill_x, tie_x = big(ill_s), big(tie_s)
            ill, tie = (ill_x, tie_x) if not ext else tuple(a[ext[0]:ext[0] + sc.rows, ext[1]:ext[1] + sc.cols] for a in (ill_x, tie_x))
            if tie.any():  # knife-edge illumination: global terms depend on it, too
                ctx.event("tie_step")
                prev_cf = post["meteo.cloud_factor"][roi]
                continue
            pw = 465.0 * ref.es(post["meteo.temp"]) * post["meteo.rel_hum"] / 100 / 100 / post["meteo.temp"]
            di, df = clearsky(sp, ill, dem, svf, nv, ref.pressure(dem), pw, alb, roi, rc)
            tol = dict(rtol=1e-7, atol=1e-6)
            ctx.check_close(Q("dir_in_clearsky"), di[roi], "direct", f"clear-sky direct irradiance {w} (zenith {zen:.1f})", **tol)
            ctx.check_close(Q("diff_in_clearsky"), df[roi], "diffuse", f"clear-sky diffuse irradiance {w} (zenith {zen:.1f})", **tol)
            ctx.check_close(Q("sw_in_clearsky"), (di + df)[roi], "clearsky", f"clear-sky irradiance {w} (zenith {zen:.1f})", **tol)
            ok = np.isfinite(Q("sw_in_clearsky"))
            ctx.check(((Q("dir_in_clearsky")[ok] >= 0) & (Q("dir_in_clearsky")[ok] <= SOLAR * 1.04)).all(), "clearsky-range", f"direct irradiance outside of its physical range {w}")
            sh = (ill == 0) & roi & ~tri
            ctx.check_close(post["meteo.dir_in_clearsky"], 0.0, "shadow-direct", f"direct irradiance of shadowed pixels {w}", mask=sh & np.isfinite(post["meteo.dir_in_clearsky"]))
            ctx.event("clearsky", roi.sum()); ctx.event("high_terrain", (dem[roi] > 3000).sum()); ctx.event("shadowed", sh.sum()); ctx.event("low_sun", roi.sum() * (zen > 86))
            ctx.event("downsampled", roi.sum() * (f > 1)); ctx.event("extended", bool(ext)); ctx.event("all_sweeps", roi.sum() * (rc.num_shadow_sweeps == -1))
        ctx.event("tz_shift", roi.sum() * (shift != pd.Timedelta(0)))
        # cloudiness
        meth = cl.method
        has = lambda *vs: np.all([np.isfinite(g[v][i]) for v in vs], axis=0)
        if meth == "prescribed":
            s = has("cloud_fraction")
            if not s.any() and cl.allow_fallback:
                meth = "clear_sky_fraction"; ctx.event("fallback")
        if meth == "clear_sky_fraction":
            if not up:
                meth = cl.clear_sky_fraction_night_method
            else:
                s1 = in_roi & has("sw_in")
                s2 = (in_ext & has("sw_in", "temp", "rel_hum")) if ext else np.zeros(len(X), bool)
                if not (s1 | s2).any() and cl.allow_fallback:
                    meth = "humidity"; ctx.event("fallback")
                    ctx.event("outside_roi", (in_grid & ~in_roi & has("sw_in")).any())
        if meth == "humidity":
            s = has("temp", "rel_hum")
            if not s.any() and cl.allow_fallback:
                meth = "constant"; ctx.event("fallback")
        if meth == "constant":
            want = np.full(roi.sum(), np.nan) if prev_cf is None else prev_cf.copy()
            want[np.isnan(want)] = 0.75
        else:
            if meth == "humidity":
                mon = d.month - 1
                tl, dl = cfg.meteo.interpolation.temperature.lapse_rate[mon], cfg.meteo.interpolation.humidity.lapse_rate[mon]
                zp = (1 - (cl.pressure_level * 100 / 101325.0) ** (8.314462618 / (ref.CP * 0.02896968))) * ref.CP * 288.15 / ref.G
                dd = a01.derived(g["temp"][i, s], g["rel_hum"][i, s], Z[s])
                rh7 = 100 * ref.es(dd["dew_point_temp"] - dl * (Z[s] - zp)) / ref.es(g["temp"][i, s] - tl * (Z[s] - zp))
                n = np.clip(cl.saturation_cloud_fraction * np.exp((rh7 - 100) / (100 - cl.e_folding_humidity)), 0, 1)
                fac, sx, sy = 1 - 0.233 * n - 0.415 * n**2, X[s], Y[s]
            elif meth == "prescribed":
                n = g["cloud_fraction"][i, s] / 100
                fac, sx, sy = 1 - 0.233 * n - 0.415 * n**2, X[s], Y[s]
            else:
                fac = g["sw_in"][i, s1] / post["meteo.sw_in_clearsky"][r_i[s1], c_i[s1]]
                sx, sy = X[s1], Y[s1]
                if ext and (in_ext & has("temp", "rel_hum")).any():
                    e = np.flatnonzero(in_ext & has("temp", "rel_hum"))  # incl. stations without radiation
                    eg = m.grid.extended_grid
                    rr, c2 = r_i[e] + ext[0], c_i[e] + ext[1]
                    zz = sdem[rr, c2]
                    te = g["temp"][i, e]
                    di, df = clearsky(sp, ill_x[rr, c2], zz, eg.svf[rr, c2], eg.normal_vec[:, rr, c2], ref.pressure(zz),
                                      465.0 * ref.es(te) * g["rel_hum"][i, e] / 1e4 / te, alb, np.ones(len(e), bool), rc)
                    fe = g["sw_in"][i, e] / (di + df)
                    k = np.isfinite(fe)
                    fac, sx, sy = np.append(fac, fe[k]), np.append(sx, X[e][k]), np.append(sy, Y[e][k])
                    ctx.event("ext_station", k.sum())
                    if not np.array_equal(sdem[rr, c2], sdem[rr, c2], equal_nan=True):
                        continue
            k = np.isfinite(fac)
            if not k.any():
                want = np.full(roi.sum(), np.nan); meth = "none"
            else:
                want = np.clip(i01.idw(sx[k], sy[k], fac[k], px, py), 0, 1)
        ctx.event(f"m_{meth}")
        got = Q("cloud_factor")
        ctx.check_close(got, want, f"cloud-factor-{meth}", f"cloud factor ({meth}) {w}", rtol=1e-6, atol=1e-7)
        n = np.clip((-0.233 + np.sqrt(np.maximum(0.233**2 + 4 * 0.415 * (1 - got), 0))) / (2 * 0.415), 0, 1)
        ctx.check_close(Q("cloud_fraction"), n, "cloud-fraction", f"cloud fraction {w}", rtol=1e-7, atol=1e-9)
        ctx.check_close(Q("sw_in"), Q("sw_in_clearsky") * got, "sw-in", f"incoming shortwave {w}", rtol=1e-9)
        prev_cf = got
        # longwave
        t, sv = Q("temp"), svf[roi]
        pw = 465.0 * ref.es(t) * Q("rel_hum") / 1e4 / t
        em = 1 - (1 + pw / 10) * np.exp(-np.sqrt(1.2 + 0.3 * pw))
        rock = (pre["snow.swe"][roi] == 0).mean()
        cf = Q("cloud_fraction")
        want = (SB * t**4 * sv * (em * (1 - cf**2) + rc.cloud_emissivity * cf**2)
                + SB * (1 - sv) * (rock * (t + rc.rock_emission_factor * Q("sw_in")) ** 4 + (1 - rock) * pre["surface.temp"][roi] ** 4))
        ctx.check_close(Q("lw_in"), want, "longwave", f"incoming longwave {w}", rtol=1e-7)
        ctx.event("lw", np.isfinite(want).sum())
        ctx.state(meth, int(zen // 20), bool(up and (ill[roi] == 0).any()), rc.num_shadow_sweeps, f, bool(ext))


def center(m):
    import pyproj

    tr = pyproj.Transformer.from_crs(CRS, "epsg:4326", always_xy=True)
    t = m.grid.transform
    cols, rows, res = m.grid.cols, m.grid.rows, m.grid.resolution
    # mean of the first and the last pixel centre
    return tr.transform(t.c + res * cols / 2, t.f - res * rows / 2)


def callback(sc, job, ctx):
    rng = np.random.default_rng(job["spec"]["seed"])
    log = {}

    def cb(model):
        r = model.grid.roi
        n = int(r.sum())
        s = model.state.meteo
        s.temp[r] = 275 + rng.normal(0, 3, n)
        s.precip[r] = 0
        s.rel_hum[r] = rng.uniform(20, 100, n)
        s.wind_speed[r] = 2
        s.cloud_factor[r] = rng.uniform(0.2, 1, n)
        s.cloud_fraction[r] = rng.uniform(0, 1, n)
        log["cf"], log["cn"] = s.cloud_factor[r].copy(), s.cloud_fraction[r].copy()

    m = sc.model()
    m.initialize(meteo_callback=cb)
    roi = m.grid.roi
    for pre, post in trace.iterate(m, ("meteo", "surface", "snow")):
        Q = lambda v: post[f"meteo.{v}"][roi]
        ctx.check_close(Q("cloud_factor"), log["cf"], "cb-factor", "cloud factor provided by the callback is changed")
        ctx.check_close(Q("cloud_fraction"), log["cn"], "cb-fraction", "cloud fraction provided by the callback is changed")
        ctx.check_close(Q("sw_in"), Q("sw_in_clearsky") * log["cf"], "cb-sw", "incoming shortwave with callback forcing", rtol=1e-9)
        ctx.event("callback", roi.sum())
