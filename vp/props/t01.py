"""T01: terrain parameters."""
import numpy as np

from vp import workloads
from vp.props import r01
from vp.scenario import X0, Y0, Scenario, make_dem, write_asc

RULE = ("random terrain (all sizes incl. degenerate, nodata, rotated/mirrored) through the public terrain functions and through model "
        "initialisation, at several thread counts; one evaluation = one pixel compared with an independent per-pixel evaluation; distinct = "
        "(function, size class, terrain kind, parameters)")
REQUIRED = {"slope": 3000, "normal": 3000, "svf": 1500, "curvature": 1500, "openness": 5000, "normalize": 50, "tiny": 5, "rotated": 20,
            "model": 300, "svf_cached": 100, "threads": 5, "plane": 20, "extended": 50, "elev_step": 3}
KINDS = ["rough", "valley", "peak", "plane", "flat"]


def jobs(tier, seed):
    rng = np.random.default_rng([seed, 17])
    k = 1 if tier == "quick" else 6
    out = [{"fn": int(rng.integers(1, 2**31)), "n": 16} for _ in range(7 * k)]
    out += [{"svf": int(rng.integers(1, 2**31)), "n": 3} for _ in range(5 * k)]
    out += [{"opn": int(rng.integers(1, 2**31)), "n": 4} for _ in range(3 * k)]
    for i in range(6 * k):
        s = dict(seed=int(rng.integers(1, 2**31)), start="2020-01-01", end="2020-01-01 06:00", timestep="3h", rows=int(rng.integers(3, 10)), cols=int(rng.integers(3, 10)),
                 res=[20, 50, 100][i % 3], dem=KINDS[i % 3], dem_nan=(i % 3 == 2), extended=(i % 2 == 1),
                 config={"snow": {"model": "cryolayers"}, "meteo": {"radiation": {"num_shadow_sweeps": [1, 2, -1][i % 3]}}})
        if i % 3 != 2:
            s["config"]["meteo"]["interpolation"] = {"wind": {"method": "liston", "curvature_length_scale": [100, 50, 1750][i % 3]}}
        out.append({"spec": s})
    return out


def horn(dem, res):
    """Slope/aspect, per pixel loops; border pixels reuse the neighbour heights of the adjacent inner pixel, per neighbour position."""
    R, C = dem.shape
    slope, gx, gy = np.empty(dem.shape), np.empty(dem.shape), np.empty(dem.shape)

    def nb(r, c, dr, dc):
        rr = r
        cc = c
        if dr == -1 and r == 0:
            rr = 1
        if dr == 1 and r == R - 1:
            rr = R - 2
        if dc == -1 and c == 0:
            cc = 1
        if dc == 1 and c == C - 1:
            cc = C - 2
        return dem[rr + dr, cc + dc]

    for r in range(R):
        for c in range(C):
            e = sum(w * nb(r, c, dr, 1) for dr, w in ((-1, 1), (0, 2), (1, 1)))
            wst = sum(w * nb(r, c, dr, -1) for dr, w in ((-1, 1), (0, 2), (1, 1)))
            s = sum(w * nb(r, c, 1, dc) for dc, w in ((-1, 1), (0, 2), (1, 1)))
            n = sum(w * nb(r, c, -1, dc) for dc, w in ((-1, 1), (0, 2), (1, 1)))
            gx[r, c], gy[r, c] = (e - wst) / (8 * res), (s - n) / (8 * res)
    slope = np.rad2deg(np.arctan(np.hypot(gx, gy)))
    aspect = np.rad2deg(np.arctan2(-gx, gy)) % 360  # direction of steepest descent, clockwise from north
    return slope, aspect, np.hypot(gx, gy)


def normal(dem, res):
    R, C = dem.shape
    out = np.empty((3, R, C))
    for r in range(R):
        for c in range(C):
            rr, cc = max(r, 1), min(c, C - 2)  # first row and last column repeat their neighbours
            z, ri, up, di = dem[rr, cc], dem[rr, cc + 1], dem[rr - 1, cc], dem[rr - 1, cc + 1]
            v = np.array([0.5 * res * (z - ri + up - di), 0.5 * res * (z + ri - up - di), res**2])
            out[:, r, c] = v / np.sqrt((v**2).sum())
    return out


def curvature(dem, L, res):
    n = int(np.ceil(L / res))
    R, C = dem.shape
    out = np.empty(dem.shape)
    for r in range(R):
        for c in range(C):
            g = lambda dr, dc: dem[min(max(r + dr * n, 0), R - 1), min(max(c + dc * n, 0), C - 1)]
            z = dem[r, c]
            out[r, c] = ((z - (g(0, -1) + g(0, 1)) / 2) / (2 * L) + (z - (g(-1, 0) + g(1, 0)) / 2) / (2 * L)
                         + (z - (g(1, -1) + g(-1, 1)) / 2) / (2 * np.sqrt(2) * L) + (z - (g(-1, -1) + g(1, 1)) / 2) / (2 * np.sqrt(2) * L)) / 4
    return out


def openness(dem, res, L, negative):
    if negative:
        dem = -dem
    R, C = dem.shape
    dirs = [(-1, 0), (-1, 1), (0, 1), (1, 1), (1, 0), (1, -1), (0, -1), (-1, -1)]
    out = np.full((8, R, C), np.inf)
    r, c = np.mgrid[0:R, 0:C]
    for k, (dr, dc) in enumerate(dirs):
        for n in range(1, int(np.ceil(L / res)) + 1):
            rr, cc = r + dr * n, c + dc * n
            ok = (rr >= 0) & (rr < R) & (cc >= 0) & (cc < C)
            z = np.where(ok, dem[np.clip(rr, 0, R - 1), np.clip(cc, 0, C - 1)], dem)
            out[k] = np.fmin(out[k], np.pi / 2 - np.arctan2(z - dem, res * n * np.hypot(dr, dc)))
    return out


def svf_ref(dem, res, azs, sweeps, step=1):
    sl = horn(dem, res)[0] if min(dem.shape) >= 3 else np.zeros(dem.shape)
    top = max(int(np.ceil(np.nanmax(sl))), 1)
    svf, tie = np.zeros(dem.shape), np.zeros(dem.shape, bool)
    for az in azs:
        a = np.deg2rad(az)
        hor = np.full(dem.shape, float(top))
        for el in np.arange(1, top + 1, step)[::-1]:
            e = np.deg2rad(el)
            ill, t = r01.shadow_ref(dem, res, np.array([np.sin(a) * np.cos(e), -np.cos(a) * np.cos(e), np.sin(e)]), sweeps)
            hor[ill == 1] = el
            tie |= t
        svf += np.cos(np.deg2rad(hor)) ** 2
    return svf / len(azs), tie


def run(job, ctx):
    import numba
    from openamundsen import terrain, util

    if "spec" in job:
        return model(job, ctx)
    if "fn" in job:
        rng = np.random.default_rng(job["fn"])
        for it in range(job["n"]):
            R, C = int(rng.integers(3, 13)), int(rng.integers(3, 13))
            res = float(rng.choice([10, 50, 333]))
            kind = KINDS[it % 5]
            dem = make_dem(rng, R, C, kind, res)
            if it % 6 == 5:
                dem[rng.integers(0, R), rng.integers(0, C)] = np.nan
            keep = dem.copy()
            s, a = terrain.slope_aspect(dem, res)
            ws, wa, mag = horn(dem, res)
            ctx.check_close(s, ws, "slope", f"slope ({kind} {R}x{C})", rtol=1e-7, atol=1e-7)
            ok = (mag > 1e-6)
            da = np.abs((a - wa + 180) % 360 - 180)
            ctx.check((da[ok] < 1e-5).all(), "aspect", f"aspect ({kind} {R}x{C})")
            ctx.check(((a[ok] >= 0) & (a[ok] <= 360)).all(), "aspect-range", "aspect outside of 0-360 degrees")
            ctx.event("slope", dem.size)
            nv = terrain.normal_vector(dem, res)
            ctx.check_close(nv, normal(dem, res), "normal", f"normal vector ({kind})", rtol=1e-7, atol=1e-9)
            ln = np.sqrt((nv**2).sum(0))
            ctx.check_close(ln[np.isfinite(ln)], 1.0, "normal-unit", "normal vector is not a unit vector")
            ctx.event("normal", dem.size)
            if kind == "plane" and not np.isnan(dem).any():
                # interior of an inclined plane: slope, aspect and normal vector are known and agree
                gx, gy = -0.2, 0.35
                i = (slice(1, -1), slice(1, -1))
                if R > 2 and C > 2:
                    ctx.check_close(s[i], np.rad2deg(np.arctan(np.hypot(gx, gy))), "plane-slope", "slope of a plane", rtol=1e-3)
                    ctx.check_close(np.rad2deg(np.arccos(nv[2])), np.rad2deg(np.arctan(np.hypot(gx, gy))), "plane-normal", "inclination of a plane", rtol=1e-3)
                    ctx.check_close(np.rad2deg(np.arctan2(nv[0], nv[1])) % 360, a[1, 1], "plane-aspect", "direction of the normal vector and aspect of a plane", rtol=1e-3)
                    ctx.event("plane")
            # rotating the terrain rotates its parameters
            for q in (1, 2, 3):
                s2, a2 = terrain.slope_aspect(np.rot90(dem, q).copy(), res)
                ctx.check_close(s2, np.rot90(s, q), "rot-slope", f"slope of terrain rotated by {90 * q} degrees", rtol=1e-9, atol=1e-9)
                d2 = np.abs((a2 - (np.rot90(a, q) - 90 * q) + 180) % 360 - 180)
                ctx.check((d2[np.rot90(ok, q)] < 1e-5).all(), "rot-aspect", f"aspect of terrain rotated by {90 * q} degrees")
                ctx.event("rotated")
            L = float(rng.choice([res, 2.5 * res, 100, 3 * res]))
            ctx.check_close(terrain.curvature(dem, res, "liston", L=L), curvature(dem, L, res), "curvature", f"curvature (L {L}, res {res})", rtol=1e-9, atol=1e-12)
            ctx.event("curvature", dem.size)
            opn(ctx, terrain, dem, res, float(rng.choice([res, 4 * res, 2.2 * res])), it)
            ctx.check(np.array_equal(dem, keep, equal_nan=True), "dem-modified", "a terrain function modifies the DEM")
            arr = rng.normal(0, 50, (R, C))
            arr[0, 0] = np.nan if it % 3 else arr[0, 0]
            lo, hi = (-0.5, 0.5) if it % 2 else sorted(rng.uniform(-5, 5, 2))
            n = util.normalize_array(arr, lo, hi)
            ctx.check_close(n, lo + (arr - np.nanmin(arr)) / (np.nanmax(arr) - np.nanmin(arr)) * (hi - lo), "normalize", "normalised array", rtol=1e-9, atol=1e-9)
            ctx.event("normalize")
            ctx.state("fn", kind, R // 4, C // 4, bool(np.isnan(dem).any()))
        # degenerate sizes: flat assumptions
        for shp in ((1, 1), (1, 4), (2, 2), (5, 2)):
            d = np.round(rng.uniform(1000, 1200, shp), 1)
            s, a = terrain.slope_aspect(d, 50)
            nv = terrain.normal_vector(d, 50)
            ctx.check((np.asarray(s) == 0).all() and s.shape == shp and np.isnan(a).all(), "tiny-slope", f"slope of a {shp} DEM")
            ctx.check((nv[0] == 0).all() and (nv[1] == 0).all() and (nv[2] == 1).all(), "tiny-normal", f"normal vector of a {shp} DEM")
            v = terrain.sky_view_factor(d, 50)
            ctx.check(v.shape == shp and np.isfinite(v).all() and ((v > 0) & (v <= 1)).all(), "tiny-svf", f"sky view factor of a {shp} DEM")
            if shp == (1, 1):
                ctx.check(v[0, 0] == 1, "tiny-svf", "sky view factor of a single pixel")
            ctx.event("tiny")
        return
    if "opn" in job:
        rng = np.random.default_rng(job["opn"])
        for it in range(job["n"]):
            dem = np.cumsum(rng.normal(0, 20, (90, 80)), axis=it % 2)
            numba.set_num_threads([8, 2, 4, 1][it % 4] if numba.config.NUMBA_NUM_THREADS >= 8 else 1)
            for rep in range(3):
                opn(ctx, terrain, dem, 50.0, [1000.0, 1800.0][it % 2], it)
                ctx.event("threads")
            ctx.state("opn", it % 4)
        return
    rng = np.random.default_rng(job["svf"])
    for it in range(job["n"]):
        R, C = int(rng.integers(2, 8)), int(rng.integers(3, 8))
        res = float(rng.choice([20, 50]))
        dem = make_dem(rng, R, C, ["rough", "valley", "peak"][it % 3], res)
        sw = [1, -1, 2][it % 3]
        kw, azs = {}, np.arange(0, 360, 10)
        step = 1
        if it % 2:
            kw = dict(azim_step=30, elev_step=3)
            azs, step = np.arange(0, 360, 30), 3
            ctx.event("elev_step")
        got = terrain.sky_view_factor(dem if it % 2 else dem.astype(np.float32), res, num_sweeps=sw, **kw)
        want, tie = svf_ref(dem if it % 2 else dem.astype(np.float32).astype(float), res, azs, sw, step)
        ctx.check_close(got, want, "svf", f"sky view factor (sweeps {sw}, {kw})", rtol=1e-9, mask=~tie)
        ctx.check(((got >= 0) & (got <= 1)).all(), "svf-range", "sky view factor out of range")
        ctx.event("svf", got.size * (1 + 9 * (it % 2 == 0)))
        # a flat surface sees (nearly) the whole sky
        fl = terrain.sky_view_factor(np.full((5, 6), 700.0), res)
        ctx.check_close(fl, 1.0, "svf-flat", "sky view factor of a plain", rtol=1e-3)
        ctx.state("svf", it % 3, sw, step)


def opn(ctx, terrain, dem, res, L, it):
    for neg in (False, True):
        want = openness(dem, res, L, neg)
        got = terrain.openness(dem, res, L, negative=neg, mean=False)
        ok = np.isfinite(want)
        ctx.check_close(np.sort(got, axis=0), np.sort(want, axis=0), "openness", f"openness (L {L}, negative {neg})", rtol=1e-9, mask=ok & np.isfinite(got))
        if not np.isnan(dem).any():
            ctx.check_close(terrain.openness(dem, res, L, negative=neg), want.mean(0), "openness-mean", "mean openness", rtol=1e-9)
        ctx.event("openness", dem.size)


def model(job, ctx):
    from openamundsen import terrain, util

    spec = job["spec"]
    sc = Scenario(ctx.workdir, spec)
    ext = None
    if spec["extended"]:
        pr, pc = 2, 3
        rng = np.random.default_rng(spec["seed"])
        big = make_dem(rng, sc.rows + 2 * pr, sc.cols + 2 * pc, "rough", sc.res) + 3 * sc.res
        big[pr:-pr, pc:-pc] = sc.dem
        ext = (slice(pr, -pr), slice(pc, -pc))
        write_asc(sc.grid_dir / f"extended-dem_synth_{sc.res}.asc", big, sc.res, X0 - pc * sc.res, Y0 - pr * sc.res)
    m = sc.init_model()
    dem = m.state.base.dem
    ctx.check_close(dem, sc.dem.astype(np.float32), "dem", "DEM of the model", rtol=1e-6)
    if sc.dem.shape[0] >= 3 and sc.dem.shape[1] >= 3:
        s, a, mag = horn(dem, sc.res)
        ctx.check_close(m.state.base.slope, s, "model-slope", "slope of the model grid", rtol=1e-7, atol=1e-7)
        ok = mag > 1e-6
        ctx.check((np.abs((m.state.base.aspect - a + 180) % 360 - 180)[ok] < 1e-5).all(), "model-aspect", "aspect of the model grid")
        ctx.check_close(m.state.base.normal_vec, normal(dem, sc.res), "model-normal", "normal vector of the model grid", rtol=1e-7, atol=1e-9)
    sw = m.config.meteo.radiation.num_shadow_sweeps
    full = m.grid.extended_grid.dem if ext else dem
    want, tie = svf_ref(full, sc.res, np.arange(0, 360, 10), sw)
    if ext:
        want, tie = want[ext], tie[ext]
        ctx.event("extended", dem.size)
        ctx.check_close(m.grid.extended_grid.normal_vec, normal(full, sc.res), "ext-normal", "normal vector of the extended grid", rtol=1e-7, atol=1e-9)
    if not np.isnan(dem).any():
        ctx.check_close(m.state.base.svf, want, "model-svf", f"sky view factor of the model grid (extended {bool(ext)})", rtol=0, atol=6e-4, mask=~tie)
    if "scaled_curvature" in m.state.base:
        cv = curvature(dem, m.config.meteo.interpolation.wind.curvature_length_scale, sc.res)
        rg = cv.max() - cv.min()
        want = (cv - cv.min()) / rg - 0.5 if rg > 0 else None
        if want is not None:
            ctx.check_close(m.state.base.scaled_curvature, want, "model-curvature", "scaled curvature of the model grid", rtol=1e-6, atol=1e-9)
    ctx.event("model", dem.size * 3)
    # a second run reads the stored sky view factor
    s1 = m.state.base.svf.copy()
    m2 = sc.init_model()
    ok = np.isfinite(dem)
    ctx.check_close(m2.state.base.svf, s1, "svf-cache", "stored sky view factor differs from the calculated one", rtol=0, atol=6e-4, mask=ok)
    ctx.event("svf_cached", ok.sum())
    ctx.state("model", spec["dem"], bool(ext), sw, spec["dem_nan"])
