"""G01: glacier geometry update."""
import numpy as np
import pandas as pd

from vp import workloads
from vp.scenario import Scenario, write_asc

RULE = ("runs over one to two mass balance years with several glaciers per domain; after every step the state is compared with that of a "
        "twin without glacier model started from the same state; at the end of a mass balance year the ice redistribution of every glacier "
        "is compared with an independent evaluation; one evaluation = one state value; distinct = (area class, sign of balance, clipped, "
        "surplus, number of pixels class, start month)")
REQUIRED = {"step": 800, "update": 6, "glacier": 30, "negative": 10, "positive": 3, "clipped": 2, "surplus": 4, "thin_pixels": 20, "skipped": 3,
            "area_small": 5, "area_medium": 3, "area_large": 2, "flat_glacier": 2, "no_start": 1, "second_year": 1, "partial_roi": 5,
            "no_glacier_ice": 10, "conserved": 10, "ignored_balance": 1}
ICE, FIRN = 3, 2
RHO = 917.0


def jobs(tier, seed):
    rng = np.random.default_rng([seed, 21])
    n = 16 if tier == "quick" else 80
    out = []
    for i in range(n):
        ms = [10, 9, 1, 2, 12, 10, 11, 3][i % 8]
        years = 2 if i % 4 == 3 else 1
        start = pd.Timestamp(2019, ms, 1) - pd.Timedelta(days=2)
        if i % 8 == 5:  # run starts within the mass balance year: no update before the first complete year
            start = pd.Timestamp(2019, ms, 1) + pd.Timedelta(days=int(rng.integers(1, 5)))
        end = pd.Timestamp(2019 + years, ms, 1) + pd.Timedelta(days=2)
        ts = ["D", "D", "D", "12h"][i % 4]
        res = [1000, 100, 1000, 50][(i // 2) % 4]
        s = dict(seed=int(rng.integers(1, 2**31)), start=str(start), end=str(end), timestep=ts, rows=int(rng.integers(7, 11)), cols=int(rng.integers(8, 12)), res=res,
                 dem=["rough", "plane", "peak"][i % 3], dem_scale=min(1.0, 150.0 / res), dem_digits=[3, -1, 3, -2][(i // 2) % 4], roi_frac=[0.8, 1.0][i % 2], num_stations=2,
                 regime=["alpine", "warm", "cold"][(i // 3) % 3],
                 config={"snow": {"model": "cryolayers", "melt": {"method": "temperature_index", "degree_day_factor": float(np.round(rng.uniform(3, 9), 2)), "threshold_temp": 273.15},
                                  "cryolayers": {"transition": {"ice": [900.0, 900.0, 850.0][i % 3], "firn": [10, 9, 1][i % 3]}}},
                         "glaciers": {"enabled": True, "delta_h": {"mass_balance_year_start_month": ms}}, "reset_state_variables": i % 5 == 2})
        out.append({"spec": s, "inject": i % 4})
    return workloads.hostile(out)


def delta_h(h, area):
    p = (6, 0.02, 0.12, 0.0) if area >= 20e6 else (4, 0.05, 0.19, 0.01) if area >= 5e6 else (2, 0.30, 0.60, 0.09)
    x = h - p[1]
    return np.clip(x ** p[0] + p[2] * x + p[3], 0, 1)


def redistribute(z, b, thick, area, ctx, st):
    """Ice mass change (kg m-2) of the pixels thicker than the minimum; z, b for all glacier pixels."""
    u = thick
    tot = b[u].sum()
    n = int(u.sum())
    if tot >= 0:
        ctx.event("positive"); st.append("+")
        return np.full(n, tot / n)
    ctx.event("negative"); st.append("-")
    e = z[u]
    if e.max() == e.min():
        ctx.event("flat_glacier"); st.append("flat")
        return np.full(n, tot / n)
    w = delta_h((e.max() - e) / (e.max() - e.min()), area)
    ch = tot * w / w.sum()
    k = int(np.ceil(z.size * 0.1))
    lim = max(np.sort(z)[:k].max(), z.min() + 50.0)
    worst = b[z <= lim].min()
    if worst < 0:
        over = ch < worst
        if over.any() and (~over).sum() > 1:
            ctx.event("surplus"); st.append("surplus")
            rest = tot - worst * over.sum() - ch[~over].sum()
            ch[over] = worst
            q = e[~over]
            g = (q - q.min()) / (q.max() - q.min()) if q.max() > q.min() else np.ones(q.size)
            ch[~over] += rest * g / g.sum()
    return ch


def run(job, ctx):
    spec = job["spec"]
    sc = Scenario(ctx.workdir, spec)
    rng = np.random.default_rng([spec["seed"], 3])
    R, C = sc.rows, sc.cols
    ids = np.zeros((R, C), int)
    order = rng.permutation(R * C)
    sizes = {4: 30, 9: 8, 1: 6, 22: 5, 300: 1, 7: 6, 8: 2}
    pos = 0
    for g, k in sizes.items():
        ids.flat[order[pos: pos + k]] = g
        pos += k
    # a glacier without elevation range
    dem = sc.dem.copy()
    dem[ids == 7] = dem[ids == 7].mean().round(1)
    write_asc(sc.grid_dir / f"dem_synth_{sc.res}.asc", dem, sc.res)
    write_asc(sc.grid_dir / f"glaciers_synth_{sc.res}.asc", ids, sc.res, fmt="%d")
    m = sc.init_model()
    m0 = sc.init_model(glaciers={"enabled": False})
    roi = m.grid.roi
    dem = m.state.base.dem
    ctx.check(np.array_equal(m.state.glaciers.glacier, ids), "ids", "glacier outlines of the model differ from the raster")
    # initial ice and firn
    rho = m.config.snow.cryolayers.transition.ice
    H = rng.uniform(12, 80, (R, C))
    H[rng.random((R, C)) < 0.2] = rng.uniform(2, 9.5)
    H[rng.random((R, C)) < 0.05] = 10.05
    H[rng.random((R, C)) < 0.05] = 9.9
    H[ids == 22] = rng.uniform(1, 9, (R, C))[ids == 22]  # all too thin
    H[(ids == 8)] = 20.0
    if (ids == 8).sum() == 2:
        H.flat[np.flatnonzero(ids == 8)[0]] = 3.0  # only one pixel left
    H[ids == 0] = np.where(rng.random((R, C)) < 0.3, 15.0, 0.0)[ids == 0]  # dead ice
    H[(ids == 1) & (rng.random((R, C)) < 0.3)] = 0.0
    lay = lambda s, k, we, d: (s.ice_content[k].__setitem__(roi, we[roi]), s.density[k].__setitem__(roi & (we > 0), d), s.thickness[k].__setitem__(roi, we[roi] / d),
                               s.layer_albedo[k].__setitem__(roi & (we > 0), 0.2))
    F = np.where((rng.random((R, C)) < 0.4) & (H > 0), rng.uniform(50, 900, (R, C)), 0.0)
    lay(m.state.snow, ICE, H * RHO, rho)
    lay(m.state.snow, FIRN, F, 600.0)
    ms = m.config.glaciers.delta_h.mass_balance_year_start_month
    step = pd.Timedelta(seconds=m.timestep)
    start = None
    years = 0
    half = len(m.dates) // 2
    for k in range(len(m.dates)):
        if k in (half, half + 150):
            inject(job, rng, m.state.snow, roi, ids, k)
        for c in m0.state.categories:  # the twin starts every step from the state of the model
            for v in m0.state[c]._meta:
                a = m0.state[c][v]
                if isinstance(a, np.ndarray):
                    a[...] = m.state[c][v]
        m0.run_single()
        m.run_single()
        d = m.date
        upd = start is not None and (d + step).month != d.month and (d + step).month == ms
        x, y = m0.state.snow, m.state.snow
        w = f"at {d}"
        ctx.event("step")
        ctx.check(np.array_equal(m.state.glaciers.glacier, ids), "ids", f"glacier outlines change {w}")
        if not upd:
            if start is None and (d + step).month != d.month and (d + step).month == ms:
                ctx.event("no_start")
            for v in ("ice_content", "liquid_water_content", "thickness", "density", "swe", "depth", "runoff", "melt", "cold_content", "num_layers", "layer_albedo"):
                if not ctx.check(np.array_equal(x[v], y[v], equal_nan=True), f"untouched-{v}", f"glacier model changes {v} within the mass balance year {w}"):
                    return
        else:
            years += 1
            ctx.event("update")
            ctx.event("second_year", years == 2)
            we0 = start
            we1 = x.ice_content + x.liquid_water_content
            b = (we1 - we0)[ICE] + (we1 - we0)[FIRN]
            exp = x.ice_content[ICE].copy()
            touched = np.zeros((R, C), bool)
            for g in sorted(set(ids[roi])):
                if g <= 0:
                    continue
                gp = roi & (ids == g) & (we0[ICE] > 0)
                ctx.event("no_glacier_ice", (roi & (ids == g) & (we0[ICE] <= 0)).sum())
                ctx.event("partial_roi", ((ids == g) & ~roi).any())
                thick = we0[ICE][gp] / RHO >= 10.0
                ctx.event("thin_pixels", (~thick).sum())
                if thick.sum() < 2:
                    ctx.event("skipped")
                    continue
                ctx.event("glacier")
                area = gp.sum() * sc.res**2
                ac = "large" if area >= 20e6 else "medium" if area >= 5e6 else "small"
                ctx.event("area_" + ac)
                st = [ac]
                ch = redistribute(dem[gp], b[gp], thick, area, ctx, st)
                new = np.maximum(we0[ICE][gp][thick] + ch - (we1 - we0)[FIRN][gp][thick], 0.0)
                u = np.zeros((R, C), bool)
                u[gp] = thick
                exp[u] = new
                touched |= u
                cl = (we0[ICE][gp][thick] + ch - (we1 - we0)[FIRN][gp][thick]) < 0
                ctx.event("clipped", cl.any())
                if not cl.any():
                    ctx.event("conserved")
                    a0, a1 = we1[[FIRN, ICE]][:, u].sum(), (y.ice_content + y.liquid_water_content)[[FIRN, ICE]][:, u].sum()
                    ctx.check(abs(a1 - a0) <= 1e-6 * max(a0, 1), "mass", f"mass of glacier {g} changes from {a0} to {a1} kg m-2 {w}")
                ctx.event("ignored_balance", (np.abs(b[gp][~thick]) > 1).any())
                ctx.state(*st, bool(cl.any()), min(int(thick.sum()), 6), ms)
            got = y.ice_content[ICE]
            ctx.check_close(got[touched], exp[touched], "redistribution", f"ice mass after the geometry update {w}", rtol=1e-8, atol=1e-6)
            rest = roi & ~touched
            ctx.check_close(got[rest], x.ice_content[ICE][rest], "other-pixels", f"ice mass of pixels that are not updated {w}", rtol=0, atol=1e-9)
            ctx.check((np.abs(y.liquid_water_content[ICE][touched]) <= 1e-9).all(), "liquid", f"liquid water in redistributed ice {w}")
            for q in (0, 1, 2):
                for v in ("ice_content", "liquid_water_content", "thickness", "density"):
                    ctx.check_close(y[v][q][roi], x[v][q][roi], f"other-layers-{v}", f"{v} of layer {q} {w}", rtol=1e-9, atol=1e-9)
            t = touched & (got > 0)
            ctx.check_close(y.density[ICE][t], rho, "density", f"ice density {w}")
            ctx.check_close(y.thickness[ICE][t], (got / rho)[t], "thickness", f"ice thickness {w}")
            gone = touched & ~(got > 0)
            ctx.check((y.thickness[ICE][gone] == 0).all(), "thickness-gone", f"thickness of vanished ice {w}")
        # consistency after every step
        ctx.check_close(y.swe[roi], (y.ice_content + y.liquid_water_content)[:, roi].sum(0), "swe", f"snow water equivalent {w}", rtol=1e-9, atol=1e-7)
        ctx.check_close(y.depth[roi], y.thickness[:, roi].sum(0), "depth", f"depth {w}", rtol=1e-9, atol=1e-9)
        ctx.check((y.num_layers[roi] == (y.thickness[:, roi] > 0).sum(0)).all(), "num-layers", f"number of layers {w}")
        ctx.check((y.ice_content[:, roi] >= 0).all(), "negative", f"negative ice content {w}")
        if d.month == ms and (d - step).month != ms:
            start = (y.ice_content + y.liquid_water_content).copy()


def inject(job, rng, s, roi, ids, k):
    """Mass balance patterns that do not arise from the forcing alone."""
    kind = job["inject"]
    for g in np.unique(ids[ids > 0]):
        p = roi & (ids == g) & (s.thickness[ICE] > 0)
        n = int(p.sum())
        if not n:
            continue
        i = s.ice_content[ICE][p]
        if kind == 0:  # strong gain
            new = i + rng.uniform(0, 3000, n)
        elif kind == 1:  # strong loss
            new = i * rng.uniform(0.3, 1.0, n)
        elif kind == 2:  # mixed, some pixels vanish almost
            new = i * np.where(rng.random(n) < 0.3, 0.02, rng.uniform(0.9, 1.05, n))
        else:
            new = i * np.where(rng.random(n) < 0.5, rng.uniform(0.05, 0.9), 1.0) - 0
        s.ice_content[ICE][p] = new
        s.thickness[ICE][p] = (new + s.liquid_water_content[ICE][p]) / s.density[ICE][p]
