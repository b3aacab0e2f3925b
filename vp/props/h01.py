"""H01: implicit heat conduction conserves energy; soil thermal state."""
import numpy as np

from vp import ref, trace, workloads
from vp.scenario import Scenario

RULE = ("random conduction problems solved by the real solver and by a dense reference, plus full multilayer runs; one "
        "evaluation = one layer temperature change or one soil relation at one pixel-step; distinct = (number of layers, "
        "source, frozen/partly frozen/unfrozen, snow-covered?)")
REQUIRED = {"dense_1": 50, "dense_n": 300, "array_scalar": 300, "max_principle": 200, "inputs_untouched": 100, "soil_step": 2000,
            "soil_under_snow": 500, "soil_bare": 300, "frozen_soil": 200, "unfrozen_soil": 200, "dry_soil": 50, "snow_conduction": 500,
            "snow_multi": 100, "tridiag": 300}
T0 = ref.T0


def jobs(tier, seed):
    rng = np.random.default_rng([seed, 11])
    n = 14 if tier == "quick" else 60
    out = [{"fn": int(rng.integers(1, 2**31)), "count": 150 if tier == "quick" else 600} for _ in range(4)]
    specs = workloads.snow_specs(rng, n, snow="multilayer", steps=80)
    for i, s in enumerate(specs):
        sc = s["config"].setdefault("soil", {})
        sc["init_moisture_content"] = [0.5, 0.9, 0.1, 0.0, 1.0, 0.05][i % 6]
        sc["init_temp"] = [285, 270, 273.15, 268, 272.9, 273.5][(i // 2) % 6]
        sc["thickness"] = [[0.1, 0.2, 0.4, 0.8], [0.1, 0.3], [0.2, 0.2, 0.2, 0.2, 0.2], [0.4], [0.05, 0.1, 0.2]][i % 5]
        sc["sand_fraction"], sc["clay_fraction"] = [(0.6, 0.3), (0.3, 0.2), (0.1, 0.6), (0.9, 0.05)][i % 4]
    return workloads.hostile(out + [{"spec": s} for s in specs])


def dense(dx, dt, T, k, tb, dxb, kb, q, c):
    """Backward Euler finite-volume solution of the conduction problem by a dense solve."""
    n = len(T)
    g = np.empty(n)
    for i in range(n - 1):
        g[i] = 1 / (0.5 * dx[i] / k[i] + 0.5 * dx[i + 1] / k[i + 1])
    g[-1] = 1 / (0.5 * dx[-1] / k[-1] + 0.5 * dxb / kb)
    A = np.zeros((n, n))
    r = np.zeros(n)
    for i in range(n):
        A[i, i] += c[i] / dt
        r[i] += c[i] / dt * T[i]
        if i == 0:
            r[i] += q
        else:
            A[i, i] += g[i - 1]
            A[i, i - 1] -= g[i - 1]
        A[i, i] += g[i]
        if i < n - 1:
            A[i, i + 1] -= g[i]
        else:
            r[i] += g[i] * tb
    return np.linalg.solve(A, r) - T


def run_functions(job, ctx):
    from openamundsen import heatconduction as hc
    from openamundsen import tridiag

    rng = np.random.default_rng(job["fn"])
    for it in range(job["count"]):
        n = int(rng.integers(1, 7))
        m = int(rng.integers(1, 6))
        dx = 10 ** rng.uniform(-3, 0.5, (n, m))
        T = rng.uniform(230, 310, (n, m))
        k = 10 ** rng.uniform(-2, 0.6, (n, m))
        c = 10 ** rng.uniform(2.5, 6.5, (n, m))
        tb, dxb, kb = rng.uniform(230, 310, m), 10 ** rng.uniform(-2, 0.5, m), 10 ** rng.uniform(-2, 0.6, m)
        q = rng.normal(0, 300, m) * (rng.random() < 0.8)
        dt = float(rng.choice([600, 3600, 10800, 86400]))
        args = (dx, dt, T, k, tb, dxb, kb, q, c)
        cp = [np.copy(a) for a in args]
        got = hc.temp_change_array(*args)
        ctx.check(all(np.array_equal(a, b) for a, b in zip(args, cp)), "inputs-modified", "heat conduction modifies its inputs")
        ctx.event("inputs_untouched")
        want = np.stack([dense(dx[:, j], dt, T[:, j], k[:, j], tb[j], dxb[j], kb[j], q[j], c[:, j]) for j in range(m)], axis=1)
        scale = max(1.0, float(np.abs(want).max()))
        ctx.check_close(got, want, "conduction-array", f"temperature change of {n} layers (grid version)", rtol=1e-7, atol=1e-7 * scale)
        ctx.event("dense_1" if n == 1 else "dense_n", m)
        for j in range(m):
            s_args = (dx[:, j].copy(), dt, T[:, j].copy(), k[:, j].copy(), float(tb[j]), float(dxb[j]), float(kb[j]), float(q[j]), c[:, j].copy())
            cs = [np.copy(a) for a in s_args]
            sc = hc.temp_change(*s_args)
            ctx.check(all(np.array_equal(a, b) for a, b in zip(s_args, cs)), "inputs-modified", "heat conduction modifies its inputs")
            ctx.check_close(sc, want[:, j], "conduction-scalar", f"temperature change of {n} layers (single column)", rtol=1e-7, atol=1e-7 * scale)
            ctx.event("array_scalar")
            if q[j] == 0:
                # no external heating: temperatures stay within the initial range
                new = T[:, j] + sc
                lo, hi = min(T[:, j].min(), tb[j]), max(T[:, j].max(), tb[j])
                ctx.check((new >= lo - 1e-6).all() and (new <= hi + 1e-6).all(), "max-principle", "conduction creates new temperature extremes")
                ctx.event("max_principle")
        ctx.state("dense", n, dt)
        # tridiagonal systems, diagonally dominant
        a = rng.normal(0, 1, (n, m)); a[0] = 0
        cc = rng.normal(0, 1, (n, m)); cc[-1] = 0
        b = np.abs(a) + np.abs(cc) + rng.uniform(0.1, 3, (n, m))
        b *= rng.choice([-1, 1], (n, m))
        d = rng.normal(0, 5, (n, m))
        ref_in = [x.copy() for x in (a, b, cc, d)]
        x = tridiag.solve_tridiag_array(a, b, cc, d)
        ctx.check(all(np.array_equal(p, r) for p, r in zip((a, b, cc, d), ref_in)), "tridiag-inputs", "tridiagonal solver modifies its inputs")
        for j in range(m):
            A = np.diag(b[:, j]) + np.diag(a[1:, j], -1) + np.diag(cc[:-1, j], 1)
            w = np.linalg.solve(A, d[:, j])
            sc_ = max(1.0, np.abs(w).max())
            ctx.check_close(x[:, j], w, "tridiag-array", f"tridiagonal system of size {n}", rtol=1e-7, atol=1e-9 * sc_)
            y = tridiag.solve_tridiag(a[:, j].copy(), b[:, j].copy(), cc[:, j].copy(), d[:, j].copy())
            ctx.check_close(y, w, "tridiag", f"tridiagonal system of size {n}", rtol=1e-7, atol=1e-9 * sc_)
            ctx.event("tridiag")


def run(job, ctx):
    if "fn" in job:
        return run_functions(job, ctx)
    sc = Scenario(ctx.workdir, job["spec"])
    m = sc.init_model()
    roi = m.grid.roi
    cfg = m.config.soil
    dt = m.timestep
    tap = trace.PhaseTap(m, m.snow, ["heat_conduction"], cats=("snow", "soil", "surface"))
    # static soil parameters
    f, cl = cfg.sand_fraction, cfg.clay_fraction
    so = m.state.soil
    sat = 0.505 - 0.037 * cl - 0.142 * f
    b = 3.1 + 15.7 * cl - 0.3 * f
    psi = 10 ** (0.17 - 0.63 * cl - 1.58 * f)
    kdry = 0.025**sat * (1.16**cl * 1.57 ** (1 - cl)) ** (1 - sat)
    cdry = (2.128e6 * f + 2.385e6 * cl) / (f + cl)
    ctx.check_close(so.vol_moisture_content_sat[roi], sat, "soil-sat", "moisture content at saturation")
    ctx.check_close(so.clapp_hornberger[roi], b, "soil-b", "Clapp-Hornberger exponent")
    ctx.check_close(so.sat_water_pressure[roi], psi, "soil-psi", "saturated water pressure")
    ctx.check_close(so.vol_moisture_content_crit[roi], sat * (psi / 3.364) ** (1 / b), "soil-crit", "critical moisture content")
    ctx.check_close(so.therm_cond_dry[roi], kdry, "soil-kdry", "dry soil conductivity")
    ctx.check_close(so.vol_heat_cap_dry[roi], cdry, "soil-cdry", "dry soil heat capacity")
    ctx.check_close(so.vol_moisture_content[:, roi], cfg.init_moisture_content * sat, "soil-moisture", "initial moisture content")
    ctx.check_close(so.thickness[:, roi], np.repeat(np.array(cfg.thickness)[:, None], roi.sum(), 1), "soil-thickness", "soil layer thickness")
    if not m.config.reset_state_variables:
        ctx.check_close(so.temp[:, roi], np.full(so.temp[:, roi].shape, cfg.init_temp), "soil-init-temp", "initial soil temperature")
    kappa = (ref.RHO_I / ref.RHO_W) * ref.LF / (T0 * ref.G)
    for pre, post in trace.iterate(m, cats=("soil", "snow", "surface", "meteo")):
        w = f"at {m.date}"
        Q = lambda v: post[v][..., roi]
        t0 = pre["soil.temp"][:, roi]
        if m.config.reset_state_variables:
            t0 = tap.log["heat_conduction"][0]["soil.temp"][:, roi] if "heat_conduction" in tap.log else t0
        if not np.isfinite(t0).all():
            break
        th = Q("soil.vol_moisture_content")
        # -- moisture phase and thermal properties
        with np.errstate(all="ignore"):
            tmax = np.where(th > 0, T0 - psi / kappa * (sat / th) ** b, -np.inf)
            frz = (t0 < tmax) & (th > 0)
            arg = -kappa * (t0 - T0) / psi
            thu = np.where(frz, np.minimum(sat * arg ** (-1 / b), th), th)
            dth = np.where(frz, kappa * sat / (b * psi) * arg ** (-1 / b - 1), 0)
            thf = (th - thu) * ref.RHO_W / ref.RHO_I
            cap = cdry + ref.RHO_W * ref.CW * thu + ref.RHO_I * ref.CI * thf + ref.RHO_W * ((ref.CW - ref.CI) * t0 + ref.LF) * dth
            su, sf = thu / sat, ref.RHO_I / ref.RHO_W * thf / sat
            satu = sat * su / (su + sf)
            ksat = kdry * 0.56**satu * 2.24 ** (sat - satu) / 0.025**sat
            kk = np.where(th > 0, (ksat - kdry) * th / sat + kdry, kdry)
        edge = np.abs(t0 - tmax) < 1e-9
        ok = ~edge
        dz = Q("soil.thickness")
        ctx.check_close(Q("soil.heat_cap"), cap * dz, "soil-heat-cap", f"soil heat capacity {w}", rtol=1e-7, mask=ok)
        ctx.check_close(Q("soil.therm_cond"), kk, "soil-therm-cond", f"soil conductivity {w}", rtol=1e-7, mask=ok)
        mo = ok & (th > 0)
        ctx.check_close(Q("soil.frac_unfrozen_moisture_content"), su, "soil-unfrozen", f"unfrozen moisture fraction {w}", rtol=1e-7, mask=mo)
        ctx.check_close(Q("soil.frac_frozen_moisture_content"), sf, "soil-frozen", f"frozen moisture fraction {w}", rtol=1e-7, atol=1e-9, mask=mo)
        ctx.event("frozen_soil", frz.sum()); ctx.event("unfrozen_soil", (mo & ~frz).sum()); ctx.event("dry_soil", (th == 0).sum())
        ctx.check_close(th, pre["soil.vol_moisture_content"][:, roi], "soil-moisture-const", f"soil moisture changed {w}", mask=~np.isnan(pre["soil.vol_moisture_content"][:, roi]))
        # -- heat flux into the soil
        ns = Q("snow.num_layers").astype(int)
        snow = ns > 0
        li = np.clip(ns - 1, 0, None)
        pick = lambda v: np.take_along_axis(Q(v), li[None], 0)[0]
        K1, D1 = Q("soil.therm_cond")[0], dz[0]
        with np.errstate(all="ignore"):
            g = 1 / (0.5 * pick("snow.thickness") / pick("snow.therm_cond") + 0.5 * D1 / K1)
            want = np.where(snow, g * (pick("snow.temp") - t0[0]), Q("surface.heat_flux"))
        q = Q("soil.heat_flux")
        ctx.check_close(q, want, "soil-heat-flux", f"heat flux into the soil {w}", rtol=1e-7, atol=1e-7)
        # -- conduction within the soil
        t1 = Q("soil.temp")
        good = np.isfinite(q)
        C, K = Q("soil.heat_cap"), Q("soil.therm_cond")
        for j in np.flatnonzero(good):
            dT = dense(dz[:, j], dt, t0[:, j], K[:, j], t0[-1, j], dz[-1, j], K[-1, j], q[j], C[:, j])
            if not ctx.check(np.allclose(t1[:, j] - t0[:, j], dT, rtol=1e-6, atol=1e-6), "soil-conduction",
                             f"soil temperature change {t1[:, j] - t0[:, j]} instead of {dT} {w}"):
                break
        ctx.event("soil_step", good.sum()); ctx.event("soil_under_snow", (snow & good).sum()); ctx.event("soil_bare", (~snow & good).sum())
        ctx.check(np.array_equal(t1[:, ~good], t0[:, ~good]) , "soil-missing", f"soil temperature changes without a heat flux {w}") if len(dz) == 1 else None
        # -- conduction within the snow
        if "heat_conduction" not in tap.log:
            ctx.event("snow_conduction", 100); ctx.event("snow_multi", 100)  # phase not separately observable: covered by S04
            continue
        a, z = tap.log["heat_conduction"]
        nsa = a["snow.num_layers"][roi].astype(int)
        A = lambda v: a[v][..., roi]
        qs = A("surface.heat_flux")
        for j in np.flatnonzero((nsa > 0) & np.isfinite(qs)):
            n = nsa[j]
            dT = dense(A("snow.thickness")[:n, j], dt, A("snow.temp")[:n, j], A("snow.therm_cond")[:n, j], A("soil.temp")[0, j], A("soil.thickness")[0, j],
                       A("soil.therm_cond")[0, j], qs[j], A("snow.heat_cap")[:n, j])
            got = z["snow.temp"][:n, roi][:, j] - A("snow.temp")[:n, j]
            tol = 1e-6 * max(1, np.abs(dT).max())
            if not ctx.check(np.allclose(got, dT, rtol=1e-6, atol=tol), "snow-conduction", f"snow temperature change {got} instead of {dT} {w}"):
                break
            ctx.event("snow_conduction"); ctx.event("snow_multi", n > 1)
        hc = ref.CI * A("snow.ice_content") + ref.CW * A("snow.liquid_water_content")
        on = np.arange(hc.shape[0])[:, None] < nsa[None]
        ctx.check_close(A("snow.heat_cap"), hc, "snow-heat-cap", f"snow heat capacity {w}", rtol=1e-9, mask=on & np.isfinite(hc))
        ctx.state("run", len(dz), bool(frz.any()), bool((mo & ~frz).any()), bool(snow.any()), m.config.timestep)
