"""E01: the surface energy balance is solved as documented and melt equals the energy available for it."""
import copy

import numpy as np

from vp import ref, trace, workloads
from vp.ref import CP, K, LF, SB, T0
from vp.scenario import Scenario

RULE = ("full model runs with energy balance melt; one evaluation = one pixel-step flux/temperature/melt compared with an "
        "independent solution of the documented balance from the state before the step; distinct = (snow model, iteration "
        "method, stability, cover, regime class of the balance)")
REQUIRED = {"ml_cold": 1000, "ml_partial_melt": 100, "ml_full_melt": 5, "ml_bare": 500, "ml_internal_melt": 5, "cr_melt": 200, "cr_meltout": 5,
            "cr_refreeze": 100, "cr_cold_content": 100, "cr_secant": 300, "cr_legacy": 50, "cr_bare": 100, "stability": 500,
            "missing": 20, "cr_cc_before_melt": 5, "multi_layer_melt": 3}


def jobs(tier, seed):
    rng = np.random.default_rng([seed, 5])
    n = 16 if tier == "quick" else 70
    out = workloads.snow_specs(rng, n, snow="multilayer", regimes=["alpine", "swing", "meltout", "cold", "warm"])
    out += workloads.snow_specs(rng, n, snow="cryolayers", melt="energy_balance")
    for i, s in enumerate(out):
        c = s["config"]
        c["meteo"]["stability_correction"] = bool(i % 2)
        if c["snow"]["model"] == "cryolayers":
            c["snow"]["cryolayers"]["surface_temperature_iteration_method"] = ["secant", "secant", "legacy"][i % 3]
        if i % 4 == 3:
            s["missing"] = 0.05
            s["num_stations"] = 2
        c["soil"] = {**c.get("soil", {}), "albedo": workloads.pick(rng, 0.15, 0.3), "roughness_length": workloads.pick(rng, 0.1, 0.02)}
        c["snow"]["roughness_length"] = workloads.pick(rng, 0.01, 0.001)
    # shallow snow that melts out within a step
    for s in workloads.snow_specs(rng, 4, features=False, melt="energy_balance", regimes=["meltout", "swing"]):
        s["config"] = copy.deepcopy(s["config"])
        out.append(s)
    out += workloads.thin_specs(rng, 4 if tier == "quick" else 18)
    return workloads.hostile([{"spec": s} for s in out])


def ml_oracle(ctx, m, pre, mid, post, roi):
    P, M, Q = (lambda v: pre[v][..., roi]), (lambda v: mid[v][..., roi]), (lambda v: post[v][..., roi])
    dt = m.timestep
    ts0 = P("surface.temp")
    ice0 = M("snow.ice_content")
    swe = M("snow.swe")
    lv = ref.lat_vap(Q("meteo.temp"))
    d = dict(rho=Q("meteo.dry_air_density"), ch=Q("surface.turbulent_exchange_coeff"), u=Q("meteo.wind_speed"), ta=Q("meteo.temp"),
             albedo=Q("surface.albedo"), sw=Q("meteo.sw_in"), lw=Q("meteo.lw_in"), rain=Q("meteo.rainfall"), snow=Q("meteo.snowfall"),
             twb=Q("meteo.wet_bulb_temp"), p=Q("meteo.atmos_press"), dt=dt)
    qs0 = ref.spec_hum(d["p"], ref.es(ts0))
    gs = Q("surface.conductance")
    mav = gs / (gs + d["ch"] * d["u"])
    mav = np.where((qs0 < Q("meteo.spec_hum")) | (swe > 0), 1.0, mav)
    f = ref.Fluxes(d, Q("meteo.spec_hum"), mav)
    k, dz, tl = Q("surface.therm_cond"), Q("surface.thickness"), Q("surface.layer_temp")

    def lat(ts):
        return lv + np.where((ice0[0] > 0) | (ts < T0), LF, 0)

    rhocu = d["rho"] * d["ch"] * d["u"]
    rn, h, e, le, a = f.at(ts0, lat(ts0))
    g = 2 * k * (ts0 - tl) / dz
    dq = lat(ts0) * qs0 / (ref.RV * ts0**2)
    den = (CP + lat(ts0) * mav * dq) * rhocu + 2 * k / dz + 4 * SB * ts0**3

    def solve(melt):
        return (rn + h + le + a - g - LF * melt / dt) / den

    x1 = solve(0)
    tot_ice = ice0.sum(0)
    melties = (ts0 + x1 > T0) & (ice0[0] > 0)
    x2 = solve(tot_ice)
    part = melties & (ts0 + x2 < T0)
    full = melties & ~part
    x = np.where(full, x2, x1)
    nan = np.isnan(x)
    x = np.where(nan, 0, x)
    ts = np.where(part, T0, ts0 + x)
    z = np.zeros_like(ts) + T0
    rnp, hp, ep, lep, ap = f.at(z, lat(z))
    gp = 2 * k * (z - tl) / dz
    want_h = np.where(part, hp, h - CP * rhocu * x)
    want_e = np.where(part, ep, e - mav * rhocu * dq * x)
    want_g = np.where(part, gp, g + 2 * k * x / dz)
    near = np.abs(ts0 + x1 - T0) < 1e-7
    near |= np.abs(ts0 + x2 - T0) < 1e-7
    ok = ~near
    w = f"at {m.date}"
    tol = dict(rtol=1e-7, atol=1e-6)
    ctx.check_close(Q("surface.temp")[ok], ts[ok], "ml-surface-temp", f"surface temperature {w}", rtol=1e-9, atol=1e-7)
    ok &= ~nan
    ctx.check_close(Q("surface.sens_heat_flux")[ok], want_h[ok], "ml-sensible", f"sensible heat flux {w}", **tol)
    ctx.check_close(Q("surface.moisture_flux")[ok], want_e[ok], "ml-moisture", f"moisture flux {w}", rtol=1e-7, atol=1e-12)
    ctx.check_close(Q("surface.heat_flux")[ok], want_g[ok], "ml-ground", f"ground heat flux {w}", **tol)
    ctx.check_close(Q("surface.lat_heat_flux")[ok], (lat(ts) * want_e)[ok], "ml-latent", f"latent heat flux {w}", **tol)
    # the balance itself closes up to the linearisation error (radiation and saturation curve are convex)
    res = (Q("meteo.net_radiation") + Q("surface.sens_heat_flux") + Q("surface.lat_heat_flux") + a - Q("surface.heat_flux")) - np.where(full, LF * tot_ice / dt, 0)
    same_lat = lat(ts) == lat(ts0)
    c = ok & ~part & same_lat & (np.abs(x) < 15)  # the bound below is for moderate changes
    bound = 1e-3 + 0.12 * np.abs(x) + 0.03 * x**2 + 1e-3 * np.abs(x) ** 3
    bad = c & ~(np.abs(res) <= bound)
    ctx.ok(c.sum())
    if bad.any():
        i = int(np.flatnonzero(bad)[0])
        ctx.violation("ml-closure", f"surface energy balance does not close by {res[i]:.4g} W/m2 (surface temperature change {x[i]:.3g} K) {w}")
    pot = np.where(part, np.clip(rnp + hp + lep + ap - gp, 0, None) * dt / LF, np.where(full, tot_ice, 0))
    # melt: potential melt plus energy of layers warmed above the melting point by conduction, from the top down
    hc, tc = M("snow.heat_cap"), mid["cond"][..., roi]
    nl = M("snow.num_layers")
    chg = pot.copy()
    act = np.zeros_like(chg)
    for kk in range(ice0.shape[0]):
        on = kk < nl
        exc = np.where(on, hc[kk] * np.clip(tc[kk] - T0, 0, None), 0)
        chg = chg + exc / LF
        dm = np.where(on, np.minimum(np.clip(chg, 0, None), ice0[kk]), 0)
        act += dm
        chg = chg - dm
        ctx.event("ml_internal_melt", (exc > 0).sum())
        if kk:
            ctx.event("multi_layer_melt", (dm > 0).sum())
    ctx.check_close(Q("snow.melt")[ok], act[ok], "ml-melt", f"snowmelt differs from the energy available for melt {w}", rtol=1e-6, atol=1e-6)
    ctx.event("ml_cold", (~melties & (ice0[0] > 0) & ok).sum())
    ctx.event("ml_partial_melt", part.sum())
    ctx.event("ml_full_melt", full.sum())
    ctx.event("ml_bare", ((ice0[0] == 0) & ok).sum())
    ctx.event("missing", nan.sum())
    ctx.state("multilayer", m.config.meteo.stability_correction, bool(part.any()), bool(full.any()), bool((ice0[0] == 0).any()), bool(nan.any()))
    # surface layer properties (Cox et al. 1999)
    ds, dso = M("snow.thickness")[0], M("soil.thickness")[0]
    with np.errstate(all="ignore"):
        kk = np.where(ds <= dso / 2, dso / (2 * ds / M("snow.therm_cond")[0] + (dso - 2 * ds) / M("soil.therm_cond")[0]), M("snow.therm_cond")[0])
        tl_ = np.where(ds > dso, M("snow.temp")[0], M("soil.temp")[0] + (M("snow.temp")[0] - M("soil.temp")[0]) * ds / dso)
    ctx.check_close(k, kk, "surface-conductivity", f"surface layer thermal conductivity {w}", rtol=1e-9)
    ctx.check_close(tl, tl_, "surface-layer-temp", f"surface layer temperature {w}", rtol=1e-10)
    ctx.check_close(dz, np.maximum(ds, dso), "surface-layer-thickness", f"surface layer thickness {w}", rtol=1e-12)


def cr_oracle(ctx, m, pre, mid, post, roi):
    P, M, Q = (lambda v: pre[v][..., roi]), (lambda v: mid[v][..., roi]), (lambda v: post[v][..., roi])
    dt, cc = m.timestep, m.config.snow.cryolayers
    w = f"at {m.date}"
    acc = mid["acc"]  # snow state when the energy balance starts
    ice, lwc, cold, th = (acc[f"snow.{v}"][..., roi] for v in ("ice_content", "liquid_water_content", "cold_content", "thickness"))
    swe = acc["snow.swe"][..., roi]
    ta = Q("meteo.temp")
    d = dict(rho=Q("meteo.dry_air_density"), ch=Q("surface.turbulent_exchange_coeff"), u=Q("meteo.wind_speed"), ta=ta,
             albedo=Q("surface.albedo"), sw=Q("meteo.sw_in"), lw=Q("meteo.lw_in"), rain=Q("meteo.rainfall"), snow=Q("meteo.snowfall"),
             twb=Q("meteo.wet_bulb_temp"), p=Q("meteo.atmos_press"), dt=dt)
    snowy = swe > 0
    f = ref.Fluxes(d, Q("meteo.spec_hum"), np.ones_like(ta))
    lat = ref.lat_vap(ta) + np.where((ice[0] > 0) | (ta < T0), LF, 0)
    g = float(cc.surface_heat_flux)

    def en(ts):
        rn, h, e, le, a = f.at(ts, lat)
        return rn + h + le + a - g

    e0 = en(np.full_like(ta, T0))
    mel, fro = snowy & (ta >= T0), snowy & (ta < T0)
    # --- melt
    energy = np.where(mel, np.clip(e0, 0, None) * dt / LF, 0.0)  # kg m-2
    energy = np.where(np.isnan(energy), 0, energy)
    melt = np.zeros_like(ta)
    for k in range(4):
        on = mel & (th[k] > 0) & (energy > 0)
        full = on & (energy > ice[k] + cold[k])
        ctx.event("cr_cc_before_melt", (on & (cold[k] > 0)).sum())
        if k:
            ctx.event("multi_layer_melt", on.sum())
        melt += np.where(full, ice[k], np.where(on, np.clip(energy - cold[k], 0, None), 0))
        energy = np.where(full, energy - ice[k] - cold[k], np.where(on, 0, energy))
    ctx.check_close(Q("snow.melt"), melt, "cr-melt", f"snowmelt differs from the energy available for melt {w}", rtol=1e-6, atol=1e-7)
    # --- refreezing and cold content
    avail = np.where(fro, np.clip(-e0, 0, None) * dt / LF * cc.refreezing_factor, 0.0)
    avail = np.where(np.isnan(avail), 0, avail)
    refr = np.zeros_like(ta)
    cold1 = cold.copy()
    for k in range(2):
        on = fro & (th[k] > 0) & (avail > 0)
        r = np.where(on, np.minimum(lwc[k], avail), 0)
        refr += r
        avail = avail - r
        b = np.where(on, np.minimum(avail, cc.cold_holding_capacity * (ice[k] + lwc[k]) - cold[k]), 0)
        cold1[k] += b
        avail = avail - b
        ctx.event("cr_cold_content", (b > 0).sum())
    ctx.check_close(Q("snow.refreezing"), refr, "cr-refreezing", f"refreezing {w}", rtol=1e-6, atol=1e-7)
    ctx.check_close(mid["snow.cold_content"][..., roi][:2][:, fro], cold1[:2][:, fro], "cr-cold-content", f"cold content {w}", rtol=1e-6, atol=1e-7)
    ctx.event("cr_refreeze", (refr > 0).sum())
    ctx.event("cr_melt", (melt > 0).sum())
    ctx.event("cr_meltout", ((melt > 0) & (melt >= ice.sum(0) - 1e-9)).sum())
    # --- surface temperature
    ts = Q("surface.temp")
    bare = ~snowy
    ctx.check_close(ts[bare], ta[bare], "cr-bare-temp", f"snow-free surface temperature {w}", rtol=1e-12)
    ctx.check_close(ts[mel], np.full(mel.sum(), T0), "cr-melting-temp", f"surface temperature of melting snow {w}", rtol=1e-12)
    okf = fro & np.isfinite(e0)
    if okf.any():
        e_at = en(ts)
        slope = (en(ts + 0.5) - en(ts - 0.5))
        if cc.surface_temperature_iteration_method == "secant":
            at0 = okf & (ts >= T0 - 1e-9)
            # capped at the melting point only if the balance is (about) non-negative there
            ctx.check((e0[at0] >= -0.05 * np.abs(slope[at0]) - 0.5).all(), "cr-capped", f"surface temperature capped at 0 degC with a negative balance {w}")
            it = okf & ~at0
            err = np.abs(e_at / slope)
            bad = it & ~(err <= 0.05)
            # the saturation curve has a kink at the melting point
            bad &= ~(np.abs(ts - T0) < 0.3)
            ctx.ok(it.sum())
            ctx.event("cr_secant", it.sum())
            if bad.any():
                i = int(np.flatnonzero(bad)[0])
                ctx.violation("cr-surface-temp", f"snow surface temperature {ts[i]:.3f} K is not a root of the energy balance (off by {err[i]:.3g} K) {w}")
        else:
            tmin = np.nanmin(ta[fro]) - 3.0
            steps = (T0 - ts) / 0.25
            it = okf
            ctx.check(np.allclose(steps[it], np.round(steps[it]), atol=1e-6), "cr-legacy-grid", f"iterated temperature not on the 0.25 K grid {w}")
            at_min = ts - 0.25 < tmin - 1e-6
            ctx.check((at_min | (e_at >= -1e-6))[it].all(), "cr-legacy-neg", f"iteration stopped before the balance became non-negative {w}")
            up = en(ts + 0.25)
            ctx.check(((ts >= T0 - 1e-9) | (up < 1e-6))[it].all(), "cr-legacy-over", f"iteration went past the root {w}")
            ctx.event("cr_legacy", it.sum())
    # final fluxes belong to the final temperature
    fin = np.isfinite(ts) & snowy & ~(okf & (ts >= T0 - 1e-9))
    rn, h, e, le, a = f.at(ts, lat)
    ctx.check_close(Q("surface.moisture_flux")[fin], e[fin], "cr-moisture", f"moisture flux {w}", rtol=1e-6, atol=1e-12)
    ctx.check_close(Q("surface.sens_heat_flux")[fin], h[fin], "cr-sensible", f"sensible heat flux {w}", rtol=1e-7, atol=1e-7)
    ctx.check_close(Q("surface.lat_heat_flux")[fin], le[fin], "cr-latent", f"latent heat flux {w}", rtol=1e-6, atol=1e-6)
    ctx.check_close(Q("surface.advective_heat_flux")[snowy], a[snowy], "cr-advective", f"heat advected by precipitation {w}", rtol=1e-7, atol=1e-7)
    ctx.check_close(Q("surface.heat_flux")[snowy], np.full(snowy.sum(), g), "cr-ground", f"ground heat flux {w}")
    ctx.event("cr_bare", bare.sum())
    ctx.event("missing", (snowy & np.isnan(e0)).sum())
    ctx.state("cryolayers", cc.surface_temperature_iteration_method, m.config.meteo.stability_correction, bool((melt > 0).any()), bool((refr > 0).any()), bool(bare.any()))


def run(job, ctx):
    sc = Scenario(ctx.workdir, job["spec"])
    m = sc.init_model()
    roi = m.grid.roi
    ml = m.config.snow.model == "multilayer"
    mid = {}
    hc, cb = m.snow.heat_conduction, m.snow.albedo_aging

    def tap_acc():
        r = cb()
        mid["acc_raw"] = trace.snapshot(m, ("snow",))
        return r

    def tap():
        mid.update(trace.snapshot(m, ("snow", "soil")))
        r = hc()
        mid["cond"] = m.state.snow.temp.copy()
        return r

    m.snow.heat_conduction = tap
    m.snow.albedo_aging = tap_acc
    for pre, post in trace.iterate(m, ("snow", "meteo", "surface")):
        acc = mid["acc_raw"]
        acc["snow.swe"] = (acc["snow.ice_content"] + acc["snow.liquid_water_content"]).sum(0)
        mid["acc"] = acc
        Q = lambda v: post[v][..., roi]  # noqa: E731
        M = lambda v: mid[v][..., roi]  # noqa: E731
        w = f"at {m.date}"
        # surface properties
        af, sal = M("snow.area_fraction"), acc["snow.albedo"][roi]
        if not ml:  # albedo of the topmost existing layer
            la, th = acc["snow.layer_albedo"][:, roi], acc["snow.thickness"][:, roi]
            sal = np.full(af.shape, np.nan)
            for k in (3, 2, 1, 0):
                sal = np.where(th[k] > 0, la[k], sal)
        soil_al = m.config.soil.albedo
        ctx.check_close(Q("surface.albedo"), np.where(af > 0, af * sal + (1 - af) * soil_al, soil_al), "surface-albedo", f"surface albedo {w}", rtol=1e-10)
        z0 = m.config.snow.roughness_length**af * m.config.soil.roughness_length ** (1 - af)
        zt, zu = m.config.meteo.measurement_height.temperature, m.config.meteo.measurement_height.wind
        if m.config.snow.measurement_height_adjustment:
            zt = np.maximum(zt - M("snow.depth"), 1.0)
        ch = K**2 / (np.log(zu / z0) * np.log(zt / (0.1 * z0)))
        if m.config.meteo.stability_correction:
            ch = ch * ref.stability(Q("meteo.temp"), pre["surface.temp"][roi], Q("meteo.wind_speed"), af, m.config.snow.roughness_length,
                                    m.config.soil.roughness_length, zt, zu, m.config.meteo.stability_adjustment_parameter)
            ctx.event("stability", af.size)
        ctx.check_close(Q("surface.turbulent_exchange_coeff"), ch, "exchange-coefficient", f"turbulent exchange coefficient {w}", rtol=1e-8)
        # radiation balance belongs to the final surface temperature
        ts = Q("surface.temp")
        ctx.check_close(Q("meteo.sw_out"), Q("surface.albedo") * Q("meteo.sw_in"), "sw-out", f"outgoing shortwave {w}", rtol=1e-9)
        ctx.check_close(Q("meteo.lw_out"), 0.99 * SB * ts**4, "lw-out", f"outgoing longwave {w}", rtol=1e-9)
        ctx.check_close(Q("meteo.net_radiation"), Q("meteo.sw_in") - Q("meteo.sw_out") + Q("meteo.lw_in") - Q("meteo.lw_out"), "net-radiation", f"net radiation {w}", rtol=1e-9, atol=1e-7)
        (ml_oracle if ml else cr_oracle)(ctx, m, pre, mid, post, roi)
        mid.clear()
