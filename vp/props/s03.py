"""S03: fresh snow density, settling and albedo evolution follow the documented parameterisations."""
import numpy as np

from vp import trace, workloads
from vp.scenario import Scenario

RULE = ("full model runs; one evaluation = one pixel-step (layer) whose thickness or albedo was compared with an independent "
        "evaluation of the documented parameterisation from the state before the step; distinct = (snow model, compaction "
        "method, refresh method, decay temperature, timestep, snowfall?, warm?)")
REQUIRED = {"compaction_only": 1000, "fresh_snow": 500, "albedo_cold": 500, "albedo_melting": 300, "albedo_binary_refresh": 50,
            "albedo_continuous": 100, "albedo_init": 50, "firn_settling": 100, "anderson": 500, "empirical": 300,
            "wet_layer": 100, "dense_layer": 100, "ice_surface": 20, "old_surface": 50, "depth_closed": 3000, "fresh_unknown_temp": 50}
T0, RHO_ICE = 273.15, 917.0


def jobs(tier, seed):
    rng = np.random.default_rng([seed, 3])
    n = 8 if tier == "quick" else 40
    out = workloads.snow_specs(rng, n * 2, snow="multilayer")
    out += workloads.snow_specs(rng, n, snow="cryolayers", melt="energy_balance")
    out += workloads.snow_specs(rng, n // 2, snow="cryolayers", melt="temperature_index")
    out += workloads.snow_specs(rng, n // 2, snow="cryolayers", melt="enhanced_temperature_index")
    for s in workloads.snow_specs(rng, 6, snow="cryolayers"):
        s["ice"] = 20.0
        out.append(s)
    # every combination of the options appears in every run
    for i, s in enumerate(out):
        if i % 6 == 4:
            s["no_hum"] = [20, 45]
            s["config"]["meteo"]["precipitation_phase"]["method"] = "temp"
        c = s["config"]["snow"]
        c["albedo"]["refresh_method"] = ["binary", "continuous"][i % 2]
        c["albedo"]["decay_timescale_determination_temperature"] = ["surface", "air"][(i // 2) % 2]
        if c["model"] == "multilayer":
            c["compaction"]["method"] = ["anderson", "empirical"][(i // 4) % 2]
        else:
            c["cryolayers"]["use_single_snow_albedo"] = bool((i // 4) % 2)
    return workloads.hostile([{"spec": s} for s in out])


def fresh_density(twb):
    t = np.maximum(twb - (T0 - 15), 0)
    r = 50 + 1.7 * t**1.5
    return np.where(np.isnan(twb), 100.0, r)


def settle_anderson(mass, lwc, th, air, dt_h):
    """Anderson (1976) layer by layer from the top; arrays (layer, pixel)."""
    new = th.copy()
    load = np.zeros(mass.shape[1])
    for k in range(mass.shape[0]):
        on = th[k] > 0
        with np.errstate(all="ignore"):
            rho = mass[k] / th[k]
            load_mid = load + mass[k] / 2
            c4 = np.where(lwc[k] > 0, 0.02, 0.01)
            c6 = np.exp(-0.046 * np.maximum(rho - 150, 0))
            rate = 0.001 * load_mid * np.exp(-0.08 * (T0 - air) - 0.021 * rho) + c4 * np.exp(-0.04 * (T0 - air)) * c6
            rate = np.where(np.isnan(rate), 0, rate)
            rho2 = np.minimum(rho * (1 + rate * dt_h), np.maximum(rho, RHO_ICE))  # ice is the densest snow can get
            new[k] = np.where(on, mass[k] / rho2, th[k])
        load = load + np.where(on, mass[k], 0)
    return new


def settle_empirical(mass, th, temp, dt, tau_h, cold, warm):
    with np.errstate(all="ignore"):
        rho = mass / th
        mx = np.where(temp < T0, cold, warm)
        rho2 = np.where(rho < mx, mx + (rho - mx) * np.exp(-dt / (tau_h * 3600.0)), rho)
        return np.where(th > 0, mass / rho2, th)


def run(job, ctx):
    sc = Scenario(ctx.workdir, job["spec"])
    m = sc.init_model()
    roi = m.grid.roi
    cfg = m.config.snow
    a = cfg.albedo
    ml = cfg.model == "multilayer"
    dt = m.timestep
    if job["spec"].get("ice"):
        s = m.state.snow
        s.thickness[3, roi] = job["spec"]["ice"]
        s.density[3, roi] = cfg.cryolayers.transition.ice
        s.ice_content[3, roi] = s.thickness[3, roi] * s.density[3, roi]
        f = np.zeros_like(roi)
        f[:, ::2] = True
        f &= roi
        s.thickness[2, f] = 0.4
        s.density[2, f] = 600.0
        s.ice_content[2, f] = 240.0
        s.layer_albedo[2, f] = a.firn
        s.layer_albedo[3, roi] = a.ice
    for pre, post in trace.iterate(m, ("snow", "meteo", "surface")):
        P = lambda v: pre[v][..., roi]  # noqa: E731
        Q = lambda v: post[v][..., roi]  # noqa: E731
        sf = np.nan_to_num(Q("meteo.snowfall"))
        sub, melt = Q("snow.sublimation"), np.nan_to_num(Q("snow.melt"))
        air, twb = Q("meteo.temp"), Q("meteo.wet_bulb_temp")
        ice0, lwc0, th0 = P("snow.ice_content"), P("snow.liquid_water_content"), P("snow.thickness")
        mass0 = ice0 + lwc0
        rho_new = fresh_density(twb)
        nlay = ice0.shape[0]
        # --- thickness ------------------------------------------------------------------
        if ml and cfg.compaction.method == "empirical":
            th = settle_empirical(mass0, th0, P("snow.temp"), dt, cfg.compaction.timescale, cfg.compaction.max_cold_density, cfg.compaction.max_melting_density)
            ctx.event("empirical", (th0 > 0).sum())
        elif ml:
            th = settle_anderson(mass0, lwc0, th0, air, dt / 3600)
        else:
            th = th0.copy()
            th[:2] = settle_anderson(mass0[:2], lwc0[:2], th0[:2], air, dt / 3600)
            rho_ice = cfg.cryolayers.transition.ice
            with np.errstate(all="ignore"):
                fr = P("snow.density")[2] + (rho_ice - 500.0) / (10 * 365.25 * 24) * dt / 3600
                th[2] = np.where(th0[2] > 0, mass0[2] / fr, 0)
                th[3] = np.where(th0[3] > 0, mass0[3] / rho_ice, 0)
        if cfg.compaction.method == "anderson":
            ctx.event("anderson", (th0 > 0).sum())
        ctx.event("wet_layer", (lwc0 > 0).sum())
        ctx.event("dense_layer", ((th0 > 0) & (mass0 > 150 * th0)).sum())
        ice = ice0.copy()
        with np.errstate(all="ignore"):
            th[0] = th[0] + np.where(sf > 0, sf / rho_new, 0)
        ice[0] += sf
        refr = np.nan_to_num(Q("snow.refreezing"))
        full = np.zeros(ice.shape[1], bool)
        if not ml:  # refreezing fills up the pores first; a layer of ice grows
            rest = refr.copy()
            for k in (0, 1):
                d = np.minimum(rest, lwc0[k])
                grow = (d > 0) & (ice[k] + d > RHO_ICE * th[k])
                th[k] = np.where(grow, (ice[k] + d) / RHO_ICE, th[k])
                rest -= d
                full |= grow
        ctx.event("refrozen_to_ice", full.sum())
        th_acc, ice_acc = th.copy(), ice.copy()
        rest = melt.copy()
        for k in range(nlay):
            d = np.minimum(rest, ice[k])
            with np.errstate(all="ignore"):
                th[k] = np.where(d > 0, th[k] * (1 - d / ice[k]), th[k])
            ice[k] -= d
            rest -= d
        frost = np.maximum(-sub, 0)
        rest = np.maximum(sub, 0)
        if ml:
            with np.errstate(all="ignore"):
                th[0] = th[0] + np.where(frost > 0, frost / rho_new, 0)
            ice[0] += frost
        else:
            # refreezing happens before sublimation in the layered scheme and changes the ice available per layer
            simple = (refr == 0) | (rest < ice[0])
        for k in range(nlay):
            d = np.minimum(rest, ice[k])
            with np.errstate(all="ignore"):
                sc_ = 1 - d / ice[k]
            th[k] = np.where(d > 0, th[k] * sc_, th[k])
            ice[k] -= d
            rest -= d
        if not ml:
            with np.errstate(all="ignore"):
                th[0] = th[0] + np.where(frost > 0, frost / rho_new, 0)
        th1 = Q("snow.thickness")
        nl0 = P("snow.num_layers")
        if ml:
            # melt of a buried layer warmed above the melting point is not attributable from outside
            with np.errstate(all="ignore"):  # a layer that refreezes to solid ice grows by an unobservable amount
                dense = (refr > 0) & (np.nan_to_num(ice / th).max(0) * (1 + cfg.liquid_water_content.max) >= 900)
            ctx.event("dense_refreezing", dense.sum())
            okp = ((melt == 0) | (nl0 <= 1)) & (Q("snow.depth") > 1e-5) & ~dense
            ctx.check_close(Q("snow.depth")[okp], th.sum(0)[okp], "depth-evolution",
                            f"snow depth does not follow settling + fresh snow - ablation at {m.date}", rtol=1e-7, atol=1e-9)
            ctx.event("depth_closed", okp.sum())
            quiet = (sf == 0) & (sub == 0) & (melt == 0) & (nl0 > 0)
            ctx.event("compaction_only", quiet.sum() + ((sf == 0) & (melt == 0) & (nl0 > 0)).sum())
        else:
            # refreezing changes the ice share only if sublimation follows in the same layer: exclude those pixels
            sub_refr = (refr > 0) & (sub > 0)
            trans = ((th0[:2] > 0) & (th1[:2] == 0)).any(0) | ((th0[0] == 0) & ((sf > 0) | (frost > 0)) & (th1[0] == 0))
            if m.date.month == cfg.cryolayers.transition.firn:
                trans |= m.date.day == 1
            trans |= ((ice <= 1e-12) & (ice_acc > 0)).any(0)  # a layer vanished
            trans |= (P("snow.density")[2] > 0.995 * cfg.cryolayers.transition.ice)  # firn about to become ice
            okp = ~trans & ~sub_refr & simple
            for k in range(4):
                sel = okp & (th1[k] > 0)
                ctx.check_close(th1[k][sel], th[k][sel], f"layer-thickness:{k}",
                                f"thickness of layer {k} does not follow settling + fresh snow - ablation at {m.date}", rtol=1e-7, atol=1e-9)
                ctx.event("depth_closed", sel.sum())
            ctx.event("firn_settling", (okp & (th1[2] > 0)).sum())
            ctx.event("compaction_only", (okp & (sf == 0) & (melt == 0) & (th0[0] > 0)).sum())
        ctx.event("fresh_snow", (okp & (sf > 0)).sum()); ctx.event("fresh_unknown_temp", (okp & (sf > 0) & np.isnan(twb)).sum())
        # --- albedo ---------------------------------------------------------------------
        tdec = air if a.decay_timescale_determination_temperature == "air" else P("surface.temp")
        tau = 3600.0 * np.where(tdec >= T0, a.melting_snow_decay_timescale, a.cold_snow_decay_timescale)
        rate = sf / dt * 3600.0  # kg m-2 h-1

        def age(x):
            y = a.min + (x - a.min) * np.exp(-dt / tau)
            if a.refresh_method == "binary":
                near = np.abs(rate - a.refresh_snowfall) < 1e-9  # rounding at the threshold
                return np.where(rate >= a.refresh_snowfall, a.max, y), near
            return y + (a.max - y) * np.minimum(1, rate / a.refresh_snowfall), np.zeros(x.shape, bool)

        alb0, alb1 = P("snow.albedo"), Q("snow.albedo")
        nl1 = Q("snow.num_layers")
        if ml:
            init = (nl0 == 0) & (sf > 0)
            want, near = age(np.where(init, a.max, alb0))
            only_frost = (nl0 == 0) & (sf == 0) & (frost > 0)
            want = np.where(only_frost, a.max, want)
            sel = (nl1 > 0) & ((nl0 > 0) | init | only_frost) & ~near
            ctx.check_close(alb1[sel], want[sel], "albedo", f"snow albedo does not follow ageing/refresh at {m.date}", rtol=1e-9, atol=1e-12)
        else:
            la = P("snow.layer_albedo")
            new0 = ice0[0] > 0
            init = ~new0 & (sf > 0)
            single = cfg.cryolayers.use_single_snow_albedo
            a_new = np.where(init, np.where(single & (th0[1] > 0), la[1], a.max), la[0])
            has_new, has_old = (new0 | init), th_acc[1] > 0
            wn, near = age(a_new)
            wo, _ = age(la[1])
            want = np.where(has_new, wn, np.where(has_old, wo, np.where(th_acc[2] > 0, a.firn, a.ice)))
            top = np.where(has_new, 0, np.where(has_old, 1, np.where(th_acc[2] > 0, 2, 3)))
            any_snow = th_acc.sum(0) > 0
            top_ice = np.take_along_axis(ice_acc, top[None], 0)[0]
            survive = (melt + np.maximum(sub, 0)) < 0.999 * top_ice
            newly = ~has_new & (frost > 0)
            sel = any_snow & survive & ~newly & ~near & (nl1 > 0)
            ctx.check_close(alb1[sel], want[sel], "albedo", f"surface albedo of snow/firn/ice does not follow ageing/refresh at {m.date}", rtol=1e-9, atol=1e-12)
            ctx.event("ice_surface", (sel & (top >= 2)).sum())
            ctx.event("old_surface", (sel & (top == 1)).sum())
        ctx.event("albedo_init", (sel & init).sum())
        ctx.event("albedo_melting", (sel & (tdec >= T0)).sum())
        ctx.event("albedo_cold", (sel & (tdec < T0)).sum())
        ctx.event("albedo_binary_refresh" if a.refresh_method == "binary" else "albedo_continuous", (sel & (rate >= (a.refresh_snowfall if a.refresh_method == "binary" else 1e-9))).sum())
        for i in range(min(8, sf.size)):
            ctx.state(cfg.model, cfg.compaction.method, a.refresh_method, a.decay_timescale_determination_temperature,
                      job["spec"]["timestep"], bool(sf[i] > 0), bool(tdec[i] >= T0))
