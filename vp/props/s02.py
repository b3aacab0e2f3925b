"""S02: snowpack state variables stay mutually consistent and within physical bounds after every step."""
import numpy as np

from vp import trace, workloads
from vp.scenario import Scenario

RULE = ("full model runs on random terrain/forcing/config; one evaluation = one relation checked on one pixel/layer after "
        "one step; distinct = (snow model, melt method, timestep, number of layers, liquid water present, area fraction mode)")
REQUIRED = {"snow_pixels": 5000, "wet_layers": 500, "multi_layer": 500, "bare_pixels": 300, "partial_cover": 200,
            "firn_or_ice": 100, "lwc_at_capacity": 50, "thin_first_layer": 30, "full_stack": 30, "solid_layers": 50}
T0, RHO_ICE, RHO_W = 273.15, 917.0, 1000.0


def jobs(tier, seed):
    rng = np.random.default_rng([seed, 2])
    n = 8 if tier == "quick" else 40
    out = workloads.snow_specs(rng, n * 2, snow="multilayer")
    out += workloads.snow_specs(rng, n, snow="cryolayers", melt="energy_balance")
    out += workloads.snow_specs(rng, n // 2, snow="cryolayers", melt="temperature_index")
    out += workloads.snow_specs(rng, n // 2, snow="cryolayers", melt="enhanced_temperature_index")
    for i, s in enumerate(out):
        if i % 4 == 1:
            s["config"]["snow"]["snow_cover_fraction_depth_scale"] = 0.1
    for i, s in enumerate(workloads.snow_specs(rng, 4, snow="cryolayers", melt="energy_balance")):
        s.update(glaciers=0.5)
        s["config"]["glaciers"] = {"enabled": False}
        s["ice"] = 20.0
        out.append(s)
    # one layer filling up: deep snow on a multi-layer stack
    for s in workloads.snow_specs(rng, 2, snow="multilayer", regimes=["cold"]):
        s["config"]["snow"]["min_thickness"] = [0.05, 0.05, 0.1]
        out.append(s)
    out += workloads.thin_specs(rng, 4 if tier == "quick" else 18)
    out += workloads.refreeze_specs(rng, 1 if tier == "quick" else 6, steps=960)
    out += workloads.load_specs(rng, 2 if tier == "quick" else 8)
    return workloads.hostile([{"spec": s} for s in out])


def run(job, ctx):
    sc = Scenario(ctx.workdir, job["spec"])
    m = sc.init_model()
    roi = m.grid.roi
    cfg = m.config.snow
    ml = cfg.model == "multilayer"
    nmax = m.state.snow.thickness.shape[0]
    if job["spec"].get("ice"):
        s = m.state.snow  # start from a glacier surface (firn + ice layers)
        g = np.zeros_like(roi)
        g[::2] = True
        g &= roi
        s.thickness[3, g] = job["spec"]["ice"]
        s.density[3, g] = cfg.cryolayers.transition.ice
        s.ice_content[3, g] = s.thickness[3, g] * s.density[3, g]
        s.thickness[2, g] = 0.4
        s.density[2, g] = 600.0
        s.ice_content[2, g] = 240.0
        s.layer_albedo[2, g] = cfg.albedo.firn
        s.layer_albedo[3, g] = cfg.albedo.ice
    for pre, post in trace.iterate(m, ("snow", "meteo", "surface")):
        g = lambda v: post[v][..., roi]  # noqa: E731
        d = dict(date=str(m.date))
        ice, lwc, th = g("snow.ice_content"), g("snow.liquid_water_content"), g("snow.thickness")
        nl, swe, depth, af, dens = g("snow.num_layers"), g("snow.swe"), g("snow.depth"), g("snow.area_fraction"), g("snow.density")
        alb, temp = g("snow.albedo"), g("snow.temp")
        for nm, v in (("ice content", ice), ("liquid water content", lwc), ("thickness", th), ("swe", swe), ("depth", depth)):
            ctx.ok(v.size)
            if not (np.isfinite(v).all() and (v >= -1e-9).all()):
                ctx.violation("negative-or-nan:" + nm, f"snow {nm} negative or not finite at {m.date}", **d)
        has = th > 0
        mass = ice + lwc
        ctx.check_close(swe, mass.sum(0), "swe-sum", f"SWE differs from the sum over layers at {m.date}", rtol=1e-9, atol=1.2e-3 if ml else 1e-8)
        ctx.check_close(depth, th.sum(0), "depth-sum", f"snow depth differs from the sum of layer thicknesses at {m.date}", rtol=1e-9, atol=1.1e-6 if ml else 1e-9)
        ctx.check((nl == has.sum(0)).all(), "num-layers", f"number of layers inconsistent with layer thicknesses at {m.date}")
        ctx.check((mass[~has] <= 1e-9).all(), "mass-in-empty-layer", f"layer of zero thickness holds mass at {m.date}")
        ctx.check(((mass > 0) | ~has).all(), "empty-layer-thickness", f"massless layer has thickness at {m.date}")
        ctx.check_close(dens[has], (mass[has] / th[has]), "density", f"density differs from mass/thickness at {m.date}", rtol=1e-8)
        # merging a wet with a dry layer of ice (mass-weighted mean density) may overshoot by the square of the water share
        lim = max(RHO_ICE, cfg.cryolayers.transition.ice if not ml else 0) * (1 + cfg.liquid_water_content.max**2 / 4)
        ctx.event("solid_layers", (has & (ice > 0.99 * RHO_ICE * th))[:2 if not ml else None].sum())
        dense = has & (ice > lim * th * (1 + 1e-9) + 1e-9)
        ctx.ok(has.sum())
        if dense.any():
            k, i = np.argwhere(dense)[0]
            ctx.violation("density-ice", f"ice of density {ice[k, i] / th[k, i]:.6g} kg m-3 in layer {k} at {m.date}", **d)
        ctx.check(np.isnan(dens[~has]).all(), "density-empty", f"empty layer has a density at {m.date}")
        wet = g("snow.liquid_water_content") > 0
        # liquid water holding capacity
        if cfg.liquid_water_content.method == "pore_volume_fraction":
            cap = cfg.liquid_water_content.max * RHO_W * np.clip(th - ice / RHO_ICE, 0, None)
        else:
            cap = cfg.liquid_water_content.max * ice
        lay_ok = has.copy()
        skip = np.zeros(nl.shape, bool)
        if not ml:
            cap[2:] = 0.0
            moved = (pre["snow.thickness"][:2][:, roi] > 0) & ~has[:2]  # layer merged into the next one in this step
            created = (g("meteo.snowfall") > 0) | (g("snow.sublimation") < 0)
            skip = moved.any(0) | (created & ~has[0])
            if m.date.day <= 1:
                skip |= True  # annual transition day
            lay_ok &= ~skip
        over = lay_ok & (lwc > cap + 1e-9 + 1e-9 * mass)
        ctx.ok(lay_ok.sum())
        if over.any():
            k, i = np.argwhere(over)[0]
            ctx.violation("lwc-capacity", f"liquid water {lwc[k, i]:.6g} exceeds the holding capacity {cap[k, i]:.6g} kg/m2 in layer {k} at {m.date}", **d)
        ctx.event("lwc_at_capacity", (has & (lwc > 0) & (np.abs(lwc - cap) < 1e-6)).sum())
        # area fraction
        sc_ = cfg.snow_cover_fraction_depth_scale
        want = np.tanh(depth / sc_) if sc_ > 0 else (depth > 0) * 1.0
        sel = ~skip if sc_ > 0 else np.ones_like(skip)  # merging two layers changes the depth after the cover fraction was set
        ctx.check_close(af[sel], want[sel], "area-fraction", f"snow covered fraction inconsistent with depth at {m.date}", rtol=1e-6, atol=2e-5 if sc_ > 0 else 0)
        # albedo
        snowy = nl > 0
        lo, hi = cfg.albedo.min - 1e-9, cfg.albedo.max + 1e-9
        if ml:
            okal = (alb[snowy] >= lo) & (alb[snowy] <= hi)
            ctx.check(okal.all(), "albedo-range", f"snow albedo outside [{cfg.albedo.min}, {cfg.albedo.max}] at {m.date}")
            ctx.check(np.isnan(alb[~snowy]).all(), "albedo-bare", f"snow-free pixel has a snow albedo at {m.date}")
        else:
            lo2, hi2 = min(lo, cfg.albedo.firn, cfg.albedo.ice) - 1e-9, max(hi, cfg.albedo.firn, cfg.albedo.ice) + 1e-9
            top = np.argmax(has, axis=0)
            s2 = snowy & (top < 2) & (g("snow.melt") == 0) & ~(g("snow.sublimation") != 0)
            ctx.check(((alb[snowy] >= lo2) & (alb[snowy] <= hi2)).all(), "albedo-range", f"surface albedo of snow/firn/ice outside the valid range at {m.date}")
            ctx.check(((alb[s2] >= lo) & (alb[s2] <= hi)).all(), "albedo-range", f"snow albedo outside [{cfg.albedo.min}, {cfg.albedo.max}] at {m.date}")
            cc = g("snow.cold_content")
            ctx.check((cc >= -1e-9).all(), "cold-content", f"negative cold content at {m.date}")
            ctx.check((cc[~has] == 0).all(), "cold-content-empty", f"empty layer has a cold content at {m.date}")
            ctx.event("firn_or_ice", has[2:].sum())
        if ml:
            t = temp[has]
            ctx.check(np.isfinite(t).all() and (t <= T0 + 1e-6).all(), "snow-temp", f"snow temperature above the melting point or undefined at {m.date}")
            # contiguous layers from the top, discretised according to the configured thicknesses
            ctx.check((has == (np.arange(nmax)[:, None] < nl)).all(), "layer-gap", f"gap in the snow layer stack at {m.date}")
            mt = np.array(cfg.min_thickness)
            bad = False
            for i in range(nl.size):
                n_ = nl[i]
                if n_ == 0:
                    continue
                inner = th[: n_ - 1, i]
                bad |= not np.allclose(inner, mt[: n_ - 1], rtol=0, atol=1e-9)
                last = th[n_ - 1, i]
                if n_ < nmax:
                    bad |= last > 2 * mt[n_ - 1] + 1e-9
                if n_ > 1:
                    bad |= last < mt[n_ - 2] - 1e-9
                if bad:
                    ctx.violation("layer-discretisation", f"layer thicknesses {th[:, i].tolist()} do not follow the configured minimum thicknesses {mt.tolist()} at {m.date}", **d)
                    break
            ctx.ok(nl.size)
            ctx.event("thin_first_layer", ((nl == 1) & (th[0] < mt[0])).sum())
            ctx.event("full_stack", (nl == nmax).sum() if nmax > 1 else 0)
        # state outside the region of interest is never touched
        ctx.event("snow_pixels", snowy.sum())
        ctx.event("bare_pixels", (~snowy).sum())
        ctx.event("wet_layers", (has & wet).sum())
        ctx.event("multi_layer", (nl > 1).sum())
        ctx.event("partial_cover", ((af > 0) & (af < 1)).sum())
        for i in range(min(6, nl.size)):
            ctx.state(cfg.model, cfg.melt.method, job["spec"]["timestep"], int(nl[i]), bool(wet[:, i].any()), sc_ > 0)
