"""S01: snowpack mass balance closes at every pixel and step."""
import numpy as np

from vp import trace, workloads
from vp.scenario import Scenario

RULE = ("full model runs on random terrain/forcing/config; one evaluation = one pixel-step whose mass balance was "
        "closed; distinct = (snow model, melt method, timestep, set of active mass terms) combinations")
REQUIRED = {"snowfall": 200, "rain_on_snow": 100, "melt": 200, "refreeze": 100, "sublimation": 200, "frost": 50,
            "runoff": 200, "meltout": 20, "layer_change": 50, "firn_transition": 1,
            "layer_sublimated": 20, "multi_layer_melt": 20, "potential_sublimation": 2000}


def jobs(tier, seed):
    rng = np.random.default_rng([seed, 1])
    n = 8 if tier == "quick" else 40
    out = []
    out += workloads.snow_specs(rng, n * 2, snow="multilayer")
    out += workloads.snow_specs(rng, n, snow="cryolayers", melt="energy_balance")
    out += workloads.snow_specs(rng, n // 2, snow="cryolayers", melt="temperature_index")
    out += workloads.snow_specs(rng, n // 2, snow="cryolayers", melt="enhanced_temperature_index")
    out += workloads.thin_specs(rng, 4 if tier == "quick" else 18)
    out += workloads.load_specs(rng, 1 if tier == "quick" else 6)
    # dedicated: the annual firn transition with old snow present
    for s, start, month in zip(workloads.snow_specs(rng, 2, snow="cryolayers", melt="energy_balance", regimes=["cold"]),
                               ("2019-09-28", "2020-12-28"), (10, 1)):
        s.update(start=start, end=str(np.datetime64(start) + np.timedelta64(8, "D")), timestep="3h")
        s.pop("blackout", None)
        s["config"]["snow"]["cryolayers"]["transition"].update(firn=month, old_snow=60.0)
        out.append(s)
    return workloads.hostile([{"spec": s} for s in out])


def run(job, ctx):
    sc = Scenario(ctx.workdir, job["spec"])
    m = sc.init_model()
    roi = m.grid.roi
    ml = m.config.snow.model == "multilayer"
    cum_in = np.zeros(roi.shape)
    start = None
    tag = (m.config.snow.model, m.config.snow.melt.method, job["spec"]["timestep"])
    for pre, post in trace.iterate(m, ("snow", "meteo", "surface")):
        g = lambda d, v: d[v][..., roi]  # noqa: E731
        ice0, lwc0 = g(pre, "snow.ice_content").sum(0), g(pre, "snow.liquid_water_content").sum(0)
        ice1, lwc1 = g(post, "snow.ice_content").sum(0), g(post, "snow.liquid_water_content").sum(0)
        if start is None:
            start = (ice0 + lwc0).copy()
            cum = np.zeros_like(start)
        sf0, rf0 = g(post, "meteo.snowfall"), g(post, "meteo.rainfall")
        miss = np.isnan(sf0)
        ctx.event("missing_precip", miss.sum())
        sf, rf = np.nan_to_num(sf0), np.nan_to_num(rf0)
        sub, ro = g(post, "snow.sublimation"), g(post, "snow.runoff")
        melt = np.nan_to_num(g(post, "snow.melt"))
        refr = np.nan_to_num(g(post, "snow.refreezing"))
        where = dict(date=str(m.date))
        # dropping a vanishing layer (< 1e-6 m) is a documented numerical guard
        slack = np.where((ice1 + lwc1) == 0, 1.1e-3, 0.0) if ml else 0.0
        scale = np.maximum.reduce([ice0 + lwc0, sf, rf, np.abs(ro), np.ones_like(sf)])
        d = (ice1 + lwc1) - (ice0 + lwc0) - (sf + rf - ro - sub)
        ctx.evals += d.size
        bad = ~(np.abs(d) <= 1e-8 * scale + slack)
        if bad.any():
            i = int(np.flatnonzero(bad)[0])
            ctx.violation("mass-balance", f"snowpack mass changed by {(ice1+lwc1-ice0-lwc0)[i]:.6g} but snowfall+rain-runoff-sublimation = {(sf+rf-ro-sub)[i]:.6g} kg/m2 at step {m.date}",
                          pixel=m.grid.roi_idxs[i].tolist(), **where)
        # phase balances
        di = ice1 - ice0 - (sf - melt + refr - sub)
        dl = lwc1 - lwc0 - (rf + melt - refr - ro)
        for nm, x in (("ice", di), ("liquid", dl)):
            bad = ~(np.abs(x) <= 1e-8 * scale + slack)
            ctx.evals += x.size
            if bad.any():
                i = int(np.flatnonzero(bad)[0])
                ctx.violation(f"{nm}-balance", f"{nm} balance does not close by {x[i]:.6g} kg/m2 at step {m.date}", pixel=m.grid.roi_idxs[i].tolist(), **where)
        neg = (ro < 0) | (melt < 0) | (refr < 0) | ~np.isfinite(ro) | ~np.isfinite(sub)
        ctx.check(not neg.any(), "negative-flux", f"negative or non-finite runoff/melt/refreezing/sublimation at {m.date}")
        ctx.check(np.all(sub <= ice0 + sf + refr + 1e-9 * scale), "sublimation-exceeds-ice", f"sublimation exceeds the available ice at {m.date}")
        ctx.check(np.all(melt <= ice0 + sf + refr + 1e-9 * scale), "melt-exceeds-ice", f"melt exceeds the available ice at {m.date}")
        # snow-covered pixels lose or gain exactly the vapour flux of the step, as far as there is ice left after melt
        if m.config.snow.melt.method == "energy_balance":
            pot = -g(post, "surface.moisture_flux") * m.timestep
            left = ice0 + sf - melt + (0 if ml else refr)  # cryolayers refreeze before, multilayer after the vapour exchange
            cov = (left > 1e-6 * scale) & np.isfinite(pot)
            want = np.minimum(pot, left)
            if ml:  # a pixel whose top layer melted within the step need not exchange vapour any more
                top = g(pre, "snow.ice_content")[0] + sf
                cov &= (melt < top * (1 - 1e-9)) | (g(post, "surface.temp") < 273.15 - 1e-9)
            ctx.evals += int(cov.sum())
            ctx.event("potential_sublimation", cov.sum())
            bad = cov & ~(np.abs(sub - want) <= 1e-8 * scale)
            if bad.any():
                i = int(np.flatnonzero(bad)[0])
                ctx.violation("sublimation-flux", f"sublimation is {sub[i]:.6g} but the vapour flux is {pot[i]:.6g} kg/m2 and {left[i]:.6g} kg/m2 of ice is left at {m.date}",
                              pixel=m.grid.roi_idxs[i].tolist(), **where)
            if ml:
                ctx.event("layer_sublimated", (cov & (sub > top) & (sub < left) & (melt == 0)).sum())
                ctx.event("multi_layer_melt", ((melt > top) & (g(pre, "snow.num_layers") > 1)).sum())
        # liquid water cannot run off before it was available
        ctx.check(np.all(ro <= lwc0 + melt + rf + 1e-9 * scale), "runoff-exceeds-water", f"runoff exceeds the available liquid water at {m.date}")
        cum += sf + rf - ro - sub
        dd = (ice1 + lwc1) - start - cum
        ctx.check(np.all(np.abs(dd) <= 1e-7 * np.maximum(1, np.abs(cum)) + 2e-2 * ml + 1e-9), "cumulative-balance",
                  f"cumulative mass balance drifts by {np.nanmax(np.abs(dd)):.3g} kg/m2 at {m.date}")
        had = ice0 > 0
        ctx.event("snowfall", (sf > 0).sum())
        ctx.event("rain_on_snow", ((rf > 0) & had).sum())
        ctx.event("melt", (melt > 0).sum())
        ctx.event("refreeze", (refr > 0).sum())
        ctx.event("sublimation", (sub > 0).sum())
        ctx.event("frost", (sub < 0).sum())
        ctx.event("runoff", ((ro > 0) & had).sum())
        ctx.event("meltout", (had & (ice1 == 0)).sum())
        nl0, nl1 = g(pre, "snow.num_layers"), g(post, "snow.num_layers")
        ctx.event("layer_change", (nl0 != nl1).sum())
        if not ml:
            f0, f1 = g(pre, "snow.ice_content")[2], g(post, "snow.ice_content")[2]
            ctx.event("firn_transition", ((f0 == 0) & (f1 > 0)).sum())
        for t in range(min(8, sf.size)):
            ctx.state(tag, bool(sf[t] > 0), bool(rf[t] > 0), bool(melt[t] > 0), bool(refr[t] > 0), int(np.sign(sub[t])), bool(ro[t] > 0))
