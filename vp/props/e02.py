"""E02: temperature index melt."""
import numpy as np

from vp import trace, workloads
from vp.scenario import Scenario

RULE = ("full runs with temperature index melt; one evaluation = the melt (or layer change) of one pixel-step compared with the "
        "degree-day formula; distinct = (method, timestep, threshold, limited by mass?, radiation?, layers involved)")
REQUIRED = {"melt": 1000, "no_melt_cold": 1000, "limited": 30, "radiation_melt": 300, "bare": 200, "two_layers": 10, "missing": 10,
            "rad_but_cold": 20}


def jobs(tier, seed):
    rng = np.random.default_rng([seed, 12])
    n = 14 if tier == "quick" else 60
    out = workloads.snow_specs(rng, n, snow="cryolayers", melt="temperature_index", regimes=["alpine", "swing", "meltout", "warm"])
    out += workloads.snow_specs(rng, n, snow="cryolayers", melt="enhanced_temperature_index", regimes=["alpine", "swing", "meltout", "warm"])
    for i, s in enumerate(out):
        s["config"]["snow"]["cryolayers"]["transition"]["old_snow"] = [200.0, 110.0, 90.0][i % 3]
        s["config"]["snow"]["melt"]["threshold_temp"] = [273.15, 275.15, 271.65][(i // 2) % 3]
    return workloads.hostile([{"spec": s} for s in out])


def run(job, ctx):
    sc = Scenario(ctx.workdir, job["spec"])
    m = sc.init_model()
    roi = m.grid.roi
    mc = m.config.snow.melt
    days = m.timestep / 86400.0
    tap = trace.PhaseTap(m, m.snow, ["melt"], cats=("snow",))
    for pre, post in trace.iterate(m, cats=("snow", "meteo", "surface")):
        w = f"at {m.date}"
        Q = lambda v: post[v][..., roi]
        ta = Q("meteo.temp")
        if m.config.reset_state_variables:
            avail = np.nan_to_num(Q("meteo.snowfall"))
            ok = np.isfinite(ta)
            if "melt" in tap.log:
                avail = tap.log["melt"][0]["snow.ice_content"][:, roi].sum(0)
        else:
            avail = pre["snow.ice_content"][:, roi].sum(0) + np.nan_to_num(Q("meteo.snowfall"))
        dd = np.clip(ta - mc.threshold_temp, 0, None) * days
        pot = mc.degree_day_factor * dd
        if mc.method == "enhanced_temperature_index":
            r = mc.albedo_factor * (1 - Q("surface.albedo")) * Q("meteo.sw_in") * days
            pot = np.where(ta > mc.threshold_temp, pot + r, np.where(np.isnan(ta), np.nan, 0.0))
            ctx.event("radiation_melt", ((pot > 0) & (r > 1e-6)).sum())
            ctx.event("rad_but_cold", ((r > 0) & (ta <= mc.threshold_temp) & (avail > 0)).sum())
        want = np.where(avail > 0, np.minimum(pot, avail), 0.0)
        got = Q("snow.melt")
        ok = np.isfinite(want)
        ctx.check_close(got, want, "ti-melt", f"snowmelt {w}", rtol=1e-9, atol=1e-9, mask=ok)
        ctx.check(not (np.nan_to_num(got[~ok]) > 0).any(), "ti-missing", f"melt without data {w}")
        ctx.event("melt", (want > 0).sum()); ctx.event("no_melt_cold", ((want == 0) & (avail > 0)).sum())
        ctx.event("limited", ((pot > avail) & (avail > 0)).sum()); ctx.event("bare", (avail == 0).sum()); ctx.event("missing", (~ok).sum())
        # melt water comes from the uppermost layers first and becomes liquid water of the layer it melts from
        a, z = tap.log["melt"]
        ice0, ice1 = a["snow.ice_content"][:, roi], z["snow.ice_content"][:, roi]
        lw0, lw1 = a["snow.liquid_water_content"][:, roi], z["snow.liquid_water_content"][:, roi]
        d0, d1 = a["snow.thickness"][:, roi], z["snow.thickness"][:, roi]
        rem = np.nan_to_num(want)
        for k in range(ice0.shape[0]):
            x = np.minimum(rem, ice0[k])
            ctx.check_close(ice1[k], ice0[k] - x, "ti-layer-ice", f"ice content of layer {k} after melt {w}", atol=1e-8)
            ctx.check_close(lw1[k], lw0[k] + x, "ti-layer-lwc", f"liquid water of layer {k} after melt {w}", atol=1e-8)
            with np.errstate(all="ignore"):
                wd = np.where(ice0[k] > 0, d0[k] * (1 - x / ice0[k]), d0[k])
            ctx.check_close(d1[k], wd, "ti-layer-depth", f"thickness of layer {k} after melt {w}", atol=1e-9)
            rem = rem - x
            if k:
                ctx.event("two_layers", (x > 0).sum())
        ctx.state(mc.method, m.config.timestep, mc.threshold_temp, bool((pot > avail).any()), bool(ok.all()))
