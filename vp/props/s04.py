"""S04: within the snowpack every layer keeps its own water, heat and ageing state (full-step column replay)."""
import numpy as np

from vp import ref, trace, workloads
from vp.props.s03 import fresh_density, settle_anderson, settle_empirical
from vp.scenario import Scenario

RULE = ("full model runs; one evaluation = one layer quantity of one pixel-step compared with an independent replay of the column "
        "(settling, fresh snow, conduction, melt, sublimation, percolation, refreezing, layer update) from the state before the "
        "step; distinct = (snow model, layers before, layers after, melt?, refreezing?, runoff?, transition)")
REQUIRED = {"ml_columns": 10000, "ml_layers_changed": 300, "ml_split": 100, "ml_merge": 100, "ml_refreeze": 300, "ml_refreeze_buried": 50,
            "ml_percolation": 100, "ml_layer_gone": 20, "ml_internal_melt": 5, "ml_heat": 5000, "cr_columns": 5000, "cr_new_to_old": 50, "cr_merge": 20,
            "cr_to_firn": 20, "cr_refreeze": 100, "cr_percolation": 50, "cr_layer_gone": 20, "cr_multi": 200, "cr_cold_moved": 5}
T0, LF, CI, CW, RHO_ICE = ref.T0, ref.LF, ref.CI, ref.CW, ref.RHO_I


def jobs(tier, seed):
    rng = np.random.default_rng([seed, 4])
    n = 5 if tier == "quick" else 24
    out = workloads.snow_specs(rng, n * 3, snow="multilayer", regimes=["alpine", "swing", "meltout", "cold", "warm"])
    out += workloads.thin_specs(rng, n)
    out += workloads.refreeze_specs(rng, 1 if tier == "quick" else 6, steps=900)
    out += workloads.load_specs(rng, 1 if tier == "quick" else 6)
    out += workloads.snow_specs(rng, n * 2, snow="cryolayers", melt="energy_balance", regimes=["alpine", "swing", "meltout", "cold"])
    out += workloads.snow_specs(rng, n, snow="cryolayers", melt="temperature_index")
    for i, s in enumerate(workloads.snow_specs(rng, n, snow="cryolayers", melt="energy_balance", regimes=["meltout", "alpine"])):
        s["ice"] = [20.0, 0.3][i % 2]
        out.append(s)
    for i, s in enumerate(out):  # every seed sees the yearly transition of a wet or cold snowpack
        c = s["config"]["snow"]
        if i % 7 == 3:
            s["no_hum"] = [20, 45]
            s["config"]["meteo"]["precipitation_phase"]["method"] = "temp"
        if c["model"] == "cryolayers" and i % 2 == 0:
            s["start"], s["end"], s["timestep"] = "2020-03-28", "2020-04-08 12:00", "3h"
            s.pop("blackout", None)
            c["cryolayers"]["transition"]["firn"] = 4
    return workloads.hostile([{"spec": s} for s in out])


def conduct(dx, dt, T, k, tb, dxb, kb, q, c):
    n = len(T)
    A, r = np.zeros((n, n)), c / dt * T
    r[0] += q
    for i in range(n):
        A[i, i] += c[i] / dt
        g = 1 / (0.5 * dx[i] / k[i] + 0.5 * (dx[i + 1] / k[i + 1] if i < n - 1 else dxb / kb))
        A[i, i] += g
        if i < n - 1:
            A[i, i + 1] -= g
            A[i + 1, i] -= g
            A[i + 1, i + 1] += g
        else:
            r[i] += g * tb
    return np.linalg.solve(A, r)


def capacity(cfg, th, ice):
    if cfg.liquid_water_content.method == "mass_fraction":
        return cfg.liquid_water_content.max * ice
    return np.where(th > 0, cfg.liquid_water_content.max * ref.RHO_W * (th - ice / ref.RHO_I), 0.0)


def remove_top(ice, th, amount):
    """Take ice away from the top; returns what each layer loses."""
    lost = np.zeros(len(ice))
    for k in range(len(ice)):
        d = min(amount, ice[k])
        if d > 0:
            th[k] *= 1 - d / ice[k] if d < ice[k] else 0.0
            ice[k] -= d
            lost[k] = d
            amount -= d
    return lost


def relayer(depth, mt):
    """Layer thicknesses for a snow depth, and the distance to the nearest change of the number of layers."""
    rest, out, near = depth, [], abs(depth - 1e-6)
    for k, t in enumerate(mt):
        rest -= t
        if k < len(mt) - 1:
            near = min(near, abs(rest - t))
        if rest <= t or k == len(mt) - 1:
            out.append(t + rest)
            break
        out.append(t)
    return [x for x in out if x >= 1e-6], near


def spread(th, vals, new):
    """Distribute layer quantities over new layers by vertical position."""
    res = np.zeros((len(vals), len(new)))
    edges = np.concatenate([[0], np.cumsum(new)])
    edges[-1] = np.inf
    z = 0.0
    for k, t in enumerate(th):
        if t <= 0:
            continue
        for j in range(len(new)):
            o = min(z + t, edges[j + 1]) - max(z, edges[j])
            if o > 0:
                for v in range(len(vals)):
                    res[v, j] += vals[v][k] * o / t
        z += t
    return res


def run(job, ctx):
    sc = Scenario(ctx.workdir, job["spec"])
    m = sc.init_model()
    (multilayer if m.config.snow.model == "multilayer" else cryolayers)(job, ctx, m)


def multilayer(job, ctx, m):
    roi, cfg, dt = m.grid.roi, m.config.snow, m.timestep
    mt = np.array(cfg.min_thickness, float)
    nmax = len(mt)
    for pre, post in trace.iterate(m, ("snow", "meteo", "surface", "soil")):
        P = lambda v: pre[v][..., roi]  # noqa: E731
        Q = lambda v: post[v][..., roi]  # noqa: E731
        sf, rain = np.nan_to_num(Q("meteo.snowfall")), np.nan_to_num(Q("meteo.rainfall"))
        sub, melt = np.nan_to_num(Q("snow.sublimation")), np.nan_to_num(Q("snow.melt"))
        air, rho = Q("meteo.temp"), fresh_density(Q("meteo.wet_bulb_temp"))
        ice0, lwc0, th0, T_ = P("snow.ice_content"), P("snow.liquid_water_content"), P("snow.thickness"), P("snow.temp")
        n0 = P("snow.num_layers").astype(int)
        if cfg.compaction.method == "empirical":
            ths = settle_empirical(ice0 + lwc0, th0, T_, dt, cfg.compaction.timescale, cfg.compaction.max_cold_density, cfg.compaction.max_melting_density)
        else:
            ths = settle_anderson(ice0 + lwc0, lwc0, th0, air, dt / 3600)
        flux, ts, ds, ks = Q("surface.heat_flux"), P("soil.temp")[0], Q("soil.thickness")[0], Q("soil.therm_cond")[0]
        ice1, lwc1, th1, T1 = (Q(f"snow.{v}") for v in ("ice_content", "liquid_water_content", "thickness", "temp"))
        n1, refr1, run1 = Q("snow.num_layers").astype(int), Q("snow.refreezing"), Q("snow.runoff")
        frost = np.maximum(-sub, 0)
        for j in np.flatnonzero((n0 > 0) | (sf > 0) | (frost > 0)):
            if not np.isfinite([flux[j], ts[j], ks[j]]).all() or (n0[j] == 0 and not np.isfinite(air[j])):
                continue
            w = f"at {m.date}"
            ice, lwc, th, T = ice0[:, j].copy(), lwc0[:, j].copy(), ths[:, j].copy(), T_[:, j].copy()
            n = n0[j]
            if sf[j] > 0:
                if n == 0:
                    n, T[0] = 1, min(air[j], T0)
                ice[0] += sf[j]
                th[0] += sf[j] / rho[j]
            c = CI * ice + CW * lwc
            if n > 0:
                if not (th[:n] > 0).all():
                    continue
                T[:n] = conduct(th[:n], dt, T[:n], np.full(n, float(cfg.thermal_conductivity)), ts[j], ds[j], ks[j], flux[j], c[:n])
            # melt: surface melt plus whatever heat a layer holds above the melting point, from the top downwards
            excess = np.where(np.arange(nmax) < n, np.maximum(T - T0, 0) * c / LF, 0.0)
            total = ice[:n].sum()
            gone_all = melt[j] >= total * (1 - 1e-12) and total > 0
            pend = max(melt[j] - excess.sum(), 0.0) if not gone_all else np.inf
            lost = False
            for k in range(n):
                if excess[k] > 0:
                    pend += excess[k]
                    T[k] = T0
                if pend > 0:
                    d = min(pend, ice[k])
                    if d < ice[k] * (1 - 1e-12):
                        th[k] *= 1 - d / ice[k]
                        ice[k] -= d
                    else:
                        th[k], ice[k] = 0.0, 0.0
                        ctx.event("ml_layer_gone")
                    lwc[k] += d
                    pend -= d
            lost = np.isfinite(pend) and pend > 1e-9
            if lost:  # heat left over below the last ice: the amount of surface melt is not observable
                continue
            if frost[j] > 0:
                if n == 0:
                    n, T[0] = 1, min(air[j], T0)
                    c[0] = 0.0
                ice[0] += frost[j]
                th[0] += frost[j] / rho[j]
            remove_top(ice[:n], th[:n], max(sub[j], 0.0))
            # percolation and refreezing
            cap = capacity(cfg, th, ice)
            flow, refr, buried = rain[j], 0.0, False
            for k in range(n):
                lwc[k] += flow
                flow = max(lwc[k] - cap[k], 0.0)
                lwc[k] -= flow
                cold = c[k] * (T0 - T[k])
                if cold > 0 and c[k] > 0:
                    f = min(lwc[k], cold / LF)
                    lwc[k] -= f
                    ice[k] += f
                    refr += f
                    buried |= k > 0 and f > 0
                    T[k] += LF * f / c[k]
                    if ice[k] > RHO_ICE * th[k]:
                        th[k] = ice[k] / RHO_ICE  # the pores are full: the layer grows
                        ctx.event("ml_solid")
            # new layers
            depth = th[:n].sum()
            new, near = relayer(depth, mt)
            if near < 1e-9 or (depth > 0 and min(new, default=1) < 1e-5) or (0 < depth < 1e-5):
                continue
            heat = (CI * ice + CW * lwc) * (T - T0)
            wi, wl, wh = spread(th[:n], (ice[:n], lwc[:n], heat[:n]), new) if new else np.zeros((3, 0))
            nn = len(new)
            ctx.event("ml_columns"); ctx.event("ml_layers_changed", nn != n0[j]); ctx.event("ml_split", nn > n0[j] > 0)
            ctx.event("ml_merge", 0 < nn < n0[j]); ctx.event("ml_refreeze", refr > 0); ctx.event("ml_refreeze_buried", buried)
            ctx.event("ml_percolation", flow > 0); ctx.event("ml_internal_melt", (excess > 0).any())
            if not ctx.check(n1[j] == nn, "ml-layer-count", f"{n1[j]} snow layers instead of {nn} (depth {depth:.6g} m) {w}"):
                return
            tol = dict(rtol=1e-7, atol=1e-7)
            same = True
            same &= ctx.check_close(th1[:nn, j], np.array(new), "ml-thickness", f"layer thicknesses {w}", rtol=1e-7, atol=1e-9)
            same &= ctx.check_close(ice1[:nn, j], wi, "ml-ice", f"ice content of the layers {w}", **tol)
            same &= ctx.check_close(lwc1[:nn, j], wl, "ml-lwc", f"liquid water content of the layers {w}", **tol)
            got = (CI * ice1[:nn, j] + CW * lwc1[:nn, j]) * (T1[:nn, j] - T0)
            same &= ctx.check_close(got, wh, "ml-heat", f"heat content (J m-2, relative to the melting point) of the layers {w}", rtol=1e-6, atol=0.1)
            ctx.event("ml_heat", (np.abs(wh) > 100).sum())
            same &= ctx.check_close(refr1[j], refr, "ml-refreezing", f"refreezing {w}", **tol)
            same &= ctx.check_close(run1[j], flow, "ml-runoff", f"water leaving the snowpack {w}", **tol)
            if same is False:
                return
            ctx.state("ml", int(n0[j]), nn, bool(melt[j] > 0), bool(refr > 0), bool(flow > 0))


def cryolayers(job, ctx, m):
    roi, cfg, dt = m.grid.roi, m.config.snow, m.timestep
    cc, a = cfg.cryolayers, cfg.albedo
    if job["spec"].get("ice"):
        s = m.state.snow
        s.thickness[3, roi] = job["spec"]["ice"]
        s.density[3, roi] = cc.transition.ice
        s.ice_content[3, roi] = s.thickness[3, roi] * s.density[3, roi]
        f = np.zeros_like(roi)
        f[:, ::2] = True
        f &= roi
        s.thickness[2, f] = 0.4
        s.density[2, f] = cc.transition.ice - 0.004
        s.ice_content[2, f] = s.thickness[2, f] * s.density[2, f]
        s.layer_albedo[2, f] = 0.3
        s.layer_albedo[3, roi] = 0.6
    tap = trace.PhaseTap(m, m.snow, ["update_layers"], cats=("snow",))
    prev_date = None
    for pre, post in trace.iterate(m, ("snow", "meteo", "surface")):
        P = lambda v: pre[v][..., roi]  # noqa: E731
        Q = lambda v: post[v][..., roi]  # noqa: E731
        w = f"at {m.date}"
        sf, rain = np.nan_to_num(Q("meteo.snowfall")), np.nan_to_num(Q("meteo.rainfall"))
        sub, melt, refr = (np.nan_to_num(Q(f"snow.{v}")) for v in ("sublimation", "melt", "refreezing"))
        air, rho = Q("meteo.temp"), fresh_density(Q("meteo.wet_bulb_temp"))
        ice0, lwc0, th0, la0 = (P(f"snow.{v}") for v in ("ice_content", "liquid_water_content", "thickness", "layer_albedo"))
        mass0 = ice0 + lwc0
        ths = th0.copy()
        ths[:2] = settle_anderson(mass0[:2], lwc0[:2], th0[:2], air, dt / 3600)
        with np.errstate(all="ignore"):
            ths[2] = np.where(th0[2] > 0, mass0[2] / (P("snow.density")[2] + (cc.transition.ice - 500.0) / (10 * 365.25 * 24) * dt / 3600), 0)
            ths[3] = np.where(th0[3] > 0, mass0[3] / cc.transition.ice, 0)
        tdec = air if a.decay_timescale_determination_temperature == "air" else P("surface.temp")
        tau = 3600.0 * np.where(tdec >= T0, a.melting_snow_decay_timescale, a.cold_snow_decay_timescale)
        rate = sf / dt * 3600.0
        yearly = prev_date is not None and m.date.month == cc.transition.firn and prev_date.month != cc.transition.firn
        prev_date = m.date
        ice1, lwc1, th1, la1 = (Q(f"snow.{v}") for v in ("ice_content", "liquid_water_content", "thickness", "layer_albedo"))
        n1, dens1 = Q("snow.num_layers"), Q("snow.density")
        for j in np.flatnonzero((mass0.sum(0) > 0) | (sf > 0)):
            ice, lwc, th, alb = ice0[:, j].copy(), lwc0[:, j].copy(), ths[:, j].copy(), la0[:, j].copy()

            def add(amount):
                if amount > 0:
                    if ice[0] == 0:
                        alb[0] = alb[1] if cc.use_single_snow_albedo and th[1] > 0 else a.max
                    ice[0] += amount
                    th[0] += amount / rho[j]

            add(sf[j])
            near_alb = a.refresh_method == "binary" and abs(rate[j] - a.refresh_snowfall) < 1e-9
            top = next((k for k in range(4) if th[k] > 0), None)
            if th[0] > 0 or th[1] > 0:
                x = alb[0] if th[0] > 0 else alb[1]
                x = a.min + (x - a.min) * np.exp(-dt / tau[j])
                if a.refresh_method == "binary":
                    x = a.max if rate[j] >= a.refresh_snowfall else x
                else:
                    x += (a.max - x) * min(1, rate[j] / a.refresh_snowfall)
                for k in (0, 1):
                    if th[k] > 0 and (cc.use_single_snow_albedo or k == top):
                        alb[k] = x
            if top in (2, 3):
                alb[top] = a.firn if top == 2 else a.ice
            rest = refr[j]
            for k in (0, 1):
                d = min(lwc[k], rest)
                lwc[k] -= d
                ice[k] += d
                rest -= d
                if d > 0 and ice[k] > RHO_ICE * th[k]:
                    th[k] = ice[k] / RHO_ICE
                    ctx.event("cr_solid")
            if not ctx.check(rest <= 1e-9 * max(1, refr[j]), "cr-refreezing", f"more water refroze ({refr[j]:.6g}) than the snow layers held {w}"):
                return
            had = th > 0
            lwc += remove_top(ice, th, melt[j])
            remove_top(ice, th, max(sub[j], 0.0))
            add(max(-sub[j], 0.0))
            gone = (had & (ice <= 1e-12)).any()
            cap = capacity(cfg, th, ice)
            cap[2:] = 0.0
            flow = rain[j]
            for k in range(4):
                if ice[k] + lwc[k] > 0:
                    lwc[k] += flow
                    flow = max(lwc[k] - cap[k], 0.0)
                    lwc[k] -= flow
            mass = ice + lwc
            if ((ice > 0) & (ice < 1e-9)).any() or ((mass > 0) & (th <= 0)).any():
                continue  # rounding decides whether the layer still exists
            th[mass <= 0] = 0.0

            def move(src, dst):
                if th[src] <= 0:
                    return
                ms, md = ice[src] + lwc[src], ice[dst] + lwc[dst]
                if th[dst] > 0:
                    ws = ms / (ms + md)
                    d = ws * ms / th[src] + (1 - ws) * md / th[dst]
                    alb[dst] = ws * alb[src] + (1 - ws) * alb[dst]
                    ctx.event("cr_merge")
                else:
                    d, alb[dst] = ms / th[src], alb[src]
                ice[dst] += ice[src]
                lwc[dst] += lwc[src]
                th[dst] = (ice[dst] + lwc[dst]) / d
                ice[src] = lwc[src] = th[src] = 0.0

            with np.errstate(all="ignore"):
                near = th[0] > 0 and abs(mass[0] / th[0] - cc.transition.old_snow) < 1e-6
            moved = 0
            if th[0] > 0 and mass[0] / th[0] >= cc.transition.old_snow:
                move(0, 1)
                moved = 1
            if yearly and th[1] > 0:
                move(1, 2)
                moved = 2
            rf = (ice[2] + lwc[2]) / th[2] if th[2] > 0 else 0
            near |= abs(rf - cc.transition.ice) < 1e-6
            if rf >= cc.transition.ice:
                move(2, 3)
                moved = 3
            if near:
                continue
            ctx.event("cr_columns"); ctx.event("cr_new_to_old", moved == 1); ctx.event("cr_to_firn", moved == 2); ctx.event("cr_to_ice", moved == 3)
            ctx.event("cr_refreeze", refr[j] > 0); ctx.event("cr_percolation", flow > 0); ctx.event("cr_layer_gone", gone)
            on = th > 0
            ctx.event("cr_multi", on.sum() > 1)
            if not ctx.check(n1[j] == on.sum(), "cr-layer-count", f"{n1[j]} layers instead of {on.sum()} {w}"):
                return
            tol = dict(rtol=1e-7, atol=1e-7)
            good = ctx.check_close(ice1[:, j], ice, "cr-ice", f"ice content of the layers {w}", **tol)
            good &= ctx.check_close(lwc1[:, j], lwc, "cr-lwc", f"liquid water content of the layers {w}", **tol)
            good &= ctx.check_close(th1[:, j], th, "cr-thickness", f"layer thicknesses {w}", rtol=1e-7, atol=1e-9)
            good &= ctx.check_close(dens1[on, j], (ice[on] + lwc[on]) / th[on], "cr-density", f"layer densities {w}", rtol=1e-6, atol=1e-6)
            good &= ctx.check_close(Q("snow.runoff")[j], flow, "cr-runoff", f"water leaving the snowpack {w}", **tol)
            if not near_alb:
                good &= ctx.check_close(la1[on, j], alb[on], "cr-albedo", f"layer albedos {w}", rtol=1e-9, atol=1e-12)
            if not good:
                return
            ctx.state("cr", tuple(bool(x) for x in th0[:, j] > 0), tuple(bool(x) for x in on), moved, bool(melt[j] > 0), bool(refr[j] > 0))
        if "update_layers" in tap.log:
            b, z = (x for x in tap.log["update_layers"])
            mb = (b["snow.ice_content"] + b["snow.liquid_water_content"])[:, roi]
            cb, cz = b["snow.cold_content"][:, roi], z["snow.cold_content"][:, roi]
            ctx.check_close(cz.sum(0), np.where(mb > 0, cb, 0).sum(0), "cr-cold-content", f"cold content changes in the layer transition {w}", rtol=1e-9, atol=1e-9)
            ctx.event("cr_cold_moved", ((cb[0] > 0) & (cz[0] == 0) & (mb[0] > 0)).sum() + ((cb[1] > 0) & (cz[1] == 0) & (mb[1] > 0)).sum())
