"""A01: derived atmospheric variables."""
import numpy as np

from vp import ref, trace, workloads
from vp.scenario import Scenario

RULE = ("random ambient conditions through the public atmospheric functions and full runs; one evaluation = one value compared with an "
        "independent evaluation, inverse or bisection solution; distinct = (function, temperature/humidity class) and run variants")
REQUIRED = {"function": 5000, "wet_bulb": 1000, "wet_bulb_mixed": 50, "inverse": 1000, "field": 3000, "missing": 20, "wind": 300, "phase": 500}
T0 = ref.T0


def jobs(tier, seed):
    rng = np.random.default_rng([seed, 14])
    k = 1 if tier == "quick" else 5
    out = [{"fn": int(rng.integers(1, 2**31)), "n": 40} for _ in range(6 * k)]
    for i, s in enumerate(workloads.snow_specs(rng, 8 * k, snow="cryolayers", steps=40, features=False)):
        s["missing"] = [0.0, 0.3][i % 2]
        s["num_stations"] = [3, 1][i % 2]
        out.append({"spec": s})
    return workloads.hostile(out)


def es_ice(t):
    tc = t - T0
    return 610.71 * np.exp(22.44 * tc / (272.44 + tc))


def wet_bulb(t, e, gamma):
    """Bisection of e = es(tw) - gamma (t - tw)."""
    lo, hi = t - 80.0, t + 15.0
    f = lambda x: ref.es(x) - gamma * (t - x) - e
    for _ in range(80):
        mid = (lo + hi) / 2
        pos = f(mid) > 0
        hi = np.where(pos, mid, hi)
        lo = np.where(pos, lo, mid)
    return (lo + hi) / 2


def derived(t, rh, z):
    p = ref.pressure(z)
    e = ref.es(t) * rh / 100
    q = ref.spec_hum(p, e)
    cp = ref.CP * (1 + 0.84 * q)
    lv = ref.lat_vap(t)
    g = cp * p / (0.622 * lv)
    x = np.log(ref.es_water(t) * rh / 100 / 610.78)
    td = T0 + 234.18 * x / (17.08 - x)
    return dict(atmos_press=p, sat_vap_press=ref.es(t), vap_press=e, spec_hum=q, spec_heat_cap_moist_air=cp, lat_heat_vap=lv,
                psych_const=g, dew_point_temp=td, precipitable_water=465.0 * (e / 100) / t, dry_air_density=p / (ref.RD * t))


def run(job, ctx):
    if "fn" in job:
        return functions(job, ctx)
    sc = Scenario(ctx.workdir, job["spec"])
    m = sc.init_model()
    roi = m.grid.roi
    z = m.state.base.dem[roi]
    for pre, post in trace.iterate(m, ("meteo",)):
        w = f"at {m.date}"
        t, rh = post["meteo.temp"][roi], post["meteo.rel_hum"][roi]
        d = derived(t, rh, z)
        for v, want in d.items():
            ctx.check_close(post[f"meteo.{v}"][roi], want, f"field-{v}", f"{v} {w}", rtol=1e-8, atol=1e-12)
        tw = post["meteo.wet_bulb_temp"][roi]
        want = np.where(np.isnan(d["vap_press"]), np.nan, wet_bulb(t, d["vap_press"], d["psych_const"]))
        ctx.check_close(tw, want, "field-wet-bulb", f"wet-bulb temperature {w}", rtol=0, atol=0.03)
        ctx.event("field", len(t)); ctx.event("missing", np.isnan(rh).sum())
        ctx.state("run", m.config.timestep, bool(np.isnan(t).any()), bool(np.isnan(rh).any()))


def functions(job, ctx):
    from openamundsen import meteo as f

    rng = np.random.default_rng(job["fn"])
    for it in range(job["n"]):
        n = 40
        t = rng.uniform(225, 320, n)
        if it % 3 == 0:
            t = rng.uniform(271, 277, n)
        rh = rng.uniform(2, 100, n)
        rh[:3] = [100.0, 1.0, 99.999]
        z = rng.uniform(-100, 5500, n)
        d = derived(t, rh, z)
        chk = lambda got, want, k: ctx.check_close(got, want, f"fn-{k}", k, rtol=1e-9, atol=1e-12)
        keep = [a.copy() for a in (t, rh, z)]
        chk(f.atmospheric_pressure(z), d["atmos_press"], "atmospheric pressure")
        chk(f.saturation_vapor_pressure(t), d["sat_vap_press"], "saturation vapour pressure")
        chk(f.saturation_vapor_pressure(t, "water"), ref.es_water(t), "saturation vapour pressure over water")
        chk(f.saturation_vapor_pressure(t, "ice"), es_ice(t), "saturation vapour pressure over ice")
        chk(f.vapor_pressure(t, rh), d["vap_press"], "vapour pressure")
        chk(f.vapor_pressure(t, rh, "water"), ref.es_water(t) * rh / 100, "vapour pressure over water")
        chk(f.specific_humidity(d["atmos_press"], d["vap_press"]), d["spec_hum"], "specific humidity")
        chk(f.latent_heat_of_vaporization(t), d["lat_heat_vap"], "latent heat of vaporisation")
        chk(f.specific_heat_capacity_moist_air(d["spec_hum"]), d["spec_heat_cap_moist_air"], "heat capacity of moist air")
        chk(f.psychrometric_constant(d["atmos_press"], d["spec_heat_cap_moist_air"], d["lat_heat_vap"]), d["psych_const"], "psychrometric constant")
        chk(f.dew_point_temperature(t, rh), d["dew_point_temp"], "dew point")
        chk(f.dry_air_density(t, d["atmos_press"]), d["dry_air_density"], "dry air density")
        chk(f.precipitable_water(t, d["vap_press"]), d["precipitable_water"], "precipitable water")
        ah = d["vap_press"] / (ref.RV * t)
        chk(f.absolute_humidity(t, d["vap_press"]), ah, "absolute humidity")
        ctx.event("function", 14 * n)
        # inverse pairs
        inv = lambda got, want, k: ctx.check_close(got, want, f"inv-{k}", k, rtol=1e-7, atol=1e-7)
        inv(f.relative_humidity(t, f.absolute_humidity(t, f.vapor_pressure(t, rh))), rh, "relative humidity from absolute humidity")
        inv(f.relative_humidity_from_dew_point_temperature(t, f.dew_point_temperature(t, rh)), rh, "relative humidity from dew point")
        inv(f.pressure_to_altitude(f.atmospheric_pressure(z)), z, "altitude from pressure")
        cf = rng.uniform(0, 1, n); cf[:2] = [0, 1]
        inv(f.cloud_fraction_from_cloud_factor(f.cloud_factor_from_cloud_fraction(cf)), cf, "cloud fraction from cloud factor")
        chk(f.cloud_factor_from_cloud_fraction(cf), 1 - 0.233 * cf - 0.415 * cf**2, "cloud factor")
        cfac = rng.uniform(0, 1.02, n)
        r = f.cloud_fraction_from_cloud_factor(cfac)
        ctx.check(((r >= 0) & (r <= 1)).all() and (np.diff(r[np.argsort(cfac)]) <= 1e-12).all(), "cloud-fraction-range", "cloud fraction out of range or not decreasing with the cloud factor")
        ws, wd = rng.uniform(0, 40, n), rng.uniform(0, 360, n)
        u, v = f.wind_to_uv(ws, wd)
        ctx.check_close(u, -ws * np.sin(np.deg2rad(wd)), "wind-u", "zonal wind", atol=1e-9)
        ctx.check_close(v, -ws * np.cos(np.deg2rad(wd)), "wind-v", "meridional wind", atol=1e-9)
        s2, d2 = f.wind_from_uv(u, v)
        inv(s2, ws, "wind speed from components")
        k = ws > 1e-3
        ctx.check((np.abs((d2[k] - wd[k] + 180) % 360 - 180) < 1e-6).all(), "wind-dir", "wind direction from components")
        ctx.check(((d2 >= 0) & (d2 <= 360)).all(), "wind-dir-range", "wind direction outside of 0 to 360 degrees")
        ctx.event("wind", n)
        ctx.event("inverse", 6 * n)
        pw = rng.uniform(0, 60, n)
        chk(f.clear_sky_emissivity(pw), 1 - (1 + pw / 10) * np.exp(-np.sqrt(1.2 + 0.3 * pw)), "clear sky emissivity")
        h1, h2, z0 = rng.uniform(2, 12), rng.uniform(1, 12), rng.choice([0.001, 0.01, 0.1])
        chk(f.log_wind_profile(ws, h1, h2, z0), ws * np.log(h2 / z0) / np.log(h1 / z0), "log wind profile")
        # cloud fraction from humidity
        tl, dl = rng.uniform(-0.009, -0.002), rng.uniform(-0.006, -0.001)
        pl, sf, ef = rng.choice([70000.0, 65000.0]), rng.choice([0.832, 1.0]), rng.choice([58.4, 40.0])
        zp = (1 - (pl / 101325.0) ** (8.314462618 / (ref.CP * 0.02896968))) * ref.CP * 288.15 / ref.G
        rh7 = 100 * ref.es(d["dew_point_temp"] - dl * (z - zp)) / ref.es(t - tl * (z - zp))
        chk(f.cloud_fraction_from_humidity(t, rh, z, tl, dl, pl, sf, ef), np.clip(sf * np.exp((rh7 - 100) / (100 - ef)), 0, 1), "cloud fraction from humidity")
        # wet bulb
        tw = f.wet_bulb_temperature(t, rh, d["vap_press"], d["psych_const"])
        want = wet_bulb(t, d["vap_press"], d["psych_const"])
        ctx.check_close(tw, want, "wet-bulb", "wet-bulb temperature", rtol=0, atol=0.03)
        ctx.check((tw <= t + 0.02).all(), "wet-bulb-order", "wet-bulb temperature above air temperature")
        ctx.event("wet_bulb", n); ctx.event("wet_bulb_mixed", ((t > T0) & (want < T0)).sum())
        tn, en = t.copy(), d["vap_press"].copy()
        tn[1] = np.nan; en[2] = np.nan
        r = f.wet_bulb_temperature(tn, rh, en, d["psych_const"])
        ctx.check(np.isnan(r[1]) and np.isnan(r[2]) and np.allclose(r[3:], tw[3:], atol=0.02), "wet-bulb-nan", "missing values spoil wet-bulb temperatures")
        ctx.check(np.isnan(tn[1]) and np.array_equal(t, keep[0]) and np.array_equal(rh, keep[1]) and np.array_equal(z, keep[2]), "inputs", "function modifies its inputs")
        # phase
        th, rg = float(rng.uniform(271, 276)), float(rng.choice([0.0, 1.0, 2.0, 4.0]))
        tt = np.concatenate([t, th + rg * np.array([-0.5, 0.5, 0.0, 0.25]) , [th - 1e-6, th + 1e-6]])
        fr = f.precipitation_phase(tt, threshold_temp=th, temp_range=rg)
        want = np.where(tt < th, 1.0, 0.0) if rg == 0 else np.clip(0.5 - (tt - th) / rg, 0, 1)
        ctx.check_close(fr, want, "phase", f"snowfall fraction (range {rg})", rtol=0, atol=1e-9)
        ctx.event("phase", len(tt))
        ctx.state("fn", it % 3, rg, pl, sf, ef)
