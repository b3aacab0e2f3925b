"""X01: missing forcing is survived without losing the stored state; resetting transient variables and empty stations change nothing."""
import copy

import numpy as np

from vp import trace, workloads
from vp.scenario import Scenario, deep_update

RULE = ("twin runs of the real model: with and without gaps in the forcing, with and without resetting of the transient state variables, with and without a station that has no data; "
        "every state variable of both twins is inspected after every step; one evaluation = one variable or pixel value; distinct = (kind, model type, melt method, gap variables)")
REQUIRED = {"gap_step": 80, "blackout": 10, "partial_gap": 60, "storage_checked": 2000, "recovered_step": 80, "recovered_fields": 1000, "no_flux": 10, "snow_in_gap": 10, "reset_step": 100, "reset_retained": 1000,
            "reset_transient": 1000, "ghost": 3, "ghost_step": 50, "registry": 100, "meta": 100, "first_step_gap": 2, "long_gap": 3, "all_missing": 1}
COLS = ["temp", "precip", "rel_hum", "wind_speed", "wind_dir", "sw_in"]
# what the model carries from step to step and must never lose
STORAGE = ["snow.swe", "snow.depth", "snow.ice_content", "snow.liquid_water_content", "snow.thickness", "snow.cold_content", "snow.heat_cap", "snow.runoff", "snow.sublimation", "snow.area_fraction", "soil.temp",
           "surface.albedo", "evapotranspiration.cum_soil_surface_depletion", "evapotranspiration.cum_root_zone_depletion", "evapotranspiration.sealed_interception", "snow.canopy_intercepted_load", "meteo.precip", "meteo.snowfall", "meteo.rainfall",
           "evapotranspiration.deep_percolation", "evapotranspiration.evapotranspiration"]
MULTI = ["surface.temp", "snow.temp", "snow.melt", "snow.refreezing", "soil.heat_flux", "surface.heat_flux"]


def jobs(tier, seed):
    rng = np.random.default_rng([seed, 41])
    k = 1 if tier == "quick" else 6
    out = []

    def add(kind, n):
        for i in range(n):
            out.append(dict(kind=kind, seed=int(rng.integers(1, 2**31)), i=i))

    add("gaps", 16 * k)
    add("reset", 10 * k)
    add("ghost", 5 * k)
    add("registry", 2)
    return workloads.hostile(out)


def spec_of(rng, i, steps=60):
    s = workloads.snow_specs(rng, 5, steps=steps, snow=["multilayer", "cryolayers"][i % 2], regimes=["alpine", "swing", "meltout", "cold", "warm"])[i % 5]
    s.pop("blackout", None)
    s["missing"] = 0.0
    if i % 3 == 0:
        s["soil"] = [1, 2, 5]
        s["land_cover"] = [1, 2, 4, 5, 6, 7]
        deep_update(s["config"], {"evapotranspiration": {"enabled": True}, "canopy": {"enabled": True}})
    if s["config"]["snow"]["model"] == "cryolayers" and i % 4 == 1:
        s["glaciers"] = 0.5
        deep_update(s["config"], {"glaciers": {"enabled": True}})
    return s


def run_gaps(job, ctx):
    rng = np.random.default_rng(job["seed"])
    i = job["i"]
    s = spec_of(rng, i)
    s["config"]["reset_state_variables"] = False
    ref, sc = Scenario(ctx.workdir / "a", s), Scenario(ctx.workdir / "b", s)
    n = len(sc.dates)
    gap = np.zeros(n, bool)
    miss = {v: np.zeros(n, bool) for v in COLS}
    gaps = []
    for g in range(5):
        k = int(rng.integers(3, n - 8))
        length = int(rng.integers(1, 4))
        vs = COLS if g < 2 else [str(v) for v in rng.choice(COLS, int(rng.integers(1, 4)), replace=False)]
        if g == 1 and i % 3 == 0:
            k, length = 0, 2
            ctx.event("first_step_gap")
        if g == 0 and i % 4 == 2:
            length = 9
            ctx.event("long_gap")
        gaps.append((k, length, vs))
    if i == 7:
        gaps = [(0, n, COLS)]
        ctx.event("all_missing")
    for k, length, vs in gaps:
        gap[k:k + length] = True
        for v in vs:
            miss[v][k:k + length] = True
        for df in sc.forcing.values():
            df.iloc[k:k + length, [df.columns.get_loc(v) for v in vs]] = np.nan
    black = np.all([miss[v] for v in COLS], axis=0)
    m0, m1 = ref.init_model(), sc.init_model()
    roi = m0.grid.roi
    multi = s["config"]["snow"]["model"] == "multilayer"
    watch = STORAGE + (MULTI if multi else [])
    since = 99
    for q in range(n):
        pre = trace.snapshot(m1, ("snow", "canopy"))
        m0.run_single()
        m1.run_single()
        a, b = trace.snapshot(m0), trace.snapshot(m1)
        since = 0 if gap[q] else since + 1
        ctx.event("gap_step", gap[q])
        ctx.event("blackout", black[q])
        ctx.event("partial_gap", gap[q] and not black[q])
        same_snow = ((a["snow.swe"] > 0) == (b["snow.swe"] > 0))[roi]
        for v in watch:
            if v not in a:
                continue
            x, y = np.isfinite(a[v][..., roi]), np.isfinite(b[v][..., roi])
            lost = (x & ~y)
            ctx.event("storage_checked")
            ctx.check(not lost.any(), "lost:" + v, f"{v} is lost ({int(lost.sum())} values) at step {q} ({'gap in ' + ', '.join(c for c in COLS if miss[c][q]) if gap[q] else f'{since} steps after a gap'})")
        if black[q]:
            # nothing comes in and nothing leaves but stored water
            g = roi & (pre["snow.swe"] > 0)
            ctx.event("snow_in_gap", g.any())
            ctx.event("no_flux")
            for v in ("meteo.precip", "meteo.snowfall", "meteo.rainfall", "snow.sublimation"):
                z = np.nan_to_num(b[v][roi], nan=0.0)
                ctx.check(not (z != 0).any(), "flux:" + v, f"{v} up to {np.abs(z).max(initial=0)} at step {q} without any forcing")
            if not s.get("glaciers"):
                d = b["snow.swe"][roi] - pre["snow.swe"][roi]
                run = np.nan_to_num(b["snow.runoff"][roi], nan=0.0)
                # snow may fall or melt off the trees
                fall = 1e9 if s["config"].get("canopy", {}).get("enabled") else 0.0
                ctx.check((d <= 1e-6 + fall).all() and (d >= -run - 1e-6).all(), "swe-gap", f"snow water equivalent changes by {d.min():.4g}..{d.max():.4g} at step {q} without any forcing (runoff up to {run.max():.4g})")
        if since >= 2:
            ctx.event("recovered_step")
            for v in a:
                # (snow and surface fields depend on whether there was snow earlier, which a gap may change)
                if a[v].dtype.kind != "f" or a[v].ndim != 2 or not (v.startswith("meteo.") or v in ("surface.temp", "surface.albedo")):
                    continue
                lost = np.isfinite(a[v][roi]) & ~np.isfinite(b[v][roi]) & same_snow
                ctx.event("recovered_fields")
                ctx.check(not lost.any(), "not-recovered:" + v, f"{v} is still undefined at {int(lost.sum())} pixels {since} steps after a gap")
    ctx.state("gaps", s["config"]["snow"]["model"], s["config"]["snow"].get("melt", {}).get("method"), i, [g[2] if len(g[2]) < 6 else "all" for g in gaps][-1])


def run_reset(job, ctx):
    rng = np.random.default_rng(job["seed"])
    i = job["i"]
    s = spec_of(rng, i, steps=50)
    if i % 2:
        s["missing"] = 0.05
        s["blackout"] = [9, 10]
    ov = {"output_data": {"timeseries": {"add_default_points": True, "add_default_variables": True}}}
    deep_update(s["config"], ov)
    c0, c1 = copy.deepcopy(s), copy.deepcopy(s)
    c0["config"]["reset_state_variables"] = False
    c1["config"]["reset_state_variables"] = True
    m0, m1 = Scenario(ctx.workdir / "a", c0).init_model(), Scenario(ctx.workdir / "b", c1).init_model()
    roi = m0.grid.roi
    for q in range(len(m0.dates)):
        m0.run_single()
        m1.run_single()
        a, b = trace.snapshot(m0), trace.snapshot(m1)
        ctx.event("reset_step")
        for v in a:
            if m1.state.meta(v).retain:
                ctx.event("reset_retained")
                ctx.check(np.array_equal(a[v], b[v], equal_nan=a[v].dtype.kind == "f"), "reset:" + v, f"{v} differs at step {q} when transient variables are reset")
            elif a[v].dtype.kind == "f":
                ctx.event("reset_transient")
                d = np.isfinite(b[v])
                ctx.check(np.array_equal(a[v][d], b[v][d]), "reset-transient:" + v, f"{v} differs at step {q} when transient variables are reset")
    ctx.state("reset", s["config"]["snow"]["model"], i)


def run_ghost(job, ctx):
    rng = np.random.default_rng(job["seed"])
    i = job["i"]
    s = spec_of(rng, i, steps=40)
    sc = Scenario(ctx.workdir / "a", s)
    import openamundsen as oa

    ds0 = sc.dataset()
    st = dict(sc.stations[0])
    df = sc.forcing[st["id"]].copy()
    df[:] = np.nan
    where = [(0.0, 0.0, 0.0), (0.001, -0.002, 500.0), (0.3, 0.2, -900.0)][i % 3]
    ghost = oa.forcing.make_point_dataset(data=df, point_id=["aaa", "zzz"][i % 2], name="Ghost", lon=st["lon"] + where[0], lat=st["lat"] + where[1], alt=st["alt"] + where[2])
    parts = [oa.forcing.make_point_dataset(data=sc.forcing[t["id"]], point_id=t["id"], name=t["name"], lon=t["lon"], lat=t["lat"], alt=t["alt"]) for t in sc.stations]
    ds1 = oa.forcing.combine_point_datasets([ghost] + parts if i % 2 else parts + [ghost])
    m0, m1 = sc.model(), sc.model()
    m0.initialize(meteo=ds0)
    m1.initialize(meteo=ds1)
    ctx.check(m1.meteo.sizes["station"] == m0.meteo.sizes["station"] + 1, "ghost-station", "station without data is not part of the dataset")
    for q in range(len(m0.dates)):
        m0.run_single()
        m1.run_single()
        a, b = trace.snapshot(m0), trace.snapshot(m1)
        ctx.event("ghost_step")
        bad = False
        for v in a:
            if a[v].dtype.kind == "f":
                bad |= not ctx.check_close(b[v], a[v], "ghost:" + v, f"{v} at step {q} changes when a station without data is added", rtol=1e-7, atol=1e-7)
        if bad:
            break
    ctx.event("ghost")
    ctx.state("ghost", i % 3, s["config"]["snow"]["model"])


def run_registry(job, ctx):
    import openamundsen as oa
    from openamundsen.statevars import StateVariableManager

    rng = np.random.default_rng(job["seed"])
    for q in range(30):
        rows, cols = int(rng.integers(1, 7)), int(rng.integers(1, 7))
        mgr = StateVariableManager(rows, cols)
        names = [f"c{int(x)}" for x in rng.permutation(20)[:4]]
        for nm in names:
            mgr.add_category(nm)
        ctx.check(sorted(mgr.categories) == sorted(names), "categories", f"categories {mgr.categories}")
        for badname in (names[0], "1x", "a b", "a-b"):
            try:
                mgr.add_category(badname)
                ctx.violation("category", f"category name {badname!r} is accepted")
            except oa.errors.CategoryError:
                ctx.ok()
        defs = {}
        for nm in names:
            for j in range(int(rng.integers(1, 5))):
                d = dict(dtype=[float, int, bool][int(rng.integers(0, 3))], dim3=int(rng.integers(0, 4)), retain=bool(rng.random() < 0.5))
                mgr[nm].add_variable(f"v{j}", units="m", long_name="L", standard_name="S", **d)
                defs[f"{nm}.v{j}"] = d
        mgr.initialize()
        empty = {float: np.nan, int: 0, bool: False}
        for v, d in defs.items():
            a = mgr[v]
            shape = (rows, cols) if d["dim3"] == 0 else (d["dim3"], rows, cols)
            ctx.check(a.shape == shape and a.dtype == np.dtype(d["dtype"]), "array", f"{v}: {a.shape} {a.dtype} for {d}")
            ctx.check(np.array_equal(a, np.full(shape, empty[d["dtype"]]), equal_nan=d["dtype"] is float), "empty", f"{v} is not empty after initialisation")
            cat, var = v.split(".")
            ctx.check(mgr[cat][var] is a and getattr(getattr(mgr, cat), var) is a, "access", "item and attribute access differ")
            me = mgr.meta(v)
            ctx.check(me.units == "m" and me.long_name == "L" and me.standard_name == "S" and me.dim3 == d["dim3"] and me.retain == d["retain"] and np.dtype(me.dtype) == np.dtype(d["dtype"]), "meta", f"metadata {me}")
            a[:] = 1
            ctx.event("registry")
        arrs = {v: mgr[v] for v in defs}
        mgr.reset()
        for v, d in defs.items():
            want = np.full(mgr[v].shape, 1 if d["retain"] else empty[d["dtype"]]).astype(d["dtype"])
            ctx.check(np.array_equal(mgr[v], want, equal_nan=d["dtype"] is float), "reset", f"{v} after a reset ({d})")
            ctx.check(mgr[v] is arrs[v], "reset-identity", "reset replaces the array")
    # variables of a running model always agree with their definitions
    for i in range(4):
        s = spec_of(rng, i, steps=20)
        m = Scenario(ctx.workdir / f"m{i}", s).init_model()
        for q in range(5):
            m.run_single()
            for cat in m.state.categories:
                for var in trace.variables(m.state[cat]):
                    me, a = m.state.meta(f"{cat}.{var}"), m.state[f"{cat}.{var}"]
                    ctx.event("meta")
                    want = m.grid.roi.shape if me.dim3 == 0 else (me.dim3, *m.grid.roi.shape)
                    ctx.check(a.shape == want and a.dtype == np.dtype(me.dtype), "model-array", f"{cat}.{var} has shape {a.shape} and type {a.dtype} at step {q}, defined as {want}, {me.dtype}")
    ctx.state("registry")


def run(job, ctx):
    globals()["run_" + job["kind"]](job, ctx)
