"""L01: time loop - every time step of the period exactly once, in order, causally, and the step properties match the calendar."""
import copy

import numpy as np
import pandas as pd

from vp import trace, workloads
from vp.scenario import Scenario, deep_update

RULE = ("real runs over random periods and time steps, driven by run() and run_single(); the monitor logs every step (date, index, callback calls, thread count, "
        "properties, outputs) and compares with an independent enumeration of the period; runs that only differ in the future of the forcing are compared step by step; "
        "distinct = (time step, kind of period, driver)")
REQUIRED = {"step": 800, "props": 800, "callback_call": 800, "year_boundary": 4, "month_boundary": 15, "day_boundary": 60, "leap_day": 1, "run_vs_single": 6, "after_end": 8,
            "run_twice": 4, "run_after_single": 4, "causal_step": 80, "shorter_run": 4, "threads": 500, "raising_callback": 4, "one_step": 2, "off_midnight": 4, "independent_start": 4, "late_start_step": 6}
FIELDS = ["first_of_run", "strict_first_of_year", "strict_first_of_month", "strict_first_of_day", "first_of_year", "first_of_month", "first_of_day",
          "last_of_run", "strict_last_of_year", "strict_last_of_month", "strict_last_of_day", "last_of_year", "last_of_month", "last_of_day"]
STEPS = ["h", "3h", "30min", "15min", "6h", "D", "2h", "12h", "8h", "24h", "20min", "2D", "5D", "H", "3H"]
STARTS = ["2019-12-30 00:00", "2020-02-27 12:00", "2020-12-31 22:00", "2021-02-27 00:00", "2019-09-29 15:00", "2020-01-01 00:00", "2020-04-29 06:00", "2019-12-31 00:00", "2021-06-30 23:00"]


def td_of(ts):
    ts = ts.replace("H", "h")
    return pd.Timedelta(ts if ts[0].isdigit() else "1" + ts)


def jobs(tier, seed):
    rng = np.random.default_rng([seed, 31])
    k = 1 if tier == "quick" else 6
    out = []
    for i in range(30 * k):
        ts = STEPS[i % len(STEPS)]
        start = pd.Timestamp(STARTS[(i + i // len(STEPS)) % len(STARTS)]) + pd.Timedelta(days=int(rng.integers(0, 3)) if i >= 18 else 0)
        out.append({"kind": "loop", "seed": int(rng.integers(1, 2**31)), "ts": ts, "start": str(start), "n": [70, 40, 1, 55, 2, 90][i % 6], "i": i})
    for i in range(8 * k):
        out.append({"kind": "equiv", "seed": int(rng.integers(1, 2**31)), "i": i})
    for i in range(8 * k):
        out.append({"kind": "causal", "seed": int(rng.integers(1, 2**31)), "i": i})
    for i in range(4 * k):
        out.append({"kind": "errors", "seed": int(rng.integers(1, 2**31)), "i": i})
    return out


def tiny(ctx, job, **over):
    """A minimal scenario with a callback as forcing."""
    td = td_of(job["ts"])
    end = pd.Timestamp(job["start"]) + td * (job["n"] - 1)
    spec = dict(seed=job["seed"], start=job["start"], end=str(end), timestep=job["ts"].replace("H", "h"), rows=3, cols=4, roi=False, num_stations=1, dem="plane",
                config={"input_data": {"meteo": {"format": "callback"}}, "timestep": job["ts"], "snow": {"model": "cryolayers", "melt": {"method": "temperature_index", "degree_day_factor": 5.0}},
                        "end_date": str(end)})
    if td > pd.Timedelta("1D"):
        deep_update(spec["config"], {"output_data": {"timeseries": {"write_freq": f"{td.days * 10}D"}}})
    deep_update(spec["config"], over)
    return Scenario(ctx.workdir / over.get("domain_tag", "s"), spec), td, pd.Timestamp(job["start"]), end


def fill(model, temp=275.0, precip=1.0):
    roi = model.grid.roi
    m = model.state.meteo
    m.temp[roi] = temp
    m.rel_hum[roi] = 70.0
    m.wind_speed[roi] = 2.0
    m.precip[roi] = precip
    m.cloud_factor[roi] = 0.7
    m.cloud_fraction[roi] = 0.5


def expected_props(k, dates, td):
    """Calendar facts of step k of the run, from first principles."""
    d = dates[k]
    prev, nxt = d - td, d + td
    e = {"first_of_run": k == 0, "last_of_run": k == len(dates) - 1}
    for nm, per in (("year", "Y"), ("month", "M"), ("day", "D")):
        key = {"Y": lambda t: t.year, "M": lambda t: (t.year, t.month), "D": lambda t: t.normalize()}[per]
        e[f"strict_first_of_{nm}"] = key(prev) != key(d)
        e[f"strict_last_of_{nm}"] = key(nxt) != key(d)
        # the first/last step of the run within this year/month/day
        e[f"first_of_{nm}"] = k == 0 or key(dates[k - 1]) != key(d)
        e[f"last_of_{nm}"] = k == len(dates) - 1 or key(dates[k + 1]) != key(d)
    return e


def run_loop(job, ctx):
    import numba

    i = job["i"]
    want_threads = [2, None, 1, "auto", 3][i % 5]
    sc, td, start, end = tiny(ctx, job, numba_threads=want_threads)
    calls = []
    used = []

    def cb(model):
        calls.append((model.date_idx, model.date))
        used.append(numba.get_num_threads())
        fill(model, temp=270.0 + (model.date_idx % 9), precip=float(model.date_idx % 3))

    m = sc.model()
    m.initialize(meteo_callback=cb)
    exp = [start + td * q for q in range(job["n"])]
    ctx.check(len(m.dates) == len(exp) and all(a == b for a, b in zip(m.dates, exp)), "dates", f"time steps {list(m.dates[:3])}..{m.dates[-1]} ({len(m.dates)}), expected {len(exp)} from {exp[0]} to {exp[-1]}")
    ctx.check(m.timestep == td.total_seconds(), "timestep", f"time step length {m.timestep} s, expected {td.total_seconds()}")
    ctx.check(not calls, "early-callback", "callback called before the run")
    before = numba.get_num_threads()
    seen = []
    if i % 2:
        # run() with a logger in the callback
        orig = cb

        def cb2(model):
            orig(model)
            seen.append((model.date_idx, model.date, model.timestep_props))

        m = sc.model()
        m.initialize(meteo_callback=cb2)
        m.run()
    else:
        for q in range(job["n"]):
            m.run_single()
            ctx.check(numba.get_num_threads() == before, "threads-restored", "number of numba threads of the process changed by a time step")
            seen.append((m.date_idx, m.date, m.timestep_props))
    ctx.check(numba.get_num_threads() == before, "threads-restored", "number of numba threads of the process changed by the run")
    if want_threads in (1, 2, 3):
        ctx.check(all(u == min(want_threads, numba.config.NUMBA_NUM_THREADS) for u in used), "threads", f"threads used in the time steps {set(used)}, configured {want_threads}")
    ctx.event("threads", len(used))
    ctx.check([c[1] for c in calls] == exp and [c[0] for c in calls] == list(range(len(exp))), "callback-order", f"callback called for {[str(c[1]) for c in calls[:4]]}... ({len(calls)} calls), expected {len(exp)} steps")
    ctx.event("callback_call", len(calls))
    ctx.check(len(seen) == len(exp), "steps", f"{len(seen)} steps processed, expected {len(exp)}")
    for q, (idx, date, pr) in enumerate(seen[: len(exp)]):
        ctx.event("step")
        ctx.check(idx == q and date == exp[q], "order", f"step {q}: index {idx}, date {date}, expected {exp[q]}")
        e = expected_props(q, exp, td)
        ctx.event("props")
        for f in FIELDS:
            ctx.check(bool(getattr(pr, f)) == e[f], "props:" + f, f"{f} is {getattr(pr, f)} at {date} (time step {job['ts']}, run from {start} to {end}), expected {e[f]}")
        ctx.event("year_boundary", e["strict_first_of_year"])
        ctx.event("month_boundary", e["strict_first_of_month"])
        ctx.event("day_boundary", e["strict_first_of_day"])
        ctx.event("leap_day", date.month == 2 and date.day == 29)
    ctx.event("one_step", job["n"] == 1)
    ctx.event("off_midnight", start.hour != 0)
    finished(ctx, m)
    ctx.state("loop", job["ts"], job["start"][-5:], i % 2)


def finished(ctx, m):
    """After the last step nothing more can be processed and the state is left alone."""
    import openamundsen as oa

    a = trace.snapshot(m)
    d = (m.date, m.date_idx)
    for fn in ("run_single", "run", "run_single"):
        try:
            getattr(m, fn)()
            ctx.violation("after-end:" + fn, f"{fn}() after the last time step is accepted")
        except oa.errors.OpenAmundsenRuntimeError:
            ctx.ok()
    ctx.event("after_end")
    b = trace.snapshot(m)
    ctx.check((m.date, m.date_idx) == d, "after-end-date", f"date after the end {m.date}")
    for v in a:
        ctx.check(np.array_equal(a[v], b[v], equal_nan=a[v].dtype.kind == "f"), "after-end-state", f"{v} changed by a rejected call")


def spec_full(rng, i, steps=40):
    s = workloads.snow_specs(rng, 5, steps=steps)[i % 5]
    if i % 3 == 0:
        s["soil"] = [1, 2, 5]
        s["land_cover"] = [1, 2, 4, 5, 6, 7]
        deep_update(s["config"], {"evapotranspiration": {"enabled": True}})
    deep_update(s["config"], {"output_data": {"timeseries": {"add_default_points": True, "add_default_variables": True},
                                              "grids": {"variables": [{"var": "snow.swe", "freq": "D", "agg": "mean"}, {"var": "meteo.precip", "freq": "D", "agg": "sum"}, {"var": "surface.temp"}]}}})
    return s


def equal_states(ctx, a, b, key, what):
    ok = True
    for v in a:
        same = np.array_equal(a[v], b[v], equal_nan=a[v].dtype.kind == "f")
        ok &= ctx.check(same, key, f"{v} {what}" if same else f"{v} {what}: max. difference {np.nanmax(np.abs(np.asarray(a[v], float) - np.asarray(b[v], float)), initial=0)}")
        if not ok:
            break
    return ok


def same_ds(a, b):
    return set(a.variables) == set(b.variables) and all(
        np.array_equal(a[v].values, b[v].values, equal_nan=a[v].dtype.kind == "f") if a[v].dtype.kind != "O" else list(a[v].values.ravel()) == list(b[v].values.ravel()) for v in a.variables)


def run_equiv(job, ctx):
    rng = np.random.default_rng(job["seed"])
    s = spec_full(rng, job["i"])
    sc = Scenario(ctx.workdir, s)
    m0 = sc.init_model()
    m1 = sc.init_model()
    m0.run()
    for _ in range(len(m1.dates)):
        m1.run_single()
    a, b = trace.snapshot(m0), trace.snapshot(m1)
    equal_states(ctx, a, b, "run-vs-single", "differs between run() and run_single()")
    ctx.check(m0.date == m1.date == sc.dates[-1], "final-date", f"{m0.date}, {m1.date}")
    for nm in ("point_output", "gridded_output"):
        ctx.check(same_ds(getattr(m0, nm).data, getattr(m1, nm).data), "run-vs-single-" + nm, f"{nm} differs between run() and run_single()")
    ctx.event("run_vs_single")
    ctx.state("equiv", s["timestep"], s["config"]["snow"]["model"])
    finished(ctx, m0)
    finished(ctx, m1)


def run_causal(job, ctx):
    rng = np.random.default_rng(job["seed"])
    i = job["i"]
    s = spec_full(rng, i, steps=44)
    sc = Scenario(ctx.workdir / "a", s)
    n = len(sc.dates)
    k = int(rng.integers(n // 3, n - 3))
    # the future differs completely
    sc2 = Scenario(ctx.workdir / "b", s)
    for df in sc2.forcing.values():
        df.iloc[k + 1:, df.columns.get_loc("temp")] += 17.0
        df.iloc[k + 1:, df.columns.get_loc("precip")] *= 5.0
        df.iloc[k + 1:, df.columns.get_loc("rel_hum")] = 20.0
        df.iloc[k + 1:, df.columns.get_loc("sw_in")] *= 0.3
        df.iloc[k + 1:, df.columns.get_loc("wind_speed")] += 4.0
    # the run ends earlier
    sc3 = Scenario(ctx.workdir / "c", dict(s, config=deep_update(copy.deepcopy(s["config"]), {"end_date": str(sc.dates[k])})))
    for st in sc3.forcing:
        sc3.forcing[st] = sc3.forcing[st].iloc[: k + 1]
    m0, m1, m2 = sc.init_model(), sc2.init_model(), sc3.init_model()
    ctx.check(len(m2.dates) == k + 1, "dates", f"{len(m2.dates)} steps until {sc.dates[k]}")
    for q in range(k + 1):
        for m in (m0, m1, m2):
            m.run_single()
        if q % 4 == 0 or q == k:
            a = trace.snapshot(m0)
            ctx.event("causal_step")
            if not equal_states(ctx, a, trace.snapshot(m1), "causal", f"at step {q} depends on the forcing after step {k}"):
                break
            if not equal_states(ctx, a, trace.snapshot(m2), "end-date", f"at step {q} depends on the end date of the run"):
                break
        else:
            for v in ("snow.swe", "surface.temp", "meteo.temp", "meteo.sw_in"):
                a = m0.state[v]
                ctx.check(np.array_equal(a, m1.state[v], equal_nan=True) and np.array_equal(a, m2.state[v], equal_nan=True), "causal", f"{v} at step {q} depends on the future after step {k}")
            ctx.event("causal_step")
    ctx.event("shorter_run")
    finished(ctx, m2)
    m0.run_single()
    m1.run_single()
    ctx.check(not np.array_equal(m0.state.meteo.temp, m1.state.meteo.temp, equal_nan=True), "forcing-ignored", "a different forcing has no effect on the temperature field")
    # records before the start date of the run have no influence
    j = int(rng.integers(2, k))
    ds = sc.dataset()
    cut = sc.dates[j]
    over = deep_update(copy.deepcopy(sc.config), {"start_date": str(cut)})
    import openamundsen as oa

    res = []
    for d in (ds.sel(time=slice(cut, None)), None):
        mm = oa.OpenAmundsen(copy.deepcopy(over))
        if d is None:  # same, through the files, which hold the full records
            sc.write_csv()
            mm = oa.OpenAmundsen(deep_update(copy.deepcopy(over), {"input_data": {"meteo": {"format": "csv", "crs": "epsg:32632", "bounds": "global"}}}))
            mm.initialize()
        else:
            mm.initialize(meteo=d)
        ctx.check(mm.dates[0] == cut, "start-date", f"first step {mm.dates[0]}")
        for _ in range(4):
            mm.run_single()
        res.append(trace.snapshot(mm))
    for v in ("snow.swe", "meteo.temp", "meteo.precip", "surface.temp", "meteo.wind_speed"):
        ctx.check_close(res[1][v], res[0][v], "start", f"{v} depends on records before the start date", rtol=1e-6, atol=1e-6)
    ctx.event("independent_start")
    # the memoryless part of the meteorology does not depend on when the run started
    if not s["config"].get("canopy", {}).get("enabled"):
        early, late = sc.init_model(), oa.OpenAmundsen(copy.deepcopy(over))
        late.initialize(meteo=ds.sel(time=slice(cut, None)))
        for _ in range(j):
            early.run_single()
        for q in range(min(8, n - j)):
            early.run_single()
            late.run_single()
            ctx.check(early.date == late.date, "late-start-date", f"{early.date} != {late.date}")
            for v in ("temp", "precip", "rel_hum", "wind_speed", "atmos_press", "vap_press", "sat_vap_press", "spec_hum", "dew_point_temp", "wet_bulb_temp", "dry_air_density", "spec_heat_cap_moist_air", "precipitable_water", "rainfall", "snowfall"):
                ctx.check_close(late.state.meteo[v], early.state.meteo[v], "late-start", f"meteo.{v} at {late.date} depends on the start date of the run", rtol=1e-9, atol=1e-9)
            ctx.event("late_start_step")
    ctx.state("causal", s["timestep"], k)


def run_errors(job, ctx):
    import numba
    import openamundsen as oa

    job = dict(job, ts=["3h", "h", "D", "30min"][job["i"] % 4], start="2020-01-30 00:00", n=12)
    sc, td, start, end = tiny(ctx, job, numba_threads=2)

    class Boom(Exception):
        pass

    calls = []
    fail = {4}

    def cb(model):
        calls.append(model.date)
        if len(calls) - 1 in fail:
            raise Boom
        fill(model)

    m = sc.model()
    m.initialize(meteo_callback=cb)
    before = numba.get_num_threads()
    for q in range(4):
        m.run_single()
    try:
        m.run_single()
        ctx.violation("swallowed", "an exception raised by the meteo callback is swallowed")
    except Boom:
        ctx.ok()
    ctx.event("raising_callback")
    ctx.check(numba.get_num_threads() == before, "threads-after-error", "number of numba threads not restored after an exception")
    ctx.check(calls[-1] == start + 4 * td, "callback-date", f"callback date {calls[-1]}")
    # run() after run_single()
    a = trace.snapshot(m)
    d = m.date
    try:
        m.run()
        ctx.violation("run-after-single", "run() after run_single() is accepted")
    except oa.errors.OpenAmundsenRuntimeError:
        ctx.ok()
    ctx.event("run_after_single")
    ctx.check(m.date == d, "run-after-single-date", "rejected run() advances the date")
    equal_states(ctx, a, trace.snapshot(m), "run-after-single-state", "changed by a rejected run()")
    ctx.check(len(calls) == 5, "run-after-single-callback", "rejected run() processes time steps")
    # run() twice
    calls.clear()
    fail.clear()
    m = sc.model()
    m.initialize(meteo_callback=cb)
    m.run()
    ctx.check(calls == [start + q * td for q in range(12)], "run", f"run() processed {len(calls)} steps")
    a = trace.snapshot(m)
    try:
        m.run()
        ctx.violation("run-twice", "run() can be called twice")
    except oa.errors.OpenAmundsenRuntimeError:
        ctx.ok()
    ctx.event("run_twice")
    ctx.check(len(calls) == 12, "run-twice-callback", "rejected run() processes time steps")
    equal_states(ctx, a, trace.snapshot(m), "run-twice-state", "changed by a rejected run()")
    # callbacks must be given and callable
    for kw in ({}, {"meteo_callback": 3}):
        mm = sc.model()
        try:
            mm.initialize(**kw)
            ctx.violation("no-callback", f"initialize({kw}) is accepted in callback mode")
        except oa.errors.MeteoDataError:
            ctx.ok()
    ctx.state("errors", job["ts"])


def run(job, ctx):
    globals()["run_" + job["kind"]](job, ctx)
