"""D01: determinism and isolation - a run is a function of its inputs, whatever the schedule, process or other runs around it."""
import builtins
import copy
import json
import locale
import logging
import os
import pickle
import random
import subprocess
import sys
import warnings
from pathlib import Path

import numpy as np

from vp import trace, workloads
from vp.scenario import Scenario, deep_update

RULE = ("the same scenario is executed under different schedules (thread counts, iteration orders of the parallel loops, oversubscription), in different processes, interleaved with other "
        "models, after pickling, with and without JIT compilation and with bounds checking; the states of the executions are compared; a race detector logs the elements "
        "touched by each iteration of every parallel loop; process-wide state and written files are watched; distinct = (variant, model type, time step)")
REQUIRED = {"repeat": 4, "threads": 12, "interleaved": 4, "pickled": 4, "process": 4, "nojit": 3, "race_loops": 300, "race_iterations": 5000, "race_accesses": 50000, "race_kernels": 20,
            "shuffled": 3, "boundscheck": 2, "stress": 2, "isolated": 4, "station_order": 4, "files": 4, "logging": 4, "cli": 2, "cli_values": 2000, "cli_rejected": 6, "compared": 5000, "snow_run": 2}


def jobs(tier, seed):
    rng = np.random.default_rng([seed, 37])
    k = 1 if tier == "quick" else 6
    out = []

    def add(kind, n, **kw):
        for i in range(n):
            out.append(dict(kind=kind, seed=int(rng.integers(1, 2**31)), i=i, **kw))

    add("boundscheck", 2 if tier == "quick" else 6)
    add("nojit", 5 * k)
    add("stress", 2 * k)
    add("process", 4 * k)
    add("inproc", 7 * k)
    add("isolation", 4 * k)
    add("cli", 2 * k)
    return out


def make_spec(rng, i, steps=24, large=False):
    snow = ["multilayer", "cryolayers"][i % 2]
    s = workloads.snow_specs(rng, 4, steps=steps, snow=snow, regimes=["swing", "alpine", "meltout", "cold"])[i % 4]
    if i % 3 == 0:
        s["soil"] = [1, 2, 5]
        s["land_cover"] = [1, 2, 4, 5, 6, 7]
        deep_update(s["config"], {"evapotranspiration": {"enabled": True}, "canopy": {"enabled": True}})
    if snow == "cryolayers" and i % 4 == 1:
        s["glaciers"] = 0.5
        deep_update(s["config"], {"glaciers": {"enabled": True}})
    # day times matter for the shadow kernel
    if large:
        s["rows"], s["cols"] = 61, 47
        s["roi_frac"] = 0.9
    return s


def final(m, n=None):
    for _ in range(n or len(m.dates)):
        m.run_single()
    return trace.snapshot(m)


def compare(ctx, a, b, key, what, rtol=0.0, atol=0.0):
    ctx.check(set(a) == set(b), key + ":vars", f"{what}: different variables")
    for v in a:
        if v not in b:
            continue
        ctx.event("compared")
        x, y = np.asarray(a[v]), np.asarray(b[v])
        if rtol == 0 and atol == 0:
            ok = np.array_equal(x, y, equal_nan=x.dtype.kind == "f")
            ctx.check(ok, f"{key}", f"{v} differs {what}" + ("" if ok else f": max. difference {np.nanmax(np.abs(x.astype(float) - y.astype(float)), initial=0):.3g}"))
        else:
            ctx.check_close(y, x, f"{key}", f"{v} differs {what}", rtol=rtol, atol=atol)


def child(ctx, job, spec, tag, env=None, **opt):
    """Run the scenario in a fresh process; returns (states at the last step, info)."""
    d = ctx.workdir / f"child_{tag}"
    d.mkdir()
    jf, of = d / "job.json", d / "out.npz"
    jf.write_text(json.dumps({"dir": str(d / "s"), "spec": spec, "opt": opt}))
    e = dict(os.environ)
    e.update(env or {})
    e["NUMBA_CACHE_DIR"] = str(Path(os.environ.get("NUMBA_CACHE_DIR", str(d))).parent / ("numba_" + "_".join(sorted(k for k in (env or {}) if k == "NUMBA_BOUNDSCHECK")))) if "NUMBA_BOUNDSCHECK" in (env or {}) else e.get("NUMBA_CACHE_DIR", str(d))
    r = subprocess.run([sys.executable, "-m", "vp.child", str(jf), str(of)], env=e, cwd=d, capture_output=True, text=True)
    if r.returncode != 0 or not of.exists():
        tail = r.stderr[-1200:]
        return None, {"rc": r.returncode, "stderr": tail}
    z = np.load(of)
    states = {}
    for kk in z.files:
        k, v = kk.split("|", 1)
        states.setdefault(int(k), {})[v] = z[kk]
    info = json.loads([ln for ln in r.stdout.splitlines() if ln.startswith("VPCHILD ")][-1][8:])
    return states, info


def failed(ctx, tag, info):
    if info["rc"] in (-9,):
        raise RuntimeError("child process was killed")
    ctx.violation(f"{tag}-failed", f"the run fails in this mode ({tag}): {info['stderr'][-500:]}")


def run_inproc(job, ctx):
    rng = np.random.default_rng(job["seed"])
    i = job["i"]
    s = make_spec(rng, i)
    sc = Scenario(ctx.workdir / "a", s)
    m = sc.init_model(numba_threads=1)
    base = final(m)
    ctx.event("snow_run", np.nanmax(base["snow.swe"], initial=0) > 0)
    # again: the sky view factor is now read from the file
    compare(ctx, base, final(sc.init_model(numba_threads=1)), "repeat", "between two runs with the same inputs")
    ctx.event("repeat")
    for n in (2, 3, 8, None, "auto"):
        compare(ctx, base, final(sc.init_model(numba_threads=n)), "threads", f"with numba_threads = {n}")
        ctx.event("threads")
    # interleaved with a different model, both ways round
    s2 = make_spec(rng, i + 1)
    sc2 = Scenario(ctx.workdir / "b", s2)
    solo2 = final(sc2.init_model())
    a, b = sc.init_model(numba_threads=1), sc2.init_model()
    n = min(len(a.dates), len(b.dates))
    for q in range(n):
        a.run_single()
        b.run_single()
        if q == n // 2:
            c = sc2.init_model()  # a third model is created meanwhile
            c.run_single()
    final(a, len(a.dates) - n) if len(a.dates) > n else None
    final(b, len(b.dates) - n) if len(b.dates) > n else None
    compare(ctx, base, trace.snapshot(a), "interleaved", "when another model runs at the same time")
    compare(ctx, solo2, trace.snapshot(b), "interleaved", "when another model runs at the same time")
    ctx.event("interleaved")
    # pickling in the middle of the run
    k = len(m.dates) // 2
    m1 = sc.init_model(numba_threads=1)
    for _ in range(k):
        m1.run_single()
    m2 = pickle.loads(pickle.dumps(m1))
    mid = trace.snapshot(m1)
    final(m2, len(m2.dates) - k)
    compare(ctx, base, trace.snapshot(m2), "pickled", f"when the model is pickled and restored at step {k}")
    compare(ctx, mid, trace.snapshot(m1), "pickle-shared", "in the original model when its copy continues")
    final(m1, len(m1.dates) - k)
    compare(ctx, base, trace.snapshot(m1), "pickled-original", "when the model was pickled in between")
    ctx.event("pickled")
    # order of the stations
    ds = sc.dataset()
    p = rng.permutation(ds.sizes["station"])
    m3 = sc.model(numba_threads=1)
    m3.initialize(meteo=ds.isel(station=p))
    m4 = sc.init_model(numba_threads=1)
    for q in range(6):
        m3.run_single()
        m4.run_single()
        for v in ("temp", "precip", "rel_hum", "wind_speed", "cloud_factor", "sw_in"):
            ctx.check_close(m3.state.meteo[v], m4.state.meteo[v], "station-order", f"{v} depends on the order of the stations", rtol=1e-7, atol=1e-7)
    ctx.event("station_order")
    ctx.state("inproc", s["config"]["snow"]["model"], s["timestep"], i)


def run_process(job, ctx):
    rng = np.random.default_rng(job["seed"])
    i = job["i"]
    s = make_spec(rng, i)
    sc = Scenario(ctx.workdir / "a", s)
    base = final(sc.init_model())
    st, info = child(ctx, job, s, "p", env={"PYTHONHASHSEED": str(3 + i), "NUMBA_NUM_THREADS": ["1", "13", "3", "7"][i % 4], "TZ": ["America/New_York", "Asia/Tokyo"][i % 2], "LC_ALL": "C"})
    if st is None:
        return failed(ctx, "process", info)
    compare(ctx, base, st[info["n"] - 1], "process", "in another process (hash seed, threads, time zone of the system)")
    ctx.event("process")
    ctx.state("process", i, s["config"]["snow"]["model"])


def run_nojit(job, ctx):
    rng = np.random.default_rng(job["seed"])
    i = job["i"]
    s = make_spec(rng, i, steps=20)
    if i % 2:
        s["start"] = s["start"][:10] + " 09:00"  # daylight: terrain shadows
        import pandas as pd

        s["end"] = str(pd.Timestamp(s["start"]) + 19 * pd.Timedelta(("1" if not s["timestep"][0].isdigit() else "") + s["timestep"]))
    s["rows"], s["cols"] = 5, 6
    s["roi_frac"] = 0.9
    sc = Scenario(ctx.workdir / "a", s)
    n = min(12, len(sc.dates))
    base = final(sc.init_model(numba_threads=2), n)
    st, info = child(ctx, job, s, "n", env={"NUMBA_DISABLE_JIT": "1"}, max_steps=n)
    if st is None:
        return failed(ctx, "nojit", info)
    plain = st[info["n"] - 1]
    compare(ctx, plain, base, "jit", "between compiled and interpreted execution", rtol=1e-6, atol=1e-6)
    ctx.event("nojit")
    for mode in ("reverse", "shuffle"):
        st, info = child(ctx, job, s, mode, env={"NUMBA_DISABLE_JIT": "1"}, max_steps=n, pracer=mode, seed=job["seed"] % 1000, trace=mode == "shuffle")
        if st is None:
            return failed(ctx, "race", info)
        compare(ctx, plain, st[info["n"] - 1], "order", f"with the iterations of the parallel loops in {mode} order", rtol=1e-12, atol=1e-12)
        ctx.event("shuffled")
        if mode == "shuffle":
            for r in info["races"]:
                ctx.violation("race", r)
            ctx.ok(info["counts"]["accesses"])
            ctx.event("race_loops", info["counts"]["multi"])
            ctx.event("race_iterations", info["counts"]["iterations"])
            ctx.event("race_accesses", info["counts"]["accesses"])
            ctx.event("race_kernels", len(info["kernels"]))
            for kn in info["kernels"]:
                ctx.state("kernel", kn)


def run_boundscheck(job, ctx):
    rng = np.random.default_rng(job["seed"])
    i = job["i"]
    s = make_spec(rng, [0, 1, 2, 3, 4, 6][i % 6], steps=20)
    sc = Scenario(ctx.workdir / "a", s)
    base = final(sc.init_model(numba_threads=1))
    st, info = child(ctx, job, s, "b", env={"NUMBA_BOUNDSCHECK": "1"}, over={"numba_threads": 1})
    if st is None:
        return failed(ctx, "boundscheck", info)
    compare(ctx, base, st[info["n"] - 1], "boundscheck", "with array bounds checking enabled", rtol=1e-6, atol=1e-6)
    ctx.event("boundscheck")
    ctx.state("boundscheck", i)


def run_stress(job, ctx):
    """A large grid, where the parallel loops are really split."""
    rng = np.random.default_rng(job["seed"])
    i = job["i"]
    s = make_spec(rng, i, steps=20, large=True)
    sc = Scenario(ctx.workdir / "a", s)
    base = final(sc.init_model(numba_threads=1), 8)
    for rep in range(3):
        compare(ctx, base, final(sc.init_model(numba_threads=8), 8), "stress", "between 1 and 8 threads on a large grid")
    ctx.event("stress")
    ctx.state("stress", i, s["config"]["snow"]["model"])


def process_state():
    import numba
    import pandas as pd

    return {
        "environment": dict(os.environ), "working directory": os.getcwd(), "numpy error handling": np.geterr(), "numpy random state": repr(np.random.get_state()),
        "random state": hash(random.getstate()), "locale": locale.setlocale(locale.LC_ALL), "warning filters": list(warnings.filters), "numba threads": numba.get_num_threads(),
        "root logger": (logging.root.level, list(logging.root.handlers)), "print options": repr(np.get_printoptions()), "pandas options": (pd.get_option("mode.chained_assignment"), pd.get_option("display.precision")),
        "file mode mask": (lambda u: (os.umask(u), u)[1])(os.umask(0o022)), "recursion limit": sys.getrecursionlimit(),
    }


def tree(d):
    return {str(p.relative_to(d)): (p.stat().st_size, p.stat().st_mtime_ns) for p in Path(d).rglob("*") if p.is_file()}


def run_isolation(job, ctx):
    import openamundsen as oa

    rng = np.random.default_rng(job["seed"])
    i = job["i"]
    s = make_spec(rng, i, steps=20)
    fmt = ["netcdf", "csv", "memory", "netcdf"][i % 4]
    deep_update(s["config"], {"output_data": {"timeseries": {"format": fmt, "add_default_points": True, "add_default_variables": True},
                                              "grids": {"format": ["netcdf", "ascii", "memory", "geotiff"][i % 4], "variables": [{"var": "snow.swe", "freq": "D", "agg": "mean"}, {"var": "surface.temp"}]}}})
    warm = Scenario(ctx.workdir / "warm", s)
    warm.init_model().run()  # lazy imports and compilation happen here
    root = ctx.workdir / "iso"
    sc = Scenario(root, s)
    other = ctx.workdir / "elsewhere"
    other.mkdir()
    os.chdir(other)
    if i % 2:
        sc.write_csv()
    ds = sc.dataset()
    keep = ds.copy(deep=True)
    frames = {k: v.copy() for k, v in sc.forcing.items()}
    cfg = copy.deepcopy(sc.config)
    if i % 2:
        deep_update(cfg, {"input_data": {"meteo": {"format": "csv", "crs": "epsg:32632", "bounds": "global"}}})
    cfg_keep = copy.deepcopy(cfg)
    before_tree = tree(ctx.workdir)
    opened = []
    active = [True]

    def hook(ev, args):
        if active[0] and ev == "open" and args and isinstance(args[0], (str, bytes)):
            mode, flags = args[1], args[2]
            if (isinstance(mode, str) and any(c in mode for c in "wax+")) or (mode is None and isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR)):
                opened.append(os.fsdecode(args[0]))

    before = process_state()
    sys.addaudithook(hook)
    m = oa.OpenAmundsen(cfg)
    m.initialize() if i % 2 else m.initialize(meteo=ds)
    m.run()
    active[0] = False
    after = process_state()
    for k in before:
        ctx.check(before[k] == after[k], "process:" + k, f"a model run changes the {k} of the process")
    ctx.event("isolated")
    ctx.check(cfg == cfg_keep, "config", "a model run changes the passed configuration")
    ctx.check(ds.identical(keep), "forcing", "a model run changes the passed forcing dataset")
    for k in frames:
        ctx.check(frames[k].equals(sc.forcing[k]), "forcing-frame", "a model run changes the data frames of the forcing")
    # files
    allowed = [str(sc.results_dir.resolve()), str(sc.grid_dir.resolve())]
    after_tree = tree(ctx.workdir)
    for f, st in after_tree.items():
        p = str((ctx.workdir / f).resolve())
        if before_tree.get(f) == st:
            ctx.ok()
            continue
        new = f not in before_tree
        ok = p.startswith(allowed[0] + "/") or (new and p.startswith(allowed[1] + "/") and "svf" in Path(p).name)
        ctx.check(ok, "files", f"the run {'creates' if new else 'modifies'} {f}")
    for f in before_tree:
        ctx.check(f in after_tree or f.startswith("iso/results/"), "files-removed", f"the run removes {f}")
    for f in opened:
        p = os.path.realpath(f)
        cache = os.path.realpath(os.environ.get("NUMBA_CACHE_DIR", "/nonexistent"))
        ok = p.startswith(allowed[0]) or p.startswith(allowed[1]) or p.startswith(cache) or p.startswith("/dev/") or "__pycache__" in p
        ctx.check(ok, "opened", f"the run opens {p} for writing")
    ctx.event("files")
    # logging: one default handler whatever the number of models, none if the host configured logging or disabled it
    lg = logging.getLogger("openamundsen")
    saved = (list(lg.handlers), lg.level, lg.propagate)
    try:
        def strm():
            return [h for h in lg.handlers if not isinstance(h, logging.NullHandler)]

        for h in strm():
            lg.removeHandler(h)
        for q in range(3):
            mm = sc.model(log_level="CRITICAL", enable_default_logging=True)
            mm.initialize(meteo=ds)
            mm.run_single()
            ctx.check(len(strm()) == 1, "log-handlers", f"{len(strm())} log handlers after {q + 1} models")
            ctx.check(lg.level == logging.CRITICAL, "log-level", f"log level {lg.level}")
        for h in strm():
            lg.removeHandler(h)
        mm = sc.model(enable_default_logging=False)
        mm.initialize(meteo=ds)
        mm.run_single()
        ctx.check(len(strm()) == 0, "log-disabled", "default log handler added although disabled")
        recs = []

        class H(logging.Handler):
            def emit(self, r):
                recs.append(r)

        h = H()
        lg.addHandler(h)
        lg.setLevel(logging.INFO)
        mm = sc.model(log_level="ERROR", enable_default_logging=True)
        mm.initialize(meteo=ds)
        n0 = len(recs)
        mm.run_single()
        ctx.check(strm() == [h], "log-host", "handlers of the host application changed")
        ctx.check(lg.level == logging.INFO, "log-host-level", "log level of the host application changed")
        ctx.check(n0 > 0 and sum("time step" in r.getMessage().lower() for r in recs[n0:]) == 1, "log-records", "log records do not reach the handler of the host application exactly once")
        lg.removeHandler(h)
        ctx.event("logging")
    finally:
        lg.handlers[:] = saved[0]
        lg.setLevel(saved[1])
        lg.propagate = saved[2]
    ctx.state("isolation", i, fmt)


def _content(p):
    """Values of an output file in a comparable form."""
    if p.suffix == ".nc":
        import xarray as xr

        with xr.open_dataset(p) as ds:
            ds.load()
        return {v: np.asarray(ds[v].values) for v in ds.variables}
    if p.suffix in (".tif", ".tiff"):
        import rasterio

        with rasterio.open(p) as f:
            return {"band": f.read()}
    return {"bytes": np.frombuffer(p.read_bytes(), np.uint8)}


def run_cli(job, ctx):
    """The command line entry point: a YAML file instead of a dictionary, another process; the output files must be those of the API run."""
    import pandas as pd

    import openamundsen as oa

    rng = np.random.default_rng(job["seed"])
    i = job["i"]
    s = make_spec(rng, i, steps=20)
    gfmt, tfmt = [("netcdf", "csv"), ("geotiff", "netcdf"), ("ascii", "csv")][i % 3]
    deep_update(s["config"], {"output_data": {"timeseries": {"format": tfmt, "add_default_points": True, "add_default_variables": True},
                                              "grids": {"format": gfmt, "variables": [{"var": "snow.swe", "freq": "D", "agg": "mean"}, {"var": "surface.temp"}]}}})
    root = ctx.workdir / "cli"
    sc = Scenario(root, s)
    sc.write_csv()
    cfg = copy.deepcopy(sc.config)
    deep_update(cfg, {"input_data": {"meteo": {"format": "csv", "crs": "epsg:32632", "bounds": "global"}}})
    m = oa.OpenAmundsen(copy.deepcopy(cfg))
    m.initialize()
    m.run()
    want = {str(p.relative_to(sc.results_dir)): _content(p) for p in sorted(Path(sc.results_dir).rglob("*")) if p.is_file()}
    ctx.check(len(want) > 0, "cli-api", "the API run writes no files")
    # relative paths and YAML dates for every second scenario
    out = root / "results_cli"
    rel = i % 2 == 0
    cfg["results_dir"] = "results_cli" if rel else str(out)
    if rel:
        cfg["input_data"]["grids"]["dir"] = "grids"
        cfg["input_data"]["meteo"]["dir"] = "./meteo"

    def yml(v, ind=0):
        pad = "  " * ind
        if isinstance(v, dict):
            return "".join(f"{pad}{json.dumps(k) if not isinstance(k, str) else k}:" + ("\n" + yml(x, ind + 1) if isinstance(x, dict) and x else f" {yml(x)}\n") for k, x in v.items())
        return "{}" if v == {} else json.dumps(v)

    text = yml(cfg)
    if rel:  # native YAML dates instead of strings
        for k in ("start_date", "end_date"):
            text = text.replace(f"{k}: {json.dumps(cfg[k])}", f"{k}: {pd.Timestamp(cfg[k]):%Y-%m-%d %H:%M:%S}")
    cf = root / "my config.yml"
    cf.write_text("# configuration\n" + text)

    def cli(args):
        return subprocess.run([sys.executable, "-c", "import sys, openamundsen.cli; sys.argv[0] = 'openamundsen'; sys.exit(openamundsen.cli.main())", *args],
                              cwd=root if rel else ctx.workdir, capture_output=True, text=True, stdin=subprocess.DEVNULL)

    r = cli(["my config.yml"] if rel else [str(cf)])
    if r.returncode in (-9,):
        raise RuntimeError("child process was killed")
    if not ctx.check(r.returncode == 0, "cli-failed", f"the command line run fails: {r.stderr[-400:]}"):
        return
    got = {str(p.relative_to(out)): p for p in sorted(out.rglob("*")) if p.is_file()} if out.is_dir() else {}
    ctx.check(set(got) == set(want), "cli-files", f"files of the command line run {sorted(got)[:8]} differ from the ones of the API run {sorted(want)[:8]}")
    for f in sorted(set(got) & set(want)):
        a, b = want[f], _content(got[f])
        ctx.check(set(a) == set(b), "cli-vars", f"{f}: different content")
        for v in set(a) & set(b):
            ctx.event("cli_values", a[v].size)
            ok = a[v].shape == b[v].shape and np.array_equal(a[v], b[v], equal_nan=a[v].dtype.kind == "f")
            ctx.check(ok, "cli-values", f"{f}: {v} of the command line run differs from the API run")
    ctx.event("cli")
    ctx.state("cli", i, gfmt, tfmt, rel)
    # failures are reported by the exit status
    n = len(list(root.rglob("*")))
    (root / "bad1.yml").write_text(text.replace("resolution:", "resolutoin:"))
    (root / "bad2.yml").write_text(text.replace(f"domain: {json.dumps(cfg['domain'])}", 'domain: "other"'))
    for args in ([str(root / "none.yml")], [str(root / "bad1.yml")], [str(root / "bad2.yml")], []):
        r = cli(args)
        ctx.check(r.returncode != 0, "cli-status", f"the command line run with {[Path(a).name for a in args]} reports success")
        ctx.event("cli_rejected")
    ctx.check(len(list(root.rglob("*"))) == n + 2, "cli-leftover", "a rejected command line run leaves files behind")


def run(job, ctx):
    globals()["run_" + job["kind"]](job, ctx)
