"""Check driver: `python -m vp.runner <PROPERTY> <quick|thorough>`.

Distributes the property's jobs over worker processes, each of which imports the code of /repo
(working tree) with a throw-away numba cache, merges what the monitors observed, writes the evidence
file and decides the exit status.
"""
import collections
import importlib
import json
import os
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = os.environ.get("VP_REPO", "/repo")
CPU_LIMIT = 400  # CPU seconds per job; normal jobs need a few seconds
PY = sys.executable


class Ctx:
    """Collects what a monitor sees while one job runs."""

    def __init__(self, workdir):
        self.workdir = Path(workdir)
        self.events = collections.Counter()
        self.states = set()
        self.violations = []
        self.evals = 0

    def event(self, name, n=1):
        if n:
            self.events[name] += int(n)

    def state(self, *key):
        if len(self.states) < 4000:
            self.states.add(repr(key))

    def ok(self, n=1):
        self.evals += int(n)

    def violation(self, key, msg, **detail):
        if len(self.violations) < 40:
            self.violations.append({"key": key, "msg": msg, "detail": _js(detail)})

    def check(self, cond, key, msg, **detail):
        self.evals += 1
        if not cond:
            self.violation(key, msg, **detail)
        return bool(cond)

    def check_close(self, got, want, key, msg, rtol=1e-9, atol=1e-9, mask=None, nan_equal=True, **detail):
        """Elementwise comparison; NaN must match NaN when nan_equal."""
        import numpy as np

        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape:
            got, want = np.broadcast_arrays(got, want) if got.ndim == want.ndim or want.ndim == 0 or got.ndim == 0 else (got, want)
            if got.shape != want.shape:
                self.violation(key, f"{msg}: shape {got.shape} != {want.shape}", **detail)
                return False
        if mask is None:
            mask = np.ones(got.shape, bool)
        g, w = got[mask], want[mask]
        self.evals += int(g.size)
        with np.errstate(invalid="ignore"):
            bad = ~(np.abs(g - w) <= atol + rtol * np.abs(w))
        both_nan = np.isnan(g) & np.isnan(w)
        same_inf = np.isinf(g) & (g == w)
        bad &= ~same_inf
        if nan_equal:
            bad &= ~both_nan
        else:
            bad &= ~np.isnan(w)
        if bad.any():
            i = int(np.flatnonzero(bad)[0])
            idx = [int(v[i]) for v in np.where(mask)] if mask.ndim else []
            self.violation(key, f"{msg}: {int(bad.sum())}/{g.size} differ, first at {idx}: got {g[i]!r}, expected {w[i]!r}", **detail)
            return False
        return True


def _js(o):
    try:
        import numpy as np

        if isinstance(o, dict):
            return {str(k): _js(v) for k, v in o.items()}
        if isinstance(o, (list, tuple)):
            return [_js(v) for v in o]
        if isinstance(o, np.ndarray):
            return o.tolist() if o.size <= 50 else f"<array {o.shape}>"
        if isinstance(o, np.generic):
            return o.item()
        if isinstance(o, (str, int, float, bool)) or o is None:
            return o
        return str(o)
    except Exception:
        return "<unprintable>"


def _in_repo(tb):
    """Is the innermost python frame of the exception inside (or below) the code under test?"""
    frames = traceback.extract_tb(tb)
    last = None
    for i, f in enumerate(frames):
        if "/openamundsen/" in f.filename:
            last = i
    harness = max((i for i, f in enumerate(frames) if "/vp/" in f.filename), default=-1)
    return last is not None and last > harness


def start_coverage():
    """Development aid (VP_COV=<directory>): the lines of the code under test that the workloads execute."""
    lines, mon = set(), sys.monitoring
    mon.use_tool_id(mon.COVERAGE_ID, "vp")

    def line(code, no):
        if "/openamundsen/" in code.co_filename:
            lines.add((code.co_filename.split("/openamundsen/")[-1], no))
        return mon.DISABLE

    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    return lines


def worker_main():
    import logging
    import warnings

    warnings.simplefilter("ignore")
    cov = start_coverage() if os.environ.get("VP_COV") else None
    real_out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)  # anything the model prints goes to stderr
    mod = importlib.import_module(f"vp.props.{sys.argv[2].lower()}")
    import numpy as np

    np.seterr(all="ignore")
    logging.getLogger("openamundsen").setLevel(logging.CRITICAL)
    scratch = tempfile.mkdtemp(prefix="w", dir=os.environ["VP_SCRATCH"])
    n = 0
    for line in sys.stdin:
        job = json.loads(line)
        n += 1
        wd = Path(scratch) / f"j{n}"
        wd.mkdir()
        ctx = Ctx(wd)
        cpu = sum(resource.getrusage(resource.RUSAGE_SELF)[:2])
        lim = int(cpu + float(job.get("cpu_limit", CPU_LIMIT)))
        resource.setrlimit(resource.RLIMIT_CPU, (lim, resource.RLIM_INFINITY))
        err = None
        t0 = time.time()
        cwd = os.getcwd()
        try:
            os.chdir(wd)
            mod.run(job, ctx)
        except Exception as e:  # noqa: BLE001
            if _in_repo(e.__traceback__):
                fr = [f for f in traceback.extract_tb(e.__traceback__) if "/openamundsen/" in f.filename][-1]
                where = f"{Path(fr.filename).name}:{fr.name}"
                ctx.violation(f"exception:{type(e).__name__}:{where}",
                              f"unexpected {type(e).__name__} in {where}: {str(e)[:300]}",
                              trace=traceback.format_exc()[-1500:])
            else:
                err = traceback.format_exc()
        finally:
            os.chdir(cwd)
            shutil.rmtree(wd, ignore_errors=True)
        if cov is not None:
            with open(os.path.join(os.environ["VP_COV"], f"{sys.argv[2]}.{os.getpid()}"), "w") as f:
                f.writelines(f"{a}:{b}\n" for a, b in sorted(cov))
        out = {"events": dict(ctx.events), "states": sorted(ctx.states), "violations": ctx.violations,
               "evals": ctx.evals, "error": err, "wall": time.time() - t0}
        real_out.write(json.dumps(out) + "\n")
        real_out.flush()


def child_env(scratch, extra=None):
    env = dict(os.environ)
    env.update(
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", NUMBA_CACHE_DIR=str(Path(scratch) / "numba"),
        VP_SCRATCH=str(scratch), PYTHONPATH=os.pathsep.join([REPO, str(VERIF)]),
        SETUPTOOLS_SCM_PRETEND_VERSION="1.0.0", TMPDIR=str(scratch), OMP_NUM_THREADS="4",
        OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMBA_NUM_THREADS_UNSET="1",
    )
    for k in ("NUMBA_NUM_THREADS", "NUMBA_DISABLE_JIT", "NUMBA_BOUNDSCHECK", "OMP_NUM_THREADS"):
        env.pop(k, None)
    env.pop("NUMBA_NUM_THREADS_UNSET", None)
    env.update(extra or {})
    return env


FAILFAST = bool(os.environ.get("VP_FAILFAST"))  # mutation campaigns only: stop after the first violating job


class Pool:
    def __init__(self, prop, jobs, nproc, scratch):
        self.prop, self.jobs, self.scratch = prop, list(enumerate(jobs)), scratch
        self.results = {}
        self.lock = threading.Lock()
        self.nproc = min(nproc, max(1, len(jobs)))

    def spawn(self, env_extra):
        return subprocess.Popen([PY, "-m", "vp.runner", "--worker", self.prop], stdin=subprocess.PIPE,
                                stdout=subprocess.PIPE, stderr=subprocess.PIPE if False else subprocess.DEVNULL,
                                text=True, cwd=self.scratch, env=child_env(self.scratch, env_extra))

    def loop(self):
        proc, penv = None, None
        while True:
            with self.lock:
                if not self.jobs or (FAILFAST and any(r["violations"] for r in self.results.values())):
                    break
                idx, job = self.jobs.pop(0)
            jenv = job.get("env", {})
            if proc is not None and penv != jenv:
                proc.stdin.close()
                proc.wait()
                proc = None
            if proc is None:
                proc, penv = self.spawn(jenv), jenv
            try:
                proc.stdin.write(json.dumps(job) + "\n")
                proc.stdin.flush()
                line = proc.stdout.readline()
            except BrokenPipeError:
                line = ""
            if not line:
                rc = proc.wait()
                proc = None
                what = "used more CPU time than any terminating run needs" if rc == -24 else f"process ended with status {rc}"
                res = {"events": {}, "states": [], "evals": 0, "error": None, "wall": 0,
                       "violations": [{"key": f"died:{rc}", "msg": f"the run did not finish: {what}", "detail": {}}]}
                if rc == -9 or rc == 1:  # killed from outside (memory) or import failure: no verdict
                    res["violations"], res["error"] = [], f"worker ended with status {rc}"
            else:
                res = json.loads(line)
            with self.lock:
                self.results[idx] = res
        if proc is not None:
            proc.stdin.close()
            proc.wait()

    def run(self):
        ths = [threading.Thread(target=self.loop) for _ in range(self.nproc)]
        [t.start() for t in ths]
        [t.join() for t in ths]
        return self.results


def known_findings(prop):
    p = VERIF / "known_findings.json"
    if not p.exists():
        return []
    return [f for f in json.loads(p.read_text())["findings"] if f["property"] == prop]


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = importlib.import_module(f"vp.props.{prop.lower()}")
    only = None
    if len(sys.argv) > 4 and sys.argv[3] == "--replay":
        rep = json.loads(Path(sys.argv[4]).read_text())
        only, seed = [rep["job"]], rep["seed"]
    scratch = Path(tempfile.mkdtemp(prefix=f"vp-{prop}-"))
    try:
        jobs = only or mod.jobs(tier, seed)
        nproc = int(os.environ.get("VP_PROCS", "8"))
        results = Pool(prop, jobs, nproc, scratch).run()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    events, states, evals, errors = collections.Counter(), set(), 0, []
    viols = []
    for i in sorted(results):
        r = results[i]
        events.update(r["events"])
        states.update(r["states"])
        evals += r["evals"]
        if r["error"]:
            errors.append((i, r["error"]))
        viols += [(i, v) for v in r["violations"]]

    starved = [] if only else [
        f"{k}: saw {events.get(k, 0)}, needs {n}" for k, n in getattr(mod, "REQUIRED", {}).items() if events.get(k, 0) < n
    ]
    known = known_findings(prop)
    new, hit = [], {}
    for i, v in viols:
        k = next((f for f in known if f["key"] == v["key"]), None)
        if k:
            hit[k["key"]] = k
        else:
            new.append((i, v))

    evdir = VERIF / "evidence"
    evdir.mkdir(exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": int(evals), "distinct_nontrivial": len(states),
            "rule": mod.RULE,
            "samples": [f"{k}={v}" for k, v in sorted(events.items())][:60] + sorted(states)[:8],
        },
        "jobs": len(jobs), "events": dict(sorted(events.items())),
        "violations": len(new), "violation_list": [dict(job=i, **v) for i, v in new[:20]],
        "known_findings": sorted(hit), "starved": starved, "errors": [e[1][-600:] for e in errors[:5]],
        "wall_s": round(time.time() - t0, 2),
    }
    if not only:
        (evdir / f"{prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
    for k in sorted(hit):
        print(f"KNOWN-FINDING: property={prop} {hit[k]['what']}")
    print(f"{prop} {tier} seed={seed}: jobs={len(jobs)} evaluations={evals} distinct={len(states)} "
          f"violations={len(new)} errors={len(errors)} wall={time.time() - t0:.1f}s")
    if os.environ.get("VP_VERBOSE"):
        for k, v in sorted(events.items()):
            print("   ", k, v)
        w = sorted(((results[i]["wall"], i) for i in results), reverse=True)[:5]
        print("    slowest jobs", [(round(a, 1), b) for a, b in w])
    if new:
        seen = collections.Counter(v["key"] for _, v in new)
        for key, n in seen.most_common(6):
            i, v = next((i, v) for i, v in new if v["key"] == key)
            print(f"  [{n}x] {key}: {v['msg']}"[:600])
        i, v = new[0]
        rp = evdir / f"replay-{prop}.json"
        rp.write_text(json.dumps({"property": prop, "seed": seed, "job": jobs[i], "violation": v,
                                  "replay_cmd": f"bash /verif/check.sh {prop} quick --replay {rp}"}, indent=1) + "\n")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if errors:
        print(f"INCONCLUSIVE: {len(errors)} jobs failed in the harness")
        print(errors[0][1])
        return 3
    if starved:
        print("INCONCLUSIVE: monitors not reached: " + "; ".join(starved))
        return 3
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "--worker":
        worker_main()
    else:
        sys.exit(main())
