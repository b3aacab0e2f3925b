"""Generate /verif/seeded/<id>/ from the seed definitions in seeds/*.py and verify them.

usage: plant.py gen [ID...]            write patch.diff, demo.sh, demo.py, mini.py, meta.json
       plant.py verify [--nocheck] [ID...]   clean demo = 0; patched: tests pass, demo != 0, the property's check reports
Each seeds/<id>.py is the demo; its module-level literals SEED = dict(property, needs, what_it_breaks, edits=[(file, old, new)]).
"""
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

HERE = Path(__file__).resolve().parent
VERIF = HERE.parents[1]
OUT = VERIF / "seeded"
REPO = Path("/repo")
DEMO_SH = """#!/bin/bash
# cwd is the repository; everything is written into a scratch directory
D="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
export PYTHONPATH="$PWD:$D" NUMBA_CACHE_DIR="$W/numba" PYTHONDONTWRITEBYTECODE=1 SETUPTOOLS_SCM_PRETEND_VERSION=1.0.0
cd "$W" && timeout 280 /opt/venv/bin/python "$D/demo.py" "$W"
"""


def seeds(ids):
    fs = sorted((HERE / "seeds").glob("*.py"))
    return [f for f in fs if not ids or f.stem in ids]


def meta(f):
    for n in ast.parse(f.read_text()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id == "SEED":
            return {k.arg: ast.literal_eval(k.value) for k in n.value.keywords}
    raise SystemExit(f"no SEED in {f}")


def gen(f):
    m = meta(f)
    tmp = Path(tempfile.mkdtemp())
    try:
        wt = tmp / "r"
        subprocess.check_call(["git", "clone", "-q", "--shared", str(REPO), str(wt)])
        for file, old, new in m["edits"]:
            p = wt / file
            t = p.read_text()
            if t.count(old) != 1:
                raise SystemExit(f"{f.stem}: {t.count(old)} matches in {file} for {old[:60]!r}")
            p.write_text(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", str(wt), "diff"], text=True)
        # changed lines must be lines of the original repository
        d = OUT / f.stem
        d.mkdir(parents=True, exist_ok=True)
        (d / "patch.diff").write_text(diff)
        src = f.read_text().splitlines(keepends=True)
        node = next(n for n in ast.parse("".join(src)).body if isinstance(n, ast.Assign) and n.targets[0].id == "SEED")
        (d / "demo.py").write_text("".join(src[: node.lineno - 1] + src[node.end_lineno :]).lstrip())
        (d / "demo.sh").write_text(DEMO_SH)
        os.chmod(d / "demo.sh", 0o755)
        shutil.copy(VERIF / "vp" / "scenario.py", d / "mini.py")
        (d / "meta.json").write_text(json.dumps({k: m[k] for k in ("property", "needs", "what_it_breaks")}, indent=1) + "\n")
    finally:
        shutil.rmtree(tmp)


def demo(d, repo):
    r = subprocess.run(["bash", str(d / "demo.sh")], cwd=repo, capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def verify(f, check=True):
    """Everything happens in a scratch clone of /repo."""
    d = OUT / f.stem
    m = json.loads((d / "meta.json").read_text())
    tmp = Path(tempfile.mkdtemp(prefix="plant"))
    try:
        repo = tmp / "repo"
        subprocess.check_call(["git", "clone", "-q", "--shared", str(REPO), str(repo)])
        rc, out = demo(d, repo)
        res = {"id": f.stem, "property": m["property"], "clean_demo": rc}
        if rc:
            print(out)
        subprocess.check_call(["git", "-C", str(repo), "apply", str(d / "patch.diff")])
        rc, out = demo(d, repo)
        res["patched_demo"] = rc
        res["demo_says"] = out.strip().splitlines()[-1:] if out else ""
        sh = Path("/opt/vp/test.sh").read_text().replace("cd /repo", f"cd {repo}\nexport PYTHONPATH={repo}")
        (tmp / "test.sh").write_text(sh)
        subprocess.run(["bash", str(tmp / "test.sh"), str(tmp / "r.json")], capture_output=True)
        passed = set(json.load(open(tmp / "r.json"))["passed"])
        res["tests_lost"] = len(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - passed)
        if check and rc:
            env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", VP_REPO=str(repo), VP_FAILFAST="1")
            r = subprocess.run(["bash", str(VERIF / "check.sh"), m["property"], "quick"], capture_output=True, text=True, env=env)
            res["check_rc"] = r.returncode
            res["check_says"] = [x.strip()[:160] for x in r.stdout.splitlines() if x.strip().startswith("[")][:2]
    finally:
        shutil.rmtree(tmp)
    res["ok"] = res["clean_demo"] == 0 and res["patched_demo"] != 0 and res["tests_lost"] == 0
    res["caught"] = res.get("check_rc") == 1
    print(json.dumps(res), flush=True)
    return res


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    chk = "--nocheck" not in args
    ids = [a for a in args if not a.startswith("--")]
    rs = []
    for f in seeds(ids):
        if cmd == "gen":
            gen(f)
        else:
            rs.append(verify(f, chk))
    if cmd == "verify":
        print(len(rs), "seeds;", sum(r["ok"] for r in rs), "valid;", sum(r["caught"] for r in rs), "caught")
