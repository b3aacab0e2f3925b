"""Reverts each fix commit of /repo in a scratch copy and runs the check of its property: the defect has to be reported again.

usage: revert_fixes.py [-j PROCS] [COMMIT...]
"""
import argparse, json, os, shutil, subprocess, tempfile
from pathlib import Path

HERE = Path(__file__).resolve().parent
ap = argparse.ArgumentParser()
ap.add_argument("-j", default="8")
ap.add_argument("--dry", action="store_true")
ap.add_argument("commits", nargs="*")
a = ap.parse_args()
for line in json.loads((HERE.parent / "known_findings.json").read_text())["fixed"]:
    _, prop, commit, what = line.split(" ", 3)
    prop = prop.split("=")[1]
    if a.commits and commit not in a.commits:
        continue
    tmp = Path(tempfile.mkdtemp(prefix="rev"))
    try:
        subprocess.run(["git", "clone", "-q", "--shared", "/repo", str(tmp / "r")], check=True)
        r = subprocess.run(["git", "-C", str(tmp / "r"), "-c", "user.name=x", "-c", "user.email=x@x", "revert", "-n", commit], capture_output=True, text=True)
        if r.returncode:
            print(commit, prop, "CONFLICT", flush=True)
            continue
        if a.dry:
            continue
        env = dict(os.environ, VP_REPO=str(tmp / "r"), VP_PROCS=a.j, VP_FAILFAST="1")
        r = subprocess.run(["bash", str(HERE.parent / "check.sh"), prop, "quick"], capture_output=True, text=True, env=env)
        lines = [x.strip() for x in r.stdout.splitlines() if x.strip().startswith("[")]
        print(commit, prop, "caught" if r.returncode == 1 else f"MISSED rc={r.returncode}", what, "|", lines[0][:110] if lines else r.stdout[-150:].strip(), flush=True)
    finally:
        shutil.rmtree(tmp)
