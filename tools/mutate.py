"""Mutation campaign: apply each mutant of mutants/*.py to a scratch copy of /repo, run the checks it is aimed at, report which are caught.

usage: mutate.py [-j PROCS] [-p PROP] [-s SEED] [--all] [ID...]     (results are appended to /tmp/mutate.log)
mutants/<group>.py: M = [(id, "PROP[,PROP]", file relative to openamundsen/, old, new), ...] (or a list of edits instead of file, old, new)
"""
import argparse
import ast
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

HERE = Path(__file__).resolve().parent


def load(banks=()):
    out = []
    for f in sorted((HERE / "mutants").glob("*.py")):
        if banks and f.stem not in banks:
            continue
        ns = {}
        exec(compile(f.read_text(), str(f), "exec"), ns)
        for m in ns["M"]:
            edits = m[2] if isinstance(m[2], list) else [tuple(m[2:5])]
            out.append((m[0], m[1].split(","), edits))
    ids = [m[0] for m in out]
    assert len(ids) == len(set(ids)), [i for i in ids if ids.count(i) > 1]
    return out


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("-j", default="8")
    ap.add_argument("-p", default="")
    ap.add_argument("-s", default="1")
    ap.add_argument("--dry", action="store_true")
    ap.add_argument("--resume", action="store_true", help="skip what /tmp/mutate.log already has")
    ap.add_argument("-b", default="", help="banks")
    ap.add_argument("ids", nargs="*")
    a = ap.parse_args()
    log = Path("/tmp/mutate.log")
    done = {tuple(x.split()[:2]) for x in log.read_text().splitlines()} if a.resume and log.exists() else set()
    tmp = Path(tempfile.mkdtemp(prefix="mut"))
    caught = missed = 0
    try:
        for mid, props, edits in load([b for b in a.b.split(",") if b]):
            if a.ids and not any(mid == i or (i.endswith("*") and mid.startswith(i[:-1])) for i in a.ids):
                continue
            if a.p and not set(a.p.split(",")) & set(props):
                continue
            shutil.rmtree(tmp / "openamundsen", ignore_errors=True)
            shutil.copytree("/repo/openamundsen", tmp / "openamundsen", ignore=shutil.ignore_patterns("__pycache__"))
            bad = False
            for file, old, new in edits:
                p = tmp / "openamundsen" / file
                t = p.read_text()
                if t.count(old) != 1:
                    print(f"{mid}: BAD MUTANT {t.count(old)} matches in {file} for {old[:70]!r}", flush=True)
                    bad = True
                    continue
                p.write_text(t.replace(old, new))
                ast.parse(p.read_text()) if file.endswith(".py") else None
            if bad or a.dry:
                continue
            for pr in props:
                if (mid, pr) in done:
                    continue
                env = dict(os.environ, VP_REPO=str(tmp), VP_PROCS=a.j, VERIF_SEED=a.s, VP_FAILFAST="1")
                r = subprocess.run(["bash", str(HERE.parent / "check.sh"), pr, "quick"], capture_output=True, text=True, env=env)
                ok = r.returncode == 1
                caught += ok
                missed += not ok
                lines = [x.strip() for x in r.stdout.splitlines() if x.strip().startswith("[")]
                msg = f"{mid} {pr} {'caught' if ok else 'MISSED rc=%d' % r.returncode} {' | '.join(x[:110] for x in lines[:2]) if ok else r.stdout[-200:].strip()}"
                print(msg, flush=True)
                with open("/tmp/mutate.log", "a") as fh:
                    fh.write(msg + "\n")
    finally:
        shutil.rmtree(tmp)
    print(caught, "caught,", missed, "missed")
