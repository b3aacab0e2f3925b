"""Single source of properties.jsonl and MANIFEST.json: `python tools/meta.py` rewrites both."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
P = []
TECH = {}


def prop(id, title, statement, over, text, why, files, mechanism, tech, observe=(), state=(), hook=None, note=""):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": hook}})
    TECH[id] = (tech, note)


M = "openamundsen/"
exec((Path(__file__).with_name("props.py")).read_text())

if __name__ == "__main__":
    have = {p.stem.upper() for p in (V / "vp/props").glob("*.py")}
    P.sort(key=lambda p: p["id"])
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
    (V / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in P))
    man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
           "notes": "All checks: vp/props/<id>.py driven by vp/runner.py; no hooks in /repo are needed."}
    for p in P:
        i = p["id"]
        if i in have:
            man["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i} quick",
                                  "thorough_cmd": f"bash check.sh {i} thorough", "technique": TECH[i][0],
                                  "level": "exploration",
                                  "level_note": TECH[i][1] or "Sampled executions of the real code judged by a deterministic oracle; no enumeration or proof."})
        else:
            man["not_applicable"].append({"property": i, "reason": "check not built yet"})
    (V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
    print(len(P), "properties,", len(man["checks"]), "checks")
