"""Writes MANIFEST.json from the property list and the checks that exist."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
NOTES = {}
exec(open(os.path.join(ROOT, "tools", "notes.py")).read(), NOTES)

props = [json.loads(line) for line in open(os.path.join(ROOT, "properties.jsonl"))]
checks, absent = [], []
for p in props:
    pid = p["id"]
    path = os.path.join(ROOT, "checks", f"{pid}.py")
    if not os.path.exists(path):
        absent.append({"property": pid, "reason": "not claimed yet: its check is still being written"})
        continue
    checks.append({
        "property": pid,
        "quick_cmd": f"{PY} run.py {pid}",
        "thorough_cmd": f"VERIF_TIER=thorough {PY} run.py {pid}",
        "evidence_file": f"evidence/{pid}.json",
        "technique": NOTES["TECHNIQUE"].get(pid, "property-based testing (Hypothesis, sharded, shrinking)") ,
        "level": "exploration",
        "level_note": NOTES["LEVEL"].get(pid, NOTES["DEFAULT"]),
    })
out = {
    "version": 1,
    "setup_cmd": f"{PY} run.py --setup",
    "checks": checks,
    "not_applicable": absent,
    "notes": "The checks import pointpats from /repo's working tree (pure Python, nothing to build) and need no hooks in it. "
             "run.py ID --replay FILE repeats a recorded failure; VERIF_SEED seeds every random choice.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(out, fh, indent=1)
    fh.write("\n")
print(len(checks), "claimed", len(absent), "not claimed")
