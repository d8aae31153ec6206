"""Try planted changes: python3 tools/plant.py SPEC.py [id ...] [--save] [--all-checks]

A spec file defines BUGS, a list of dicts id, property, file, edits [(old, new), ...], needs, breaks, demo (Python source
that must fail with the change), checks (ids besides the property's own to try)."""
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = "06bfc3e"
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO_SH = '''#!/bin/bash
# run from the repository's root, after the build
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
exec /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd, env=None, timeout=900):
    e = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1", **(env or {})}
    e.pop("PYTHONPATH", None)
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout, shell=isinstance(cmd, str))


def original(work, diff):
    """Every removed line comes from the original commit."""
    for path, body in re.findall(r"^--- a/(\S+)\n(.*?)(?=^diff |\Z)", diff, re.M | re.S):
        blame = sh(["git", "blame", "-s", "HEAD", "--", path], work).stdout.splitlines()
        for start, _, lines in re.findall(r"^@@ -(\d+)(?:,\d+)? \+\d+(?:,\d+)? @@.*\n((.*\n)*?)(?=^@@|\Z)", body, re.M) and [
            (int(m.group(1)), 0, m.group(2)) for m in re.finditer(r"^@@ -(\d+)(?:,\d+)? \+\S+ @@.*\n((?:[ +\-\\].*\n?|\n)*)", body, re.M)
        ]:
            n = start
            for ln in lines.splitlines():
                if ln.startswith("-"):
                    if not blame[n - 1].lstrip("^").startswith(BASE[:6]):
                        return f"line {n} of {path} is not original: {ln}"
                    n += 1
                elif ln.startswith("+") or ln.startswith("\\"):
                    pass
                else:
                    n += 1
    return None


def trial(b, save, seeds):
    work = f"/tmp/w/pl/{b['id']}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs("/tmp/w/pl", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", work], check=True)
    msgs = [f"{b['id']} ({b['property']})"]
    try:
        for old, new in b["edits"]:
            f = b["file"]
            if isinstance(old, tuple):
                f, old = old
            p = os.path.join(work, "pointpats", f)
            s = open(p).read()
            if s.count(old) != 1:
                return [*msgs, f"  EDIT occurs {s.count(old)} times: {old[:80]!r}"], None
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], work).stdout
        o = original(work, diff)
        if o:
            return [*msgs, "  NOT ORIGINAL " + o], None
        d = f"/tmp/w/pl/{b['id']}-demo"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.py", "w").write(b["demo"].strip() + "\n")
        open(d + "/demo.sh", "w").write(DEMO_SH)
        r = sh(["bash", d + "/demo.sh"], "/repo")
        if r.returncode:
            return [*msgs, "  DEMO FAILS ON THE UNCHANGED TREE " + (r.stdout + r.stderr)[-600:]], None
        r = sh(["bash", d + "/demo.sh"], work)
        if r.returncode == 0:
            return [*msgs, "  DEMO PASSES WITH THE CHANGE"], None
        msgs.append("  demo: " + (r.stdout + r.stderr).strip().splitlines()[-1][:150])
        x = f"/tmp/w/pl/{b['id']}.xml"
        sh(f"{PY} -m pytest -q -p no:cacheprovider --timeout=300 -o junit_family=xunit2 --junitxml={x} .", work)
        import xml.etree.ElementTree as ET

        passed = {f"{t.get('classname')}::{t.get('name')}" for t in ET.parse(x).iter("testcase") if not list(t)}
        lost = sorted(stable - passed)
        if lost:
            return [*msgs, f"  TESTS FAIL: {len(lost)} {lost[:3]}"], None
        caught = []
        for c in [b["property"], *b.get("checks", ())]:
            hits = []
            for seed in seeds:
                r = sh([PY, "run.py", c], ROOT, {"PP_REPO": work, "VERIF_SEED": seed, "PP_JOBS": b.get("jobs", "4"), "PP_OUT": f"/tmp/w/pl/{b['id']}-out"})
                v = [ln for ln in r.stdout.splitlines() if not ln.startswith(("KNOWN", "VIOL"))]
                hits.append(r.returncode == 1 and f"VIOLATION property={c} " in r.stdout)
                if seed == seeds[0] or not hits[-1]:
                    msgs.append(f"  {c} seed {seed}: {'CAUGHT' if hits[-1] else 'MISSED rc=%d' % r.returncode} {v[0][:170] if v else r.stderr[-300:]}")
            if all(hits):
                caught.append(c)
        if save:
            t = os.path.join(ROOT, "seeded", b["id"])
            shutil.rmtree(t, ignore_errors=True)
            shutil.copytree(d, t)
            open(t + "/patch.diff", "w").write(diff)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(t + "/meta.json", "w"), indent=1)
        return msgs, caught
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(work + "-demo", ignore_errors=True)


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    args = [a for a in sys.argv[2:] if not a.startswith("--")]
    bugs = [b for b in spec["BUGS"] if not args or b["id"] in args]
    seeds = ["1"] if "--one" in sys.argv else ["1", "2"]
    cfile = os.path.join(ROOT, "docs", "caught.json")
    with ThreadPoolExecutor(2) as ex:
        for b, (msgs, caught) in zip(bugs, ex.map(lambda b: trial(b, "--save" in sys.argv, seeds), bugs)):
            print("\n".join(msgs), flush=True)
            if caught is not None and "--save" in sys.argv:
                d = json.load(open(cfile)) if os.path.exists(cfile) else {}
                d[b["id"]] = ", ".join(caught) or "none"
                json.dump(d, open(cfile, "w"), indent=1, sort_keys=True)


main()
