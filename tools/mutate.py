"""Mutation campaign: python3 tools/mutate.py OUT.jsonl [--files a.py,b.py] [--sample N] [--seed S] [--list]

Makes one small change at a time to the code under test (operators, constants, keyword arguments, conditions,
statements, names), keeps those the existing tests do not notice, and runs the checks of the functions concerned
against them.  A development aid: survivors are read by hand."""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor, as_completed

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

CHECKS = {
    "centrography.py": [("minimum_bounding_circle|_circle|_skyum|_angle|_prec|_succ|_euclidean|not_clockwise|_not_", "B02 X02 B05"),
                        ("ellipse", "B04 B05"), ("hull|mbr|minimum_|minimum_rotated|skyum", "B01 B02 B05"), ("^_$|^_\\b|\\._$", "B01 B02 B03 B04 B05"), ("", "B03 B05 X01")],
    "distance_statistics.py": [("_test|_simul|_ripley_test", "F05 F06"), ("_prepare|_build|_k_neigh|_range", "F01 F02 F04 F05 F03 X01"),
                               ("^j", "F03 F05 F04"), ("^[kl]", "F02 F05 F04"), ("", "F01 F03 F04 F05 F06 F02")],
    "geometry.py": [("", "C01 C03 C02 B01 D01 X02 X01")],
    "kde.py": [("", "H01 X01")],
    "pointpattern.py": [("", "A01 A02 A03 A04 E01 B01 X01")],
    "process.py": [("", "D07 F05 E03 X01")],
    "quadrat_statistics.py": [("Hex", "E02 E03 E04"), ("Rect", "E01 E03 E04"), ("", "E03 E04 E01 E02 X01")],
    "random.py": [("normal", "D01 D03 D04 D02 D05"), ("strauss", "D06 D01 D02 D03"), ("", "D01 D03 D05 D02 D04 D06")],
    "spacetime.py": [("SpaceTimeEvents", "G07 G05"), ("^mantel|^jacquez|^modified|^knox$", "G05 X01"), ("KnoxLocal|_local", "G03 G04 G06 G02"),
                     ("Knox|_knox", "G01 G02 G03 G06"), ("", "G01 G02 G03 G04 G05 G06")],
    "util.py": [("", "C02 A01 D07")],
    "window.py": [("", "C02 C01 D07 A01")],
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not",
       ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
FLIP = {ast.Lt: ">=", ast.LtE: ">", ast.Gt: "<=", ast.GtE: "<"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "/", ast.Mod: "*",
       ast.BitAnd: "|", ast.BitOr: "&"}
SYM = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not",
       ast.In: "in", ast.NotIn: "not in", ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.FloorDiv: "//",
       ast.Mod: "%", ast.BitAnd: "&", ast.BitOr: "|", ast.And: "and", ast.Or: "or"}
FUNCS = {"min": "max", "max": "min", "floor": "ceil", "ceil": "floor", "argmin": "argmax", "argmax": "argmin", "any": "all",
         "all": "any", "sum": "mean", "mean": "median", "minimum": "maximum", "maximum": "minimum", "hstack": "vstack",
         "contains": "covers", "intersects": "contains", "cos": "sin", "sin": "cos", "arctan2": "arctan", "logical_and": "logical_or",
         "logical_or": "logical_and", "nanmax": "max", "round": "floor", "triu": "tril", "row_stack": "vstack", "within": "disjoint"}
DROP = {"copy", "sqrt", "abs", "sorted", "unique", "flatten", "squeeze", "ravel", "astype", "set", "reset_index", "asarray", "int", "float"}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()))
    raw = src.encode()

    def at(node):
        return offs[node.lineno - 1] + node.col_offset, offs[node.end_lineno - 1] + node.end_col_offset

    def text(node):
        a, b = at(node)
        return raw[a:b].decode()

    out = []

    def add(fn, node, new, kind):
        a, b = at(node)
        if raw[a:b].decode() != new:
            out.append({"fn": fn, "line": node.lineno, "a": a, "b": b, "new": new, "kind": kind, "old": raw[a:b].decode()})

    def between(fn, left, right, old, new, kind):
        a, b = at(left)[1], at(right)[0]
        seg = raw[a:b].decode()
        if seg.count(old) >= 1:
            m = seg.replace(old, new, 1)
            out.append({"fn": fn, "line": left.end_lineno, "a": a, "b": b, "new": m, "kind": kind,
                        "old": text(left)[-30:] + seg + text(right)[:30]})

    def visit(node, fn, names, in_raise):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            fn = (fn + "." if fn else "") + node.name
            if "plot" in node.name or "explore" in node.name or "animate" in node.name:
                pass
            if isinstance(node, ast.FunctionDef):
                names = sorted({n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} |
                               {a.arg for a in node.args.args + node.args.kwonlyargs})
                for d in [*node.args.defaults, *node.args.kw_defaults]:
                    if d is not None:
                        visit(d, fn, names, in_raise)
            body = node.body
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                body = body[1:]
            for ch in body:
                visit(ch, fn, names, in_raise)
            return
        if isinstance(node, (ast.Raise, ast.Import, ast.ImportFrom, ast.JoinedStr)):
            return
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call) and re.search(r"warn", text(node.value)[:20]):
            return
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            o = type(node.ops[0])
            between(fn, node.left, node.comparators[0], SYM[o], CMP[o], "cmp")
            if o in FLIP:
                between(fn, node.left, node.comparators[0], SYM[o], FLIP[o], "flip")
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
            between(fn, node.left, node.right, SYM[type(node.op)], BIN[type(node.op)], "bin")
            if isinstance(node.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
                add(fn, node, text(node.left), "left only")
        elif isinstance(node, ast.AugAssign) and type(node.op) in BIN:
            between(fn, node.target, node.value, SYM[type(node.op)] + "=", BIN[type(node.op)] + "=", "aug")
        elif isinstance(node, ast.BoolOp):
            o = type(node.op)
            between(fn, node.values[0], node.values[1], SYM[o], "or" if o is ast.And else "and", "bool")
            add(fn, node, text(node.values[0]), "first only")
            add(fn, node, text(node.values[-1]), "last only")
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub, ast.Invert)):
            add(fn, node, "(" + text(node.operand) + ")", "unary")
        elif isinstance(node, ast.Constant):
            v = node.value
            if isinstance(v, bool):
                add(fn, node, str(not v), "const")
            elif isinstance(v, int):
                add(fn, node, str(v + 1), "const")
                add(fn, node, str(v - 1) if v > 0 else "(-1)", "const")
            elif isinstance(v, float):
                add(fn, node, repr(v * 1.05 if v else 0.1), "const")
        elif isinstance(node, ast.Call):
            for k in node.keywords:
                if k.arg:
                    a, b = at(k)
                    c = b
                    while c < len(raw) and raw[c:c + 1] in b" \n\t,":
                        c += 1
                        if raw[c - 1:c] == b",":
                            break
                    out.append({"fn": fn, "line": k.value.lineno, "a": a, "b": c if raw[c - 1:c] == b"," else b, "new": "", "kind": "drop kw",
                                "old": text(k)})
            name = node.func.attr if isinstance(node.func, ast.Attribute) else getattr(node.func, "id", None)
            if name in FUNCS:
                a, b = at(node.func)
                out.append({"fn": fn, "line": node.func.end_lineno, "a": b - len(name), "b": b, "new": FUNCS[name], "kind": "func", "old": name})
            if name in DROP:
                if isinstance(node.func, ast.Attribute) and not (isinstance(node.func.value, ast.Name) and node.func.value.id in ("np", "numpy", "math", "pd")):
                    add(fn, node, text(node.func.value), "drop call")
                elif node.args:
                    add(fn, node, "(" + text(node.args[0]) + ")", "drop call")
            if len(node.args) == 2 and not any(isinstance(x, ast.Starred) for x in node.args):
                x, y = node.args
                a, b = at(x)[0], at(y)[1]
                out.append({"fn": fn, "line": x.lineno, "a": a, "b": b, "new": text(y) + raw[at(x)[1]:at(y)[0]].decode() + text(x),
                            "kind": "swap args", "old": raw[a:b].decode()})
        elif isinstance(node, (ast.If, ast.IfExp)):
            add(fn, node.test, "True", "cond")
            add(fn, node.test, "False", "cond")
        elif isinstance(node, ast.Slice):
            if node.lower is not None and node.upper is None and node.step is None:
                add(fn, node.lower, "", "slice")
            if node.upper is not None and node.lower is None and node.step is None:
                add(fn, node.upper, "", "slice")
        elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            add(fn, node, "pass", "drop stmt")
        elif isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load) and node.id in names:
            near = [n for n in names if n != node.id and len(n) > 1 and (n[:4] == node.id[:4] or n[-4:] == node.id[-4:])]
            if len(node.id) == 1:
                near = [n for n in names if n != node.id and len(n) == 1]
            for n in near[:2]:
                add(fn, node, n, "name")
        elif isinstance(node, ast.Break):
            add(fn, node, "continue", "break")
        elif isinstance(node, ast.Continue):
            add(fn, node, "break", "continue")
        for ch in ast.iter_child_nodes(node):
            visit(ch, fn, names, in_raise)

    visit(tree, "", [], False)
    uniq = {}
    for m in out:
        uniq[(m["a"], m["b"], m["new"])] = m
    res = []
    for m in uniq.values():
        new = raw[:m["a"]] + m["new"].encode() + raw[m["b"]:]
        try:
            compile(new, path, "exec")
        except (SyntaxError, ValueError):
            continue
        m["file"] = os.path.basename(path)
        res.append(m)
    return res


ENV = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1", "VERIF_SEED": "1"}
ENV.pop("PYTHONPATH", None)
base_times = {}


def run(cmd, cwd, timeout, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, env={**ENV, **(env or {})}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return "timeout", ""


def trial(m, slot):
    work = f"/tmp/w/mut/{slot}"
    if not os.path.isdir(work):
        os.makedirs("/tmp/w/mut", exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", work], check=True)
    p = f"{work}/pointpats/{m['file']}"
    orig = open(f"/repo/pointpats/{m['file']}", "rb").read()
    open(p, "wb").write(orig[:m["a"]] + m["new"].encode() + orig[m["b"]:])
    try:
        t0 = time.time()
        rc, o = run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=120", *first(m["file"]), "pointpats"], work, 300)
        m["tests"] = "survive" if rc == 0 else "killed"
        m["test_s"] = round(time.time() - t0, 1)
        if rc != 0:
            return m
        for pat, ids in CHECKS[m["file"]]:
            if re.search(pat, m["fn"]):
                break
        m["checks"] = {}
        for c in ids.split():
            rc, o = run([PY, "run.py", c], ROOT, 900, {"PP_REPO": work, "PP_JOBS": "2", "PP_FAST": "1", "PP_OUT": f"/tmp/w/mut/{slot}-out"})
            m["checks"][c] = rc
            if rc == 1:
                m["caught"] = c
                m["why"] = next((ln for ln in o.splitlines() if not ln.startswith(("KNOWN", "VIOL"))), "")[:200]
                break
            if rc != 0:
                m["err"] = o[-300:]
        return m
    finally:
        open(p, "wb").write(orig)




def first(file):
    base = os.path.basename(file)[:-3]
    p = f"pointpats/tests/test_{base}.py"
    return [p] if os.path.exists("/repo/" + p) else []



def main():
    args = sys.argv[1:]
    out = args[0]
    opt = {a: args[i + 1] for i, a in enumerate(args) if a.startswith("--") and i + 1 < len(args)}
    files = opt.get("--files", ",".join(CHECKS)).split(",")
    allm = [m for f in files for m in mutants(f"/repo/pointpats/{f}")]
    rng = random.Random(int(opt.get("--seed", 1)))
    rng.shuffle(allm)
    if "--list" in args:
        from collections import Counter
        print(len(allm), Counter(m["file"] for m in allm), Counter(m["kind"] for m in allm))
        return
    done = set()
    if os.path.exists(out):
        for ln in open(out):
            d = json.loads(ln)
            done.add((d["file"], d["a"], d["b"], d["new"]))
    n = int(opt.get("--sample", len(allm)))
    todo = [m for m in allm[:n] if (m["file"], m["a"], m["b"], m["new"]) not in done]
    import queue

    slots = queue.Queue()
    w = int(opt.get("--workers", 6))
    for i in range(w):
        slots.put(i)

    def go(m):
        s = slots.get()
        try:
            return trial(m, s)
        finally:
            slots.put(s)

    with ThreadPoolExecutor(w) as ex, open(out, "a") as fh:
        for f in as_completed([ex.submit(go, m) for m in todo]):
            m = f.result()
            fh.write(json.dumps(m) + "\n")
            fh.flush()


if __name__ == "__main__":
    main()
