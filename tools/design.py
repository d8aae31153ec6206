"""Writes DESIGN.md from docs/head.md, the properties, the checks' docstrings and sub-checks, docs/tail.md and seeded/."""
import ast
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
read = lambda *p: open(os.path.join(ROOT, *p)).read()  # noqa: E731
out = [read("docs", "head.md"), "## The properties, and how each is decided\n"]
props = [json.loads(line) for line in open(os.path.join(ROOT, "properties.jsonl"))]
extra = json.load(open(os.path.join(ROOT, "docs", "cost.json"))) if os.path.exists(os.path.join(ROOT, "docs", "cost.json")) else {}
for p in props:
    src = read("checks", p["id"] + ".py")
    tree = ast.parse(src)
    subs = re.findall(r'^@check\(\s*"([^"]+)".*?quick=(\d+)', src, re.M | re.S)
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(f"*Over:* {p['quantifier']['text']}. *Why tests cannot settle it:* {p['why_tests_cant']}.\n")
    out.append(" ".join(ast.get_docstring(tree).split()) + "\n")
    line = "*Sub-checks (quick cases):* " + ", ".join(f"{n} ({k})" for n, k in subs) + "."
    if p["id"] in extra:
        line += f" *Cost:* about {extra[p['id']]} s quick on 8 cores."
    out.append(line + "\n")
out.append(read("docs", "tail.md"))
out.append("## Planted changes (`seeded/`), and which checks catch them\n")
out.append("| id | property | change | caught by |\n|---|---|---|---|")
caught = json.load(open(os.path.join(ROOT, "docs", "caught.json"))) if os.path.exists(os.path.join(ROOT, "docs", "caught.json")) else {}
sd = os.path.join(ROOT, "seeded")
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    out.append(f"| {d} | {m['property']} | {m['what_it_breaks'].replace('|', '/')} | {caught.get(d, '')} |")
text = "\n".join(out) + "\n"
open(os.path.join(ROOT, "DESIGN.md"), "w").write(text)
print(len(text.splitlines()), "lines")
