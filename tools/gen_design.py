#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md: repaired defects (known_findings.json)
and planted bugs (seeded/*/meta.json, tools/seeded_results.json)."""
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(HERE + "/DESIGN.md").read()
rows = ["| property | commit | what failed |", "|---|---|---|"]
for k in json.load(open(HERE + "/known_findings.json")):
    rows.append(f"| {k['property']} | {k['commit']} | {k['what']} |")
res = json.load(open(HERE + "/tools/seeded_results.json"))
out = ["| planted bug | what it breaks | caught by (quick) | not by | strengthened |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open(f"{HERE}/seeded/{i}/meta.json"))
    r = res.get(i, {})
    yes = [p for p, c in sorted(r.get("checks", {}).items()) if c == 1]
    no = [p for p, c in sorted(r.get("checks", {}).items()) if c == 0]
    out.append(f"| {i} | {m['what_it_breaks']} | {' '.join(yes) or '-'} | {' '.join(no) or '-'} | {r.get('note', '')} |")
# counts of generated cases in the table of checks
sys.path.insert(0, HERE)
from pbt import core, env  # noqa: E402,F401
for i in range(1, 33):
    prop = f"C{i:02d}"
    subs = importlib.import_module(f"pbt.checks.c{i:02d}").SUBS
    q, t = [sum(core.planned(prop, s, tier) for s in subs) for tier in ("quick", "thorough")]
    d = re.sub(rf"(\| {prop} \| [^|]*?), [\d+ a-z]* / \d+ \|", lambda m: f"{m.group(1)}, {q} / {t} |", d)
for name, t in (("fixed", rows), ("seeded", out)):
    d = re.sub(f"<!-- {name} -->.*<!-- /{name} -->", lambda _: f"<!-- {name} -->\n" + "\n".join(t) + f"\n<!-- /{name} -->", d, flags=re.S)
open(HERE + "/DESIGN.md", "w").write(d)
