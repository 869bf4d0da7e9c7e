#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + per-property section (sa/explain.py) + tools/design_tail.md + seeded bugs"""
import json, os, sys, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import registry
from sa.explain import EXPLAIN
t = registry.table()
out = [open(os.path.join(HERE, "tools/design_head.md")).read(), "\n## 2. Properties: what is decided and how\n\n"]
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)
    if p["id"] in t:
        out.append("* **%s %s** (%s). %s\n" % (p["id"], p["title"], t[p["id"]][1], EXPLAIN[p["id"]]))
out.append(open(os.path.join(HERE, "tools/design_tail.md")).read())
out.append("\n## 7. Planted bugs (seeded/)\n\nEach compiles, passes the existing tests and has a demonstration; all of them are caught by the check of their property.\n\n| id | caught by | needs |\n|---|---|---|\n")
for f in sorted(glob.glob(os.path.join(HERE, "seeded/*/meta.json"))):
    m = json.load(open(f))
    out.append("| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "/")))
tail = os.path.join(HERE, "tools/design_campaigns.md")
if os.path.exists(tail):
    out.append(open(tail).read())
open(os.path.join(HERE, "DESIGN.md"), "w").write("".join(out))
