#!/usr/bin/env python3
"""DESIGN.md from DESIGN.tmpl.md, the seed table and the refactoring table."""
import glob, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(os.path.join(here, "DESIGN.tmpl.md")).read()
rows = []
for f in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
    d = json.load(open(f))
    rows.append("| %s | %s | %s |" % (f.split("/")[-2], d["property"], d["what_it_breaks"].replace("|", "\\|")))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(here, "tools"))
import refactab
n = len(refactab.REFAC)
t = t.replace("@@SEEDS@@", "\n".join(rows)).replace("@@NREF@@", str(n)).replace("@@NEW@@\n", "")
open(os.path.join(here, "DESIGN.md"), "w").write(t)
