#!/usr/bin/env python3
"""Joins DESIGN.in.md with the table of planted bugs (seeded/*/meta.json) and
the list of repairs (known_findings.txt) into DESIGN.md."""
import glob
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
txt = open(os.path.join(V, "tools", "DESIGN.in.md")).read()
rows = ["| change | property | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (
        os.path.basename(os.path.dirname(f)), m["property"],
        m["what_it_breaks"], m["needs"]))
fix = {}
for ln in open(os.path.join(V, "known_findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", ln)
    if m:
        fix.setdefault(m.group(1), []).append("  - %s (`%s`)" % (
            m.group(3).strip(), m.group(2)))
out = []
for p in sorted(fix):
    out.append("* %s\n%s" % (p, "\n".join(fix[p])))
txt = txt.replace("@SEEDED@", "\n".join(rows)).replace(
    "@FIXES@", "\n".join(out))
open(os.path.join(V, "DESIGN.md"), "w").write(txt)
