#!/usr/bin/env python3
"""Rewrites section 5 (planted bugs) of DESIGN.md from seeded/*/meta.json (run by hand; not part of any check)."""
import json, glob, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["## 5. Planted bugs (seeded/) and what catches them", "",
"Each was written from a property's text and the code, compiles, passes the 887 tests, and has a demonstration. The quick",
"check named catches it (exit 1, its own VIOLATION line). Where a check missed one at first, what was added is noted.", "",
"| planted bug | caught by | needs |", "|---|---|---|"]
late = json.load(open(os.path.join(H, "tools", "late.json")))
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    d = json.load(open(f)); i = f.split("/")[-2]
    n = d["needs"].replace("|", "\\|")
    rows.append(f"| {i} | {d['property']}{' (missed at first: ' + late[i] + ')' if i in late else ''} | {n} |")
s = open(H + "/DESIGN.md").read()
t = "\n".join(rows) + "\n\n"
if "SEEDTABLE\n" in s: s = s.replace("SEEDTABLE\n\n", t)
else: s = re.sub(r"## 5\. Planted.*?(?=## 6\.|## 7\.)", lambda m: t, s, flags=re.S)
open(H + "/DESIGN.md", "w").write(s)
