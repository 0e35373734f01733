#!/usr/bin/env python3
"""Development helper: rewrite the table of planted bugs in DESIGN.md (between the SEEDS markers)."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | needs | check that catches it |", "|---|---|---|---|"]
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s quick |" % (f.split("/")[-2], m["property"], m["needs"].replace("|", "/"), m["property"]))
t = open(R + "/DESIGN.md").read()
t = re.sub(r"(<!-- SEEDS -->\n).*?(<!-- /SEEDS -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), t, flags=re.S)
open(R + "/DESIGN.md", "w").write(t)
