#!/usr/bin/env python3
"""Writes the table of the planted bugs and the number of repairs into DESIGN.md.
caught.json (beside this file) is written by tools/catch.py."""
import json, os, re, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
p = os.path.join(here, "tools", "caught.json")
if os.path.exists(p):
    caught = json.load(open(p))
rows = ["| property | planted bug | needs | caught by its quick check |", "|---|---|---|---|"]
ms = []
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    ms.append((m["property"], d, m["needs"]))
for prop, d, needs in sorted(ms):
    rows.append("| %s | %s | %s | %s |" % (prop, d, needs.replace("|", "\\|"), caught.get(d, "yes")))
n = subprocess.run("git -C /repo log --oneline | grep -c ' fix:'", shell=True, capture_output=True, text=True).stdout.strip()
f = os.path.join(here, "DESIGN.md")
s = open(f).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
s = re.sub(r"\(\d+ `fix:` commits", "(%s `fix:` commits" % n, s)
open(f, "w").write(s)
