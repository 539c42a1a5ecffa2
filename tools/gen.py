#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
root = os.path.dirname(here)
P = []
for m in ("props_vm", "props_asm", "props_lcc"):
    if os.path.exists(os.path.join(here, m + ".py")):
        P += __import__(m).P
NA = []
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p["d"]) + "\n")
checks = []
for p in P:
    i = p["d"]["id"]
    checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=p["technique"], level=p["level"], level_note=p["note"]))
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=NA,
                   notes="Checks rebuild what they need from /repo's working tree (VERIF_REPO overrides the path). No hooks in /repo."), f, indent=1)
    f.write("\n")

# the table of planted bugs in DESIGN.md
rows = ["| bug | property | what it breaks | needs |", "|---|---|---|---|"]
for d in ("seeded", "planted"):
    for n in sorted(os.listdir(os.path.join(root, d))) if os.path.isdir(os.path.join(root, d)) else []:
        m = os.path.join(root, d, n, "meta.json")
        if os.path.exists(m):
            m = json.load(open(m))
            cell = lambda t: t.replace("|", "\\|")
            rows.append("| %s | %s | %s | %s |" % (n, m["property"], cell(m["what_it_breaks"]), cell(m["needs"])))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
a, b = s.index("<!-- seeds -->"), s.index("<!-- /seeds -->")
open(p, "w").write(s[:a] + "<!-- seeds -->\n" + "\n".join(rows) + "\n" + s[b:])
