#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/catches.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(root, "tools", "catches.json")))
text = open(os.path.join(root, "DESIGN.md")).read()
head = text[:text.index("## 7. Planted bugs")]
rows = []
for i in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", i, "meta.json")))
    c = caught.get(i)
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"),
                                         "not run" if c is None else "caught" if c[1] else "MISSED"))
open(os.path.join(root, "DESIGN.md"), "w").write(
    head + "## 7. Planted bugs\n\nEach is in `seeded/<id>` (patch, demonstration, description). \"Caught\": the quick check of its\n"
    "property exits 1 with its VIOLATION line. The check that catches a bug is the one of its property.\n\n"
    "| bug | property | needs | quick check |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
