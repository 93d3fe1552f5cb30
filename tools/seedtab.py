#!/usr/bin/env python3
"""the table of planted changes for DESIGN.md (section 6)"""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    d = json.load(open(f))
    rows.append("| %s | %s | %s |" % (f.split("/")[-2], d["property"], d["needs"]))
t = "| change | caught by | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n"
s = open(R + "/DESIGN.md").read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->\n"
i, j = s.index(a) + len(a), s.index(b)
open(R + "/DESIGN.md", "w").write(s[:i] + t + s[j:])
