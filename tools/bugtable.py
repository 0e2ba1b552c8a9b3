#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json
(bug -> checks known to catch it, kept by hand after running the checks against each change)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(here + "/tools/caught.json"))
rows = []
for b in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(f"{here}/seeded/{b}/meta.json"))
    c = caught.get(b, [])
    rows.append(f"| {b} | {m['what_it_breaks']} | {m['needs']} | {', '.join(c) or 'none'} |")
t = "## 7. Table of planted bugs\n\n| bug | what it breaks | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
p = here + "/DESIGN.md"
s = open(p).read()
i = s.find("## 7. Table of planted bugs")
s = (s[:i] if i >= 0 else s.rstrip() + "\n\n") + t
open(p, "w").write(s)
