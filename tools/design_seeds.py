#!/usr/bin/env python3
# rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/first_missed.json
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
first = json.load(open(os.path.join(here, "tools/first_missed.json")))
t = "| change | property | what it needs | caught by |\n|---|---|---|---|\n"
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    t += "| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"].replace("|", "\\|"), m["property"] + (" (after strengthening: " + first[d] + ")" if d in first else ""))
p = os.path.join(here, "DESIGN.md"); s = open(p).read()
a, b = s.index("<!-- seeds -->") + 15, s.index("<!-- /seeds -->")
open(p, "w").write(s[:a] + t + s[b:])
