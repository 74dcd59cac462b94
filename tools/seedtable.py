#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md (between the seed markers) from seeded/*/meta.json."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in glob.glob(V + "/seeded/*/meta.json"):
    m = json.load(open(p)); rows.append((m["property"], os.path.basename(os.path.dirname(p)), m["needs"], m["what_it_breaks"]))
t = "| caught by | planted bug | what it breaks | needs |\n|---|---|---|---|\n" + "".join(f"| {p} | `{i}` | {b} | {n} |\n" for p, i, n, b in sorted(rows))
d = open(V + "/DESIGN.md").read()
d = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: f"<!-- seeds -->\n{t}<!-- /seeds -->", d, flags=re.S)
open(V + "/DESIGN.md", "w").write(d)
