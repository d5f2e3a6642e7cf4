#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
rows = ["| planted bug | property, whose check reports it | needs | breaks |", "|---|---|---|---|"]
miss = json.load(open(os.path.join(here, "missed.json"))) if os.path.exists(os.path.join(here, "missed.json")) else {}
for n in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", n, "meta.json")))
    p = m["property"] + (" – not reported: " + miss[n] if n in miss else "")
    rows.append(f"| {n} | {p} | {m['needs']} | {m['what_it_breaks']} |")
f = os.path.join(here, "DESIGN.md")
t = open(f).read()
t = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", t, flags=re.S)
open(f, "w").write(t)
print(len(rows) - 2, "seeds")
