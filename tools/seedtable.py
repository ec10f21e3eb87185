#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import glob, json, os, re
rows = ["| id | property | needs |", "|---|---|---|"]
for f in sorted(glob.glob("/verif/seeded/*/meta.json"), key=lambda f: (json.load(open(f))["property"], f)):
    d = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {d['property']} | {d['needs'].strip()} |")
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
p = "/verif/DESIGN.md"
s = open(p).read()
s = s.replace("SEEDTABLE", "<!-- seeds -->\n<!-- /seeds -->") if "SEEDTABLE" in s else s
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
