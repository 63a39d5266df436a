"""Puts the table of planted bugs into DESIGN.md (from seeded/*/meta.json and tools/caught.txt: `id: checks`)."""
import glob
import json
import os
import re

top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for l in open(top + "/tools/caught.txt"):
    if ":" in l:
        a, b = l.split(":", 1)
        caught[a.strip()] = b.strip()
rows = ["| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for p in sorted(glob.glob(top + "/seeded/*/meta.json")):
    d, n = json.load(open(p)), p.split("/")[-2]
    rows.append("| %s | %s | %s | %s | %s |" % (n, d["property"], d["what_it_breaks"], d["needs"], caught.get(n, "not run yet")))
p = top + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda m: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", s, flags=re.S)
open(p, "w").write(s)
