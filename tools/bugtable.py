"""writes the table of planted bugs into DESIGN.md (run by hand)"""
import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST = json.load(open(os.path.join(VERIF, "tools", "missed.json")))
rows = ["| bug | property, caught by | manifests with | first |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(VERIF, "seeded"))):
    m = json.load(open(os.path.join(VERIF, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['needs'].replace('|', '/')} | {FIRST.get(d, 'yes')} |")
p = os.path.join(VERIF, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(?s)(@@TABLE@@|<!-- table -->.*<!-- end -->)", lambda m: "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->", s)
open(p, "w").write(s)
