"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (the check named is the one that catches it; see tools/plant_check.sh)."""
import glob
import json
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | needs |", "|---|---|---|"]
for p in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    m = json.load(open(p))
    rows.append(f"| {os.path.basename(os.path.dirname(p))} | {m['property']} | {m['needs'].strip().rstrip('.')} |")
d = os.path.join(H, "DESIGN.md")
s = open(d).read()
a, b = "<!-- seeded table -->", "<!-- end -->"
s = s[:s.index(a) + len(a)] + "\n\n" + "\n".join(rows) + "\n\n" + s[s.index(b):]
open(d, "w").write(s)
