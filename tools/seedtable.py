#!/opt/venv/bin/python
"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {' '.join(m['needs'].split())[:110].replace('|', '/')} | {m['property']} |")
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
a = s.index("<!-- seeds -->") if "<!-- seeds -->" in s else s.index("SEEDTABLE")
b = s.index("<!-- end -->") + 12 if "<!-- end -->" in s else a + 9
open(p, "w").write(s[:a] + "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- end -->" + s[b:])
