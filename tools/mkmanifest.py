#!/opt/venv/bin/python
"""Writes /verif/MANIFEST.json from the registry."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from mon import registry
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in registry.CHECKS:
        c = registry.NOTES[p] if p in registry.NOTES else registry.NOTES["engine"]
        checks.append(dict(property=p, quick_cmd=f"/opt/venv/bin/python check.py {p}", thorough_cmd=f"VERIF_TIER=thorough /opt/venv/bin/python check.py {p}",
                           evidence_file=f"evidence/{p}.json", technique=c[0], level=registry.LEVEL.get(p, "exploration"), level_note=c[1]))
    else:
        na.append(dict(property=p, reason="check not built yet"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import pyomo, numpy, scipy'", checks=checks, not_applicable=na,
         notes="All checks run the code of /repo in process, with a stand-in solver executable on PATH; no hooks in /repo are needed. Repaired defects and known findings: KNOWN_FINDINGS.txt.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
