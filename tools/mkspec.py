#!/usr/bin/env python3
"""One-off: freezes the documented parameter tree (types, bounds, defaults) into
ref/spec.json.  The checks read only the frozen copy.  Run with /opt/venv python."""
import json, yaml, sys
t = yaml.safe_load(open(sys.argv[1]))
out = []
def walk(keys, n):
    if "type" in n:
        d = {k: v for k, v in n.items() if k != "descr"}
        out.append({**d, "path": keys})
    else:
        for k, v in n.items():
            walk(keys + [k], v)
def strip(x):
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if k != "descr"}
    return x
for k, v in t.items():
    walk([k], v)
json.dump(strip(out) if isinstance(out, dict) else [strip(o) for o in out], open("ref/spec.json", "w"), indent=0)
print(len(out))
