"""Writes /verif/seeded/<id>/ from the PLANTS lists of tools/plants*.py and tries the planted bugs.
  plant.py make [ids]    confirm each in a scratch copy (demo passes without, tests pass and demo fails with it) and write it
  plant.py try [ids]     run the property's check against each one (scratch copy, MON_REPO), report which are caught
"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"


def plants():
    out = []
    for f in sorted(glob.glob(HERE + "/plants*.py")):
        s = importlib.util.spec_from_file_location("p", f)
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        out += m.PLANTS
    assert len({p["id"] for p in out}) == len(out)
    return out


def sh(cmd, cwd, env=None, timeout=900):
    r = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env={**os.environ, "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", **(env or {})})
    return r.returncode, r.stdout + r.stderr


def copy():
    d = tempfile.mkdtemp(prefix="plant_", dir="/tmp") + "/repo"
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    return d


def make(p):
    d = copy()
    try:
        s = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
        with open(s + "/demo.py", "w") as f:
            f.write("from lib import *\n" + p["demo"].strip("\n") + "\n")
        shutil.copy(HERE + "/demolib.py", s + "/lib.py")
        with open(s + "/demo.sh", "w") as f:
            f.write('#!/bin/bash\nexport OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(s + "/demo.sh", 0o755)
        rc, out = sh(f"bash {s}/demo.sh", d, timeout=300)
        if rc:
            return p["id"], "demo fails without the change: " + out[-1500:]
        for f, old, new in p["edits"]:
            t = open(f"{d}/{f}").read()
            if t.count(old) < 1:
                return p["id"], f"text not found in {f}: {old[:80]}"
            if t.count(old) > 1 and not p.get("all"):
                return p["id"], f"text found {t.count(old)} times in {f}: {old[:80]}"
            open(f"{d}/{f}", "w").write(t.replace(old, new))
        rc, diff = sh("git diff 2>/dev/null", d)
        rc, out = sh(f"bash {s}/demo.sh", d, timeout=300)
        if rc == 0:
            return p["id"], "demo passes with the change"
        if "BROKEN" not in out:
            return p["id"], "demo does not fail by itself: " + out[-1500:]
        rc, o2 = sh(f"{PY} -m pytest -q -x -p no:cacheprovider tests/unittests 2>&1 | tail -5", d)
        base = json.load(open("/opt/vp/BASELINE.json"))
        if "failed" in o2 or "error" in o2.lower() or "passed" not in o2:
            return p["id"], "tests fail: " + o2[-600:]
        with open(s + "/patch.diff", "w") as f:
            f.write(diff)
        with open(s + "/meta.json", "w") as f:
            json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, f, indent=1)
        t = f"{V}/seeded/{p['id']}"
        shutil.rmtree(t, ignore_errors=True)
        os.makedirs(V + "/seeded", exist_ok=True)
        shutil.copytree(s, t)
        os.chmod(t, 0o755)
        shutil.rmtree(s)
        return p["id"], "written; " + out.strip()[-160:]
    except Exception as e:
        return p["id"], f"{type(e).__name__}: {e}"
    finally:
        shutil.rmtree(os.path.dirname(d), ignore_errors=True)


def attempt(pid, props=None):
    meta = json.load(open(f"{V}/seeded/{pid}/meta.json"))
    d = copy()
    try:
        rc, out = sh(f"git apply {V}/seeded/{pid}/patch.diff", d)
        assert rc == 0, out
        res = []
        for prop in props or [meta["property"]]:
            rc, out = sh(f"{PY} {V}/check.py {prop}", V, {"MON_REPO": d, "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": "quick", "MON_EVIDENCE": os.path.dirname(d)})
            lines = [l for l in out.splitlines() if l.startswith("VIOLATION")]
            msgs = [l for l in out.splitlines() if l.strip() and not l.startswith("KNOWN")]
            res.append((prop, rc, bool(lines), " | ".join(m for m in msgs if m not in lines)[:260] if lines else out[-600:]))
        return pid, res
    finally:
        shutil.rmtree(os.path.dirname(d), ignore_errors=True)


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        with ThreadPoolExecutor(6) as ex:
            for pid, r in ex.map(make, [p for p in plants() if not ids or p["id"] in ids]):
                print(pid, "-", r, flush=True)
    else:
        props = None
        if ids and ids[0].startswith("props="):
            props = ids.pop(0)[6:].split(",")
        for pid in ids or sorted(os.listdir(V + "/seeded")):
            pid, res = attempt(pid, props)
            for prop, rc, v, msg in res:
                print(f"{'CAUGHT' if v and rc == 1 else 'MISSED' if rc == 0 else 'BROKEN'} {pid} by {prop} rc={rc} {msg if v or rc else ''}", flush=True)
