import sys,os,subprocess,tempfile,shutil,json
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from concurrent.futures import ThreadPoolExecutor
from mutants import L
PY="/opt/venv/bin/python"
V=os.environ.get("MUT_V",os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ids=sys.argv[1:]
env={**os.environ,"OMP_NUM_THREADS":"1","OPENBLAS_NUM_THREADS":"1"}
def prep(x):
    id,props,edits=x
    d=tempfile.mkdtemp(prefix="mut_",dir="/tmp")+"/repo"
    subprocess.run(["cp","-a",os.environ.get("MUT_REPO","/repo"),d],check=True)
    for f,o,n in edits:
        t=open(f"{d}/{f}").read()
        if t.count(o)<1: return id,d,f"NOTFOUND {f} {o[:60]!r}"
        open(f"{d}/{f}","w").write(t.replace(o,n))
    r=subprocess.run(f"{PY} -m pytest -q -x -p no:cacheprovider tests/unittests 2>&1 | tail -3",shell=True,cwd=d,capture_output=True,text=True,env=env)
    if "passed" not in r.stdout or "failed" in r.stdout or "error" in r.stdout: return id,d,"TESTS "+r.stdout[-200:].replace("\n"," ")
    return id,d,None
import random
todo=[x for x in L if not ids or x[0] in ids or any(x[0].startswith(i) for i in ids)]
import threading
with ThreadPoolExecutor(3) as ex:
    futs=[(x,ex.submit(prep,x)) for x in todo]
    for x,f in futs:
        id,d,err=f.result()
        if err: print("SKIP",id,err,flush=True)
        else:
            for p in x[1]:
                r=subprocess.run(f"{PY} {V}/check.py {p}",shell=True,cwd=V,capture_output=True,text=True,env={**env,"MON_REPO":d,"VERIF_SEED":os.environ.get("VERIF_SEED","1"),"VERIF_TIER":"quick","MON_EVIDENCE":os.path.dirname(d)})
                v=[l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                st="CAUGHT" if v and r.returncode==1 else "MISSED" if r.returncode==0 else "BROKEN"
                msg=[l for l in r.stdout.splitlines() if l.strip() and not l.startswith(("VIOLATION","KNOWN"))]
                print(st,id,p,(msg[0][:150] if msg and st=="CAUGHT" else (r.stdout+r.stderr)[-300:] if st=="BROKEN" else ""),flush=True)
        shutil.rmtree(os.path.dirname(d),ignore_errors=True)
