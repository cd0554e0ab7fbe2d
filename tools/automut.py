"""Generated one-place mutants of /repo: python automut.py SEED N [path part]
Samples N mutants (operators, constants, conditions, dropped statements and
keywords) of mimosa/, keeps those that pass the tests, and runs the checks of that file."""
import ast, glob, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R, PY = "/repo", "/opt/venv/bin/python"
MAP = [("components/emissions.py", "C11 C12 C19 C20 C31 C35"), ("components/mitigation", "C17 C18 C31 C35"), ("cobbdouglas", "C16 C35"), ("economics", "C16 C35"),
       ("coacch", "C14 C15"), ("nodamage", "C14 C31"), ("sealevel", "C13"), ("emissiontrade", "C21 C31"), ("financialtransfer", "C22 C31"), ("effortsharing", "C23"),
       ("welfare", "C24"), ("objective", "C25"), ("abstract_model", "C31 C25"), ("mimosa/mimosa.py", "C10 C09 C33 C38"), ("instantiate_params", "C30 C02 C14 C19 C06"),
       ("simulation_mode", "C26 C27"), ("export/save", "C08"), ("config/", "C01 C36 C03 C07 C37"), ("common/data", "C04 C39 C05 C26"),
       ("regional_params", "C06 C39 C36 C02"), ("units", "C07 C04 C39"), ("pyomo_utils", "C32 C28 C08 C26"), ("common/utils", "C33 C38"), ("docs/", "C37"), ("", "C38")]
OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.Mod: "*"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}


def mutants(path):
    src = open(path, newline="").read()
    lines = src.splitlines(True)
    enc = [l.encode() for l in lines]
    at = [0]
    for l in enc:
        at.append(at[-1] + len(l))
    raw = src.encode()
    tree = ast.parse(src)
    out = []
    pos = lambda n: (at[n.lineno - 1] + n.col_offset, at[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: raw[slice(*pos(n))].decode()
    docs = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)}

    def put(n, text, what):
        a, b = pos(n)
        out.append((n.lineno, what, raw[:a] + text.encode() + raw[b:]))
    for n in ast.walk(tree):
        if isinstance(n, ast.BinOp) and type(n.op) in OPS and not isinstance(n.left, (ast.JoinedStr,)) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            put(n, f"({seg(n.left)}) {OPS[type(n.op)]} ({seg(n.right)})", f"{seg(n)[:60]} -> {OPS[type(n.op)]}")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(n, f"({seg(n.left)}) {CMP[type(n.ops[0])]} ({seg(n.comparators[0])})", f"{seg(n)[:60]} -> {CMP[type(n.ops[0])]}")
        elif isinstance(n, ast.BoolOp):
            for v in n.values:
                rest = [w for w in n.values if w is not v]
                j = " and " if isinstance(n.op, ast.And) else " or "
                put(n, "(" + j.join(f"({seg(w)})" for w in rest) + ")", f"drop {seg(v)[:60]}")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, f"({seg(n.operand)})", f"drop not: {seg(n)[:60]}")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            put(n, f"({seg(n.operand)})", f"drop minus: {seg(n)[:60]}")
        elif isinstance(n, ast.Constant) and id(n) not in docs:
            v = n.value
            if isinstance(v, bool):
                put(n, str(not v), f"{v} flipped")
            elif isinstance(v, int):
                put(n, str(v + 1), f"{v} -> {v + 1}")
                if v:
                    put(n, str(v - 1), f"{v} -> {v - 1}")
            elif isinstance(v, float):
                put(n, repr(v * 1.02 + (v == 0)), f"{v} -> *1.02")
        elif isinstance(n, (ast.If, ast.IfExp)):
            put(n.test, "(True)", f"if {seg(n.test)[:60]} -> True")
            put(n.test, "(False)", f"if {seg(n.test)[:60]} -> False")
        elif isinstance(n, (ast.Expr, ast.AugAssign)) and id(getattr(n, "value", None)) not in docs:
            put(n, "pass", f"drop {seg(n)[:60]}")
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and k.arg not in ("doc", "units", "name"):
                    rest = [seg(a) for a in n.args] + [(f"{q.arg}=" if q.arg else "**") + seg(q.value) for q in n.keywords if q is not k]
                    put(n, f"{seg(n.func)}({', '.join(rest)})", f"drop {k.arg}= of {seg(n.func)[:40]}")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "deepcopy", "dropna", "lower", "strip", "fillna", "replace", "sort_values"):
                x = n.args[0] if n.func.attr == "deepcopy" and n.args else n.func.value
                put(n, seg(x), f"drop .{n.func.attr}()")
        elif isinstance(n, ast.For):
            put(n.iter, f"list({seg(n.iter)})[1:]", f"skip the first of {seg(n.iter)[:40]}")
            put(n.iter, f"list({seg(n.iter)})[:-1]", f"skip the last of {seg(n.iter)[:40]}")
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            pass
    return out


def trial(job):
    path, line, what, text = job
    rel = os.path.relpath(path, R)
    d = tempfile.mkdtemp(prefix="am_", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", R, d + "/repo"], check=True)
        open(f"{d}/repo/{rel}", "wb").write(text)
        env = {**os.environ, "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
        r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests/unittests"], cwd=d + "/repo", capture_output=True, text=True, env=env, timeout=300)
        if r.returncode:
            return job, "tests"
        props = next(p for k, p in MAP if k in rel)
        for p in props.split():
            r = subprocess.run([PY, V + "/check.py", p], cwd=V, capture_output=True, text=True, timeout=1500,
                               env={**env, "MON_REPO": d + "/repo", "VERIF_SEED": "1", "VERIF_TIER": "quick", "MON_EVIDENCE": d})
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                return job, "caught by " + p
            if r.returncode:
                return job, f"no answer of {p}: {(r.stdout + r.stderr)[-300:]}"
        return job, "MISSED by " + props
    except Exception as e:
        return job, f"error {type(e).__name__} {str(e)[:200]}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    seed, n = int(sys.argv[1]), int(sys.argv[2])
    part = sys.argv[3] if len(sys.argv) > 3 else "mimosa/"
    files = [f for f in glob.glob(R + "/mimosa/**/*.py", recursive=True) + glob.glob(R + "/docs/scripts/*.py") if part in f and "socialcost" not in f and "export/utils" not in f]
    jobs = [(f, *m) for f in sorted(files) for m in mutants(f)]
    print(len(jobs), "mutants in all", flush=True)
    # files weigh by the square root of their number of mutants
    rnd = random.Random(seed)
    per = {}
    for j in jobs:
        per.setdefault(j[0], []).append(j)
    rnd2 = [(rnd.random() ** (len(per[j[0]]) ** .5), rnd.random(), j) for j in jobs]
    pick = [j for *_, j in sorted(rnd2, key=lambda x: -x[0])[:n]]
    with ThreadPoolExecutor(int(os.environ.get("AM", "2"))) as ex:
        for (f, line, what, _), r in ex.map(trial, pick):
            print(f"{os.path.relpath(f, R)}:{line} {what!r}: {r}", flush=True)
