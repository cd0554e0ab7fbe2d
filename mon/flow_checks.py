"""The documented way of working, run as a user runs it: scripts in a process and an empty
folder of their own (C38)."""
import copy, csv, glob, json, os, shutil, subprocess, sys
import numpy as np
from . import world as W, refmodel as M, refdata as R, engine as E, cases as C
from .eng_checks import rng_for, observe
from .input_checks import pick, same, nl_diff
from .run_checks import scratch, in_child, six, small

# the stand-in answers every problem with numbers of its own (in the solver file's order)
BEHAVE = r'''
k=$(wc -l < "$D/count"); k=$((k))
cp "$D/p.nl" "$D/p$k.nl"; cp "$D/args" "$D/args$k"
[ -f "$D/p.col" ] && mv "$D/p.col" "$D/p$k.col"
[ -f "$D/p.row" ] && mv "$D/p.row" "$D/p$k.row"
ls > "$D/ls$k"
awk -v k="$k" 'NR==2 {
  n=$1; m=$2
  print "Ipopt 3.14.12: Optimal Solution Found\n\nOptions\n3\n0\n1\n0"
  print m; print 0; print n; print n
  for (j=0; j<n; j++) printf "%.12f\n", 0.5 + ((j*37 + k*101) % 997)/997
  print "objno 0 0"; exit }' "$nl" > "$base.sol"
exit 0
'''


def answer(j, k):
    return float(f"{.5 + ((j * 37 + k * 101) % 997) / 997:.12f}")


BASE = {}
OFF = [("emissions - non increasing emissions after 2100", False), ("emissions - not positive after budget year", False),
       ("emissions - inertia - regional", False), ("emissions - inertia - global", False), ("time - end", 2150)]
NOPOLICY = [("economics - MAC - gamma", "0.00001 USD2005/tCO2"), ("simulation - simulationmode", True),
            ("simulation - constraint_variables", {"relative_abatement": {y: {r: 0.0 for r in R.REGIONS} for y in range(2025, 2151, 5)}})]


def shipped():
    """[(script in the repository, [(what was asked for, saved name)])]"""
    out = [
        ("tests/runs/run_base.py", [([], "run1")]),
        ("tests/runs/run_carbonbudget.py", [([("emissions - carbonbudget", "500 GtCO2")], "run_example_carbonbudget")]),
        ("tests/runs/run_high_dmg_tcre_low_prtp.py",
         [([("economics - damages - quantile", .95), ("temperature - TCRE", "0.82 delta_degC/(TtCO2)"), ("economics - PRTP", .001)], "run_example2")]),
        ("tests/runs/run_multipleruns.py", [([("emissions - carbonbudget", f"{b} GtCO2")], f"run_example3_{b} GtCO2") for b in (500, 700, 1000)]),
        ("tests/runs/run_effortsharing.py",
         [([("model - emissiontrade module", "emissiontrade"), ("model - welfare module", "cost_minimising"), ("emissions - carbonbudget", "700 GtCO2"),
            ("effort sharing - regime", g), ("economics - MAC - rel_mitigation_costs_min_level", -.3), ("time - end", 2100)], f"run_{g}")
          for g in ("equal_mitigation_costs", "equal_total_costs", "per_cap_convergence")]),
        ("tests/runs/run_baseline_nodamages.py",
         [([("emissions - carbonbudget", False), ("economics - damages - ignore damages", True), ("model - welfare module", "cost_minimising")] + OFF,
           "baseline_ignore_damages")]),
        ("tests/runs/run_nopolicy_withdamages.py",
         [([("emissions - carbonbudget", False), ("model - welfare module", "cost_minimising")] + OFF + NOPOLICY, "baseline_no_policy")]),
        ("tests/runs/run_logging.py", [([("emissions - carbonbudget", False)], "run1_logged")]),
        ("run.py", [([("emissions - carbonbudget", False)], "run1")]),
        ("run_baseline.py",
         [([("emissions - carbonbudget", False), ("economics - damages - ignore damages", g), ("model - welfare module", "cost_minimising")]
           + ([] if g else NOPOLICY) + OFF, f"baseline_ignore_damages_{g}") for g in (False, True)]),
        ("run_calibration.py",
         [([("economics - damages - ignore damages", True), ("time - end", 2100), ("emissions - carbonbudget", f"{b} GtCO2")], f"calibration/cb_{b}")
          for b in range(200, 1501, 100)]),
    ]
    return [o for o in out if os.path.exists(os.path.join(W.REPO, o[0]))]


def lit(path):
    return "params" + "".join(f"[{k!r}]" for k in path.split(" - "))


HEAD = "from mimosa import MIMOSA, load_params\n"


def written(rng):
    """a script in the documented style with several runs, and what it asks for"""
    regs = [str(r) for r in rng.choice(R.REGIONS, int(pick(rng, [1, 2, 3])), replace=False)]
    first = [("regions", {r: {} for r in regs}), ("time - end", int(pick(rng, [2050, 2060, 2105]))), ("time - dt", float(pick(rng, [5, 10, 15])))]
    opts = [("emissions - carbonbudget", lambda: pick(rng, ["500 GtCO2", "0.9 TtCO2", "1200 GtCO2", False])),
            ("economics - PRTP", lambda: float(pick(rng, [.001, .02, .05]))),
            ("SSP", lambda: pick(rng, ["SSP1", "SSP3", "SSP5"])),
            ("temperature - TCRE", lambda: pick(rng, ["0.82 delta_degC/(TtCO2)", "0.5 delta_degC/TtCO2"])),
            ("economics - damages - quantile", lambda: float(pick(rng, [.05, .5, .95]))),
            ("model - welfare module", lambda: pick(rng, ["cost_minimising", "welfare_loss_minimising", "inequal_aversion_general"])),
            ("model - damage module", lambda: pick(rng, ["nodamage", "COACCH"])),
            ("emissions - inertia - regional", lambda: pick(rng, [False, -.05])),
            ("temperature - target", lambda: pick(rng, ["1.8 delta_degC", False])),
            ("effort sharing - percapconv_year", lambda: pick(rng, [2035, 2080, False]))]
    K = int(pick(rng, [2, 3, 3, 4]))
    style = pick(rng, ["reload", "same dictionary", "all built first", "copies", "last solved first", "twice"])
    steps = [[(p, f()) for p, f in (opts[int(q)] for q in rng.choice(len(opts), 2, replace=False))] for _ in range(K)]
    names = [pick(rng, ["run{}", "a b {}", "x.y_{}", "cb_{} GtCO2", "r-{}"]).format(k) for k in range(K)]
    # every call of solve has arguments of its own
    def call():
        if rng.random() < .2:
            return f"use_neos=True, neos_email='u{int(rng.integers(1000))}@x.org'"
        a = [w for w, q in (("verbose=False", .5), (f"ipopt_maxiter={int(rng.integers(3, 900))}", .3), ("ipopt_output_file='it.txt'", .2),
                            (f"halt_on_ampl_error={pick(rng, ['yes', 'no'])!r}", .2)) if rng.random() < q]
        return ", ".join(a)
    kw = [call() for _ in range(2 * K)]
    folder = pick(rng, [None, None, "output/deep/er", "res", "../other"])
    skw = "" if folder is None else f", folder={folder!r}"
    L = [HEAD + ("import copy\n" if style == "copies" else "")]
    asked, acc, order = [], [], list(range(K))
    sets = lambda ps: "".join(f"{lit(p)} = {v!r}\n" for p, v in ps)
    if style == "reload":
        for k in range(K):
            L.append(f"params = load_params()\n{sets(first + steps[k])}m = MIMOSA(params)\nm.solve({kw[k]})\nm.save({names[k]!r}{skw})\n")
            asked.append(first + steps[k])
    elif style == "twice":
        # the model stays usable after it has been solved and saved
        for k in range(K):
            L.append(f"params = load_params()\n{sets(first + steps[k])}m = MIMOSA(params)\nm.solve({kw[2 * k]})\nm.solve({kw[2 * k + 1]})\nm.save({names[k]!r}{skw})\n")
            asked += [first + steps[k]] * 2
        names = [n for n in names for _ in range(2)]
    else:
        L.append("params = load_params()\n" + sets(first))
        if style in ("all built first", "last solved first"):
            L.append("models = []\n")
        for k in range(K):
            acc = acc + steps[k]
            if style == "copies":
                L.append(f"params = copy.deepcopy(params)\n")
            L.append(sets(steps[k]))
            if style in ("same dictionary", "copies"):
                L.append(f"m = MIMOSA(params)\nm.solve({kw[k]})\nm.save({names[k]!r}{skw})\n")
            else:
                L.append(f"models.append(MIMOSA(params))\n")
            asked.append(first + acc)
        kws = ", ".join(f"dict({q})" for q in kw[:K])
        if style == "all built first":
            L.append(f"for m, n, kw in zip(models, {names!r}, [{kws}]):\n    m.solve(**kw)\n    m.save(n{skw})\n")
        elif style == "last solved first":
            order = order[::-1]
            L.append(f"for m, n, kw in reversed(list(zip(models, {names!r}, [{kws}]))):\n    m.solve(**kw)\nfor m, n in zip(models, {names!r}):\n    m.save(n{skw})\n")
    kw = kw[:len(asked)]
    if style == "last solved first":
        asked, names, kw = asked[::-1], names[::-1], kw[::-1]
    runs = list(zip(asked, names))
    return "".join(L), runs, folder, style, kw


NEOS = '''import sys
sys.path.insert(0, %r)
from mon import world as W
W.REPO
W.mimosa()
from pyomo.opt import SolverManagerFactory
import os
class Service:
    def __init__(self, *a, **k): pass
    def solve(self, model, opt=None, **kw):
        from pyomo.environ import SolverFactory
        with open("asked", "a") as f: f.write(f"{opt} {os.environ.get('NEOS_EMAIL')}\\n")
        return SolverFactory("ipopt").solve(model, symbolic_solver_labels=True)
SolverManagerFactory.register("neos", doc="stand-in")(Service)

'''
REMOTE = '''from mimosa import MIMOSA, load_params

params = load_params()
params["regions"] = {"CAN": {}, "INDIA": {}}

model1 = MIMOSA(params)
model1.solve(use_neos=True, neos_email="your.email@email.com")
model1.save("run1")
'''


def config(asked):
    u = {}
    for p, v in asked:
        R.setp(u, p, copy.deepcopy(v))
    return u


def fresh(u):
    def go():
        m = W.build(copy.deepcopy(u))
        nl = W.capture_text(m)
        d = W.stub_dir()
        return dict(text=open(d + "/p.nl").read(), cols=list(nl.cols), rows=list(nl.rows), params=json.loads(json.dumps(m.params)))
    how, v = in_child(go)
    if how != "ok":
        raise RuntimeError("fresh build: " + str(v))
    return v


def place(col):
    """name[year,region] -> (name, year index, region or None)"""
    if "[" not in col:
        return None
    name, arg = col[:-1].split("[", 1)
    t, _, r = arg.partition(",")
    return (name, int(t), r or None) if t.isdigit() else None


def c38(res, seed, i, tier):
    rng = rng_for("C38", seed, i)
    scripts = shipped()
    base = scratch()
    cwd = os.path.join(base, "a", "work")
    os.makedirs(cwd)
    stub = os.path.join(base, "stub")
    os.makedirs(stub)
    with open(stub + "/behave.sh", "w") as f:
        f.write(BEHAVE)
    if i < len(scripts):
        script, runs = scripts[len(scripts) - 1 - i]          # the longest one first
        text, folder, kw = open(os.path.join(W.REPO, script)).read(), None, None
        kind = script
    elif i == len(scripts):
        text, runs, folder, kw, kind, script = REMOTE, [([("regions", {"CAN": {}, "INDIA": {}})], "run1")], None, ["use_neos=True, neos_email='your.email@email.com'"], "remote solver", "neos.py"
    else:
        text, runs, folder, kind, kw = written(rng)
        script = "script.py"
    calls = [eval(f"dict({q})") for q in kw] if kw is not None else None
    remote = [q["neos_email"] for q in calls or [] if "use_neos" in q]
    src = os.path.join(base, "src")
    os.makedirs(src)
    f = os.path.join(src, os.path.basename(script))
    with open(f, "w") as fh:
        fh.write((NEOS % os.path.dirname(W.HERE) if remote else "") + text)
    env = {**os.environ, "MON_STUB_DIR": stub, "PYTHONPATH": W.REPO, "PYTHONDONTWRITEBYTECODE": "1", "MON_REPO": W.REPO}
    # the calibration script expects its folder; the documented ones start from an empty one
    p = subprocess.run([sys.executable, f], cwd=cwd, env=env, capture_output=True, text=True)
    res.events["scripts run"] += 1
    if p.returncode:
        res.fail(f"the script {kind} fails: {p.stderr.strip().splitlines()[-1][:300] if p.stderr.strip() else p.returncode}", script=text, trace=p.stderr[-1500:])
        return
    # ---- the problems handed over, one per run and in order
    n = len(glob.glob(stub + "/p[0-9]*.nl"))
    res.evals += 1
    if n != len(runs):
        res.fail(f"the script {kind} solved {n} problems, {len(runs)} are asked for", script=text)
        return
    want_files, cache = {}, {}
    for k, (asked, name) in enumerate(runs, 1):
        u = config(asked)
        key = json.dumps(u, sort_keys=True)
        if key not in cache:
            cache[key] = fresh(u)
        ref = cache[key]
        args = open(f"{stub}/args{k}").read().split("\n")
        labelled = os.path.exists(f"{stub}/p{k}.col")
        nl_text = open(f"{stub}/p{k}.nl").read()
        if labelled:
            rd = lambda e: open(f"{stub}/p{k}.{e}").read().split("\n")[:-1]
            nl = W.NL(nl_text, rd("col"), rd("row"))
            d = nl_diff(nl, W.NL(ref["text"], ref["cols"], ref["rows"]))
            if d:
                res.fail(f"problem {k} of the script {kind} ({name}) is not that of the configuration it asks for: it differs in {d}", script=text, asked=u)
            x = {c: answer(j, k) for j, c in enumerate(nl.cols)}
        else:
            x = {}
            res.fail(f"problem {k} of the script {kind} has no names", script=text)
        res.evals += 1
        res.saw(kind, len(asked), name)
        res.events["problems compared with a fresh process"] += 1
        if calls is not None:
            opts = {a.split("=")[0]: a.split("=")[1] for a in args if "=" in a}
            q = calls[k - 1]
            w = {} if "use_neos" in q else {"halt_on_ampl_error": str(q.get("halt_on_ampl_error", "no")),
                                            **({"max_iter": str(q["ipopt_maxiter"])} if "ipopt_maxiter" in q else {}),
                                            **({"output_file": q["ipopt_output_file"]} if "ipopt_output_file" in q else {})}
            got = {o: opts[o] for o in ("halt_on_ampl_error", "max_iter", "output_file") if o in opts}
            if got != w:
                res.fail(f"call {k} is solve({kw[k - 1]}), the solver is given {got}", script=text)
            res.saw("options", *sorted(w), "use_neos" in q)
        want_files[name] = (x, ref, u)
    # ---- the files left behind
    out = os.path.normpath(os.path.join(cwd, folder or "output"))
    left = set()
    for dp, dn, fn in os.walk(os.path.join(base, "a")):
        left |= {os.path.relpath(os.path.join(dp, q), out) for q in fn}
    expect = {f"{n}.csv{e}" for n in want_files for e in ("", ".params.json")}
    extra = {os.path.relpath(os.path.join(cwd, q), out) for q in
             (["mainlog.log"] if "logging" in kind else []) + (["asked"] if remote else []) + (["it.txt"] if "it.txt" in str(kw) else [])}
    if expect - left or left - expect - extra:
        res.fail(f"the script {kind} leaves {sorted(left - expect - extra)[:4]} besides and lacks {sorted(expect - left)[:4]}", script=text)
        return
    for name, (x, ref, u) in want_files.items():
        par = json.load(open(os.path.join(out, name + ".csv.params.json")))
        if not same(par, ref["params"]):
            res.fail(f"the parameter file of {name} is not that of its run ({kind})", script=text)
        for s in R.flat(u):
            path, v = s
            got = R.getp(par, list(path))
            if path[0] not in ("simulation", "regions") and not same(got, v) and not (isinstance(v, float) and got == v):
                res.fail(f"the parameter file of {name} has {' - '.join(path)} = {got!r}, {v!r} was asked for ({kind})", script=text)
        with open(os.path.join(out, name + ".csv"), newline="") as fh:
            rows = list(csv.reader(fh))
        tab = {(r[0], r[1]): r[3:] for r in rows[1:]}
        years = [float(y) for y in rows[0][3:]]
        full = R.full_params(u)
        wy = [float(f"{y:.6g}") for y in R.model_years(full)]
        if years != wy:
            res.fail(f"the table of {name} has the years {years[:2]}...{years[-1:]}, {wy[:2]}...{wy[-1:]} were asked for ({kind})", script=text)
            continue
        seen = 0
        for col, v in x.items():
            q = place(col)
            if q is None or q[0].startswith("_"):
                continue
            row = tab.get((q[0], q[2] or "Global"))
            if row is None or q[1] >= len(row):
                res.fail(f"the table of {name} has no {col} ({kind})", script=text)
                break
            seen += 1
            if not six(row[q[1]], v):
                res.fail(f"the table of {name} has {row[q[1]]} for {col}, its solution has {v!r} ({kind})", script=text)
                break
        res.events["saved values compared with the solution"] += seen
        regs = {r for _, r in tab} - {"Global"}
        if regs != set(full["regions"]):
            res.fail(f"the table of {name} has the regions {sorted(regs)[:4]} ({kind})", script=text)
    if "logging" in kind:
        log = open(os.path.join(cwd, "mainlog.log")).read()
        for w in ("Status: ok", "Final NPV", "Model solve took"):
            if log.count(w) != 1:
                res.fail(f"the log has {log.count(w)} lines {w!r}", log=log[:1000])
        res.evals += 1
    if remote:
        a = open(os.path.join(cwd, "asked")).read().split()
        w = [t for e in remote for t in ("ipopt", e)]
        if a != w:
            res.fail(f"the remote solver was asked {a}, not {w}", script=text)
    # ---- the documented configurations admit what they describe and nothing beyond their limits
    if i < len(scripts) and runs:
        asked, name = runs[int(rng.integers(len(runs)))]
        meaning(res, rng, config(asked), name)
    shutil.rmtree(base, ignore_errors=True)
    if res.sample is None:
        res.sample = dict(script=kind, runs=[n for _, n in runs], files=sorted(expect)[:4])


def meaning(res, rng, u, name):
    run = C.Run(u)
    c = run.c
    pol = C.random_policy(c, rng)
    run.add(C.ramps(c, rng, 8), "ramp", pol)
    # straight down to nothing (and a little below), early enough for the smallest budget or later
    x = (c.years - c.years[0])[None, :, None]
    L = rng.uniform(22, 75, (24, 1, 1))
    down = 1 - x / L
    down = np.where(down < 0, -rng.uniform(.001, .02, (24, 1, 1)) * (x - L) / (c.years[-1] - c.years[0] + 1), down)
    RE = c.BL0[None, :1] * down * np.ones((1, 1, c.R))
    RE[:, 0] = c.BL0[0]
    run.add(RE, "straight down", pol)
    if "baseline" in name:
        # no policy: emissions follow the baseline
        run.add(np.repeat(c.BL0[None], 2, 0), "baseline", pol)
    observe(res, run, set(), claim_all=True)
