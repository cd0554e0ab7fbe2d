"""Checks on runs: histories, saving, solver outcomes, eliminated variables, simulation
mode, symmetry, module combinations (C05, C08-C10, C26, C27, C29, C31)."""
import contextlib, copy, csv, glob, json, math, os, pickle, re, tempfile
import numpy as np
from . import world as W, refmodel as M, refdata as R, engine as E, cases as C, attr
from .eng_checks import rng_for, general_user
from .input_checks import pick, same, close, nl_diff, nl_points, leafs


def scratch():
    return tempfile.mkdtemp(dir=W.setup())


def small(rng, i=None, **kw):
    kw.setdefault("maxT", 12)
    kw.setdefault("nreg", int(pick(rng, [1, 2, 2, 3])))
    return C.gen_user(rng, i, **kw)


def solvable(user, rng, I=None, n=24):
    """an instance and one trajectory that the stated problem admits"""
    I = I or E.Instance(user)
    if I.dead:
        return I, None, None
    X = M.simulate(I.c, C.ramps(I.c, rng, n), policy=C.random_policy(I.c, rng))
    ok = C.good(I.c, X)
    if not ok:
        return I, X, None
    return I, X, ok


def values_of(model):
    return W.var_values(model)


# ------------------------------------------------------------------------- C05
class Print:
    """what one problem states"""

    def __init__(self, nl):
        self.text = (tuple(nl.cols), tuple(nl.rows))
        self.nl = nl


def in_child(fn):
    """run fn in a forked child (nothing of it is left in this process); -> its result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            W._scratch = None
            out = ("ok", fn())
        except BaseException as e:
            out = ("err", f"{type(e).__name__}: {e}")
        try:
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        except BaseException:
            code = 1
        W.cleanup()
        os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("err", "no answer")


def stated(model):
    nl = W.capture_text(model)
    return nl


def saved(model):
    """text of the saved table"""
    d = scratch()
    with W.quiet():
        model.save("x", folder=d)
    return open(os.path.join(d, "x.csv")).read()


def related(rng, u, kind=None):
    """another configuration that shares much with u"""
    k = int(rng.integers(9)) if kind is None or kind > 8 else kind
    v = copy.deepcopy(u)
    if kind == 12 or (kind is None and rng.random() < .1):
        # another table of the same conversion
        v["regionsmappings"] = other_conversion(rng)
        return v
    if "regional_parameter_files" in v and (rng.random() < .4 if kind is None else kind == 9):
        # other tables of the same names, in another folder
        v["regional_parameter_files"] = own_tables(rng, v)["regional_parameter_files"]
        return v
    if same_names(u) and (rng.random() < .4 if kind is None else kind == 10):
        # the other model of the same file
        for n, d in v["input"]["variables"].items():
            if d.get("file", "").startswith("/"):
                d["model"] = "OTHER"
        return v
    if same_names(u) and (rng.random() < .5 if kind is None else kind == 11):
        # other data in a file of the same name, in another folder
        for n, d in v["input"]["variables"].items():
            if d.get("file", "").startswith("/"):
                d["file"] = other_file(rng, os.path.basename(d["file"]))
        return v
    if k == 0:
        v["SSP"] = pick(rng, ["SSP1", "SSP2", "SSP3", "SSP4", "SSP5"])
    elif k == 1:
        old = R.full_params(u)["time"]
        how = rng.integers(5)
        if how == 0:
            v["time"] = C.time_grid(rng, maxT=12)
        elif how <= 2:                          # coarser or finer years over the same span
            v["time"] = {**old, "dt": float(old["dt"]) * float(pick(rng, [.5, 2, 3, 1.3]))}
        elif how == 3:
            v["time"] = {**old, "end": old["end"] + int(pick(rng, [-5, 5, 12, 40]))}
        else:
            v["time"] = {**old, "start": min(max(old["start"] + int(pick(rng, [-5, 5, 3])), 2010), old["end"] - 5)}
    elif k == 2:
        v["regions"] = {r: {} for r in C.regions_for(rng, int(rng.integers(1, 4)))}
        if rng.random() < .6:                   # regions of similar names
            v["regions"] = {pick(rng, [q for q in C.ALLR if q not in u["regions"] and (q[:2] == r[:2] or q[-2:] == r[-2:])] or [r]): {} for r in u["regions"]}
    elif k == 3:
        for n in ("GDP", "emissions", "population"):
            if rng.random() < .7:
                d = dict(R.SPEC_BY[f"input - variables - {n}"]["default"])
                d["unit"] = pick(rng, {"GDP": ["billion USD2010/yr", "billion USD2005/yr", "trillion USD2010 / yr", "million USD2005/yr"],
                                       "emissions": ["MtCO2/yr", "Mt CO2 / year", "kt CO2/yr", "GtCO2/day"],
                                       "population": ["million", "billion", "thousand"]}[n])
                if rng.random() < .5:
                    d["file"] = "inputdata/data/data_IMAGE_SSP_harmonised_2020.csv"
                v.setdefault("input", {}).setdefault("variables", {})[n] = d
    elif k == 4:
        v = C.merge(v, {"model": {"damage module": pick(rng, ["COACCH", "nodamage"]), "emissiontrade module": pick(rng, ["notrade", "emissiontrade", "globalcostpool"]),
                                  "welfare module": pick(rng, ["welfare_loss_minimising", "cost_minimising"]), "objective module": pick(rng, ["utility", "globalcosts"])}})
    elif k == 5:
        v["regions"] = {r: C.overrides(rng, "kappa_rel_abatement_0.75_2050") for r in v["regions"]}
    elif k == 6:
        v = C.setu(v, ("economics - damages - quantile", pick(rng, C.QUANT)), ("economics - MAC - beta", 2.2), ("emissions - carbonbudget", "700 GtCO2"),
                   ("economics - damages - coacch_slr_withadapt", bool(rng.random() < .5)))
    elif k == 7:
        v = C.setu(v, ("simulation - custom_mapping", {"MAC_beta": {None: 1.7}, "sr": {None: .19}}))
    else:
        regs = list(v["regions"])
        c = M.Cfg(v)
        v = C.setu(v, ("simulation - simulationmode", True), ("simulation - deactivated_constraints", ["carbon_budget", "regional_inertia"]),
                   ("simulation - constraint_variables", {"relative_abatement": {float(y): {r: .1 for r in regs} for y in c.years}} if c.T >= 4 else {}))
    return v


def other_conversion(rng):
    rows = [r for r in csv.reader(open(os.path.join(R.REF, "IMAGE26_COACCH.csv"), newline=""))]
    perm = rng.permutation(len(rows) - 1)
    f = os.path.join(scratch(), "IMAGE26_COACCH.csv")
    with open(f, "w", newline="") as fh:
        w = csv.writer(fh)
        w.writerow(rows[0])
        for a, j in zip(rows[1:], perm):
            w.writerow([a[0], rows[1 + j][1]])
    maps = copy.deepcopy(R.SPEC_BY["regionsmappings"]["default"])
    for m in maps:
        if m["regionstype2"] == "COACCH":
            m["conversiontable"] = f
    return maps


def same_names(u):
    return any(str(d.get("file", "")).startswith("/") for d in u.get("input", {}).get("variables", {}).values() if isinstance(d, dict))


def other_file(rng, name="mydata.csv"):
    """a data file of the caller, with its own values"""
    src = os.path.join(R.REF, "data_IMAGE_SSP.csv")
    f = os.path.join(scratch(), name)
    with open(src, newline="") as fh:
        rows = list(csv.reader(fh))
    k = float(rng.uniform(.5, 2))
    with open(f, "w", newline="") as fh:
        w = csv.writer(fh)
        w.writerow(rows[0])
        for r in rows[1:]:
            w.writerow(r[:5] + [repr(float(x) * k) if x else x for x in r[5:]])
        for r in rows[1:]:                      # the same rows by another model
            w.writerow(["OTHER"] + r[1:5] + [repr(float(x) * k * 1.25) if x else x for x in r[5:]])
    return f


TABLES = {"economics": "economics.csv", "MAC": "mac.csv", "COACCH": "COACCH.csv", "mortality": "mortality.csv"}


def own_tables(rng, u):
    """regional tables of the caller, with their own values"""
    d = scratch()
    files = copy.deepcopy(R.SPEC_BY["regional_parameter_files"]["default"])
    for cat in rng.choice(["economics", "MAC", "mortality"], int(rng.integers(1, 4)), replace=False):
        with open(os.path.join(R.REF, TABLES[str(cat)]), newline="") as fh:
            rows = list(csv.reader(fh))
        k = float(rng.uniform(.6, 1.6))
        j0 = rows[0].index("region")
        with open(os.path.join(d, f"mine_{cat}.csv"), "w", newline="") as fh:
            w = csv.writer(fh)
            w.writerow(rows[0])
            for r in rows[1:]:
                w.writerow([x if j == j0 or not number(x) else repr(float(x) * k) for j, x in enumerate(r)])
        files[str(cat)]["filename"] = os.path.join(d, f"mine_{cat}.csv")
    return C.setu(u, ("regional_parameter_files", files))


def number(x):
    try:
        return bool(np.isfinite(float(x)))
    except ValueError:
        return False


def write_sim(path, u, v):
    """a saved output with one constant path, as the user's earlier run left it"""
    c = M.Cfg(u)
    with open(path, "w", newline="") as fh:
        w = csv.writer(fh)
        w.writerow(["Variable", "Region", "Unit"] + [f"{y:g}" for y in c.years])
        for r in c.regions:
            w.writerow(["relative_abatement", r, ""] + [v] * c.T)


def own_files(rng, u):
    v = copy.deepcopy(u)
    for n in rng.choice(["GDP", "emissions", "population"], int(rng.integers(1, 4)), replace=False):
        d = dict(R.SPEC_BY[f"input - variables - {n}"]["default"])
        d["file"] = other_file(rng)
        v.setdefault("input", {}).setdefault("variables", {})[str(n)] = d
    return v


def activity(rng, u, res, models, reuse):
    """one thing that happens in the process"""
    mi = W.mimosa()
    k = int(rng.integers(10))
    if k <= 4:
        v = related(rng, u) if rng.random() < .8 else small(rng)
        try:
            models.append((W.build(v), v))
        except Exception:
            pass
        res.events["other models built"] += 1
        return f"build {sorted(v)[:2]}"
    if k == 5 and models:
        m, v = models[int(rng.integers(len(models)))]
        with contextlib.suppress(Exception):
            nl = W.capture_text(m)
            W.solve_with(m, rng.uniform(.1, 1, nl.n), nl.m)
        res.events["other models solved"] += 1
        return "solve"
    if k == 6 and models:
        m, v = models[int(rng.integers(len(models)))]
        W.behave(pick(rng, ["exit 1\n", "kill -9 $$\n", 'echo junk > "$base.sol"\n']))
        with contextlib.suppress(Exception):
            W.solve_raw(m)
        res.events["other solves failed"] += 1
        return "failed solve"
    if k == 7 and models:
        m, v = models[int(rng.integers(len(models)))]
        with contextlib.suppress(Exception), W.quiet():
            m.save("x", hash_suffix=bool(rng.random() < .5), folder=scratch())
        res.events["other models saved"] += 1
        return "save"
    if k == 8:
        bad = pick(rng, [C.setu(u, ("economics - PRTP", -3)), C.setu(u, ("nonsense - x", 3)), C.setu(u, ("regions", {"NOWHERE": {}})),
                         C.setu(u, ("input - variables - GDP", {"variable": "zz", "unit": "currency_unit", "scenario": "zz", "model": "zz", "file": "inputdata/data/data_IMAGE_SSP.csv"})),
                         C.setu(u, ("simulation - simulationmode", True), ("simulation - deactivated_constraints", ["nope"]))])
        with contextlib.suppress(Exception):
            W.build(bad)
        res.events["builds that fail"] += 1
        return "failing build"
    with W.quiet():
        d = mi.load_params()
        for ks in list(d):
            if isinstance(d[ks], dict):
                for q in list(d[ks]):
                    if isinstance(d[ks][q], dict):
                        d[ks][q]["poison"] = 7
                    elif isinstance(d[ks][q], list):
                        d[ks][q].append("poison")
                    else:
                        d[ks][q] = -12345
    res.events["default parameters loaded and edited"] += 1
    return "edit defaults"


def c05(res, seed, i, tier):
    rng = rng_for("C05", seed, i)
    u = small(rng, i, relaxed=rng.random() < .5)
    focus = i % 13                         # one kind of neighbour that this case surely meets
    if rng.random() < .2:
        u = related(rng, u)
    if focus in (10, 11) or rng.random() < .3:
        u = own_files(rng, u)
    if focus == 9 or rng.random() < .35:
        u = own_tables(rng, u)
    sim = None
    if rng.random() < .35 and M.Cfg(u).T >= 4:
        # paths from the output of an earlier run, which was saved again in between
        sim = os.path.join(scratch(), "run.csv")
        write_sim(sim, u, .3)
        u = C.setu(u, ("simulation - simulationmode", True), ("simulation - constraint_variables", {"relative_abatement": sim}))
    if rng.random() < .4:
        r = pick(rng, list(u["regions"]))
        u["regions"][r] = {**(u["regions"][r] or {}), "notes": {"text": "{SSP} up to {time - end}", "more": {"text": "{time - dt}"}}}
    u0 = copy.deepcopy(u)

    def fresh():
        m = W.build(copy.deepcopy(u0))
        return stated(m), leafs(m.params)
    how, val = in_child(fresh)
    if how != "ok":
        # the configuration itself cannot be built; not this property's business
        res.events["configurations that cannot be built"] += 1
        return
    want, wantp = val
    models = []
    early = bool(rng.random() < .35)
    shared = bool(rng.random() < .5)       # one dictionary used for several models
    d = u if shared else copy.deepcopy(u0)
    if early:
        mine = W.build(d)
        if rng.random() < .5:
            stated(mine)
        years = [float(mine.concrete_model.year(t)) for t in mine.concrete_model.t]
    log = []
    kept = []
    if rng.random() < .5:
        # a solved model whose values must stay
        v = small(rng)
        I, X, ok = solvable(v, rng)
        if ok:
            P, _ = I.points(E.subset(X, [ok[0]]))
            W.solve_with(I.model, P[:, 0], I.nl.m)
            kept.append((I.model, values_of(I.model), copy.deepcopy(I.model.params), saved(I.model)))
    for step in range(int(rng.integers(3, 7 if tier == "quick" else 14))):
        if step == 0 or step > 1 and rng.random() < .1:
            v = related(rng, u0, focus)
            with contextlib.suppress(Exception):
                models.append((W.build(v), v))
                res.saw("neighbour", focus)
            res.events["other models built"] += 1
            log.append(f"build neighbour of kind {focus}")
        elif shared and rng.random() < .3:
            # reuse of the same dictionary, edited and put back
            e = copy.deepcopy(u)
            u["SSP"] = "SSP1"
            R.setp(u, "economics - MAC - beta", 1.9)
            with contextlib.suppress(Exception):
                models.append((W.build(u), None))
            u.clear()
            u.update(e)
            log.append("reuse")
        elif sim and rng.random() < .5:
            write_sim(sim, u0, .2)
            with contextlib.suppress(Exception):
                models.append((W.build(copy.deepcopy(u0)), None))
            write_sim(sim, u0, .3)
            log.append("output saved again")
        else:
            log.append(activity(rng, u0, res, models, None))
    if not same(d, u0):
        res.fail(f"the caller's dictionary was changed: {u0} became {d}", log=log)
    late = W.build(d)
    if early and years != [float(mine.concrete_model.year(t)) for t in mine.concrete_model.t]:
        res.fail("the years of a model changed although only other models were touched", user=u0, log=log)
    if not same(d, u0):
        res.fail("building changed the caller's dictionary", user=u0)
    for m, who in ([(mine, "built before the other activity")] if early else []) + [(late, "built after other activity")]:
        res.evals += 1
        try:
            got = stated(m)
        except W.NoProblem as e:
            res.fail(f"a model {who} states no problem: {e}", user=u0, log=log)
            continue
        diff = nl_diff(want, got)
        if diff:
            res.fail(f"a model {who} differs from the same model in a fresh process in {diff}", user=u0, log=log)
        p = leafs(m.params)
        if not same(p, wantp):
            k = [k for k in wantp if not same(p.get(k), wantp[k])]
            res.fail(f"the parameters of a model {who} changed: {k[:3]}", user=u0, log=log)
        res.saw(tuple(log), who[:12], tuple(u0["regions"]), u0["SSP"])
    for m, vals, par, text in kept:
        now = values_of(m)
        if saved(m) != text:
            res.fail("saving a solved model gives another file after other models were touched", log=log)
        res.evals += 1
        if not same(par, m.params) or any(not (a == now[k] or (a is not None and now[k] is not None and abs(a - now[k]) <= 1e-12 * abs(a))) for k, a in vals.items()):
            res.fail("the values of a solved model changed although only other models were touched", log=log)
        res.events["solved models looked at again"] += 1
    res.events["histories"] += 1
    res.events["steps"] += len(log)
    if res.sample is None:
        res.sample = dict(config=u0, steps=log)


# ------------------------------------------------------------------------- C08
def unit_text(var):
    from pyomo.environ import units
    u = units.get_units(var)
    return re.sub(r"/a(?![a-zA-Z])", "/yr", "" if u is None else str(u))


# the units the documented quantities are in (as multisets of what stands above and below the line)
UNITS = {u: n.split() for u, n in {
    "usd*trillion/yr": "GDP_gross GDP_net consumption investments mitigation_costs baseline_GDP import_export_mitigation_cost_balance",
    "GtCO2/yr": "baseline baseline_emissions regional_emissions regional_emission_reduction global_emissions paid_for_emission_reductions "
                "regional_emission_allowances import_export_emission_reduction_balance",
    "GtCO2": "cumulative_emissions cumulative_baseline_emissions cumulative_global_baseline_emissions",
    "degC_above_PI": "temperature",
    "fraction_of_GDP": "damage_costs damage_costs_non_slr damage_costs_slr rel_mitigation_costs effort_sharing_common_level rel_financial_transfer",
    "fraction_of_baseline_emissions": "relative_abatement",
    "m": "slr_thermal slr_cumgsic slr_cumgis total_SLR",
    "billion*people": "population",
    "GtCO2/usd/trillion": "baseline_carbon_intensity global_emission_reduction_per_cost_unit",
    "usd*trillion/GtCO2": "global_cost_per_emission_reduction_unit carbonprice global_carbonprice"}.items()}
UNITS = {v: u for u, vs in UNITS.items() for v in vs}


def unit_parts(text):
    up, down = [], []
    for k, part in enumerate(text.replace("(", "").replace(")", "").split("/")):
        (down if k else up).extend(p for p in part.split("*") if p not in ("1", "dimensionless"))
    return sorted(up), sorted(down)


def expected_rows(model):
    """{(variable, region): (unit, values)} from the model itself"""
    from pyomo.environ import Var, Param, value
    cm = model.concrete_model
    T = list(cm.t)
    regs = list(cm.regions)
    out = {}
    for kind in (Var, Param):
        for v in cm.component_objects(kind):
            if v.name.startswith("_") or not v.is_indexed():
                continue
            keys = set(v.index_set()) if kind is Var else set(v.index_set())
            tr = {(t, r) for t in T for r in regs}
            if keys == tr:
                for r in regs:
                    out[v.name, r] = (unit_text(v), [float(value(v[t, r])) for t in T])
            elif kind is Var and keys == set(T):
                out[v.name, "Global"] = (unit_text(v), [float(value(v[t])) for t in T])
    return out


def six(a, b):
    """b written with six significant digits gives a"""
    if math.isnan(b):
        return isinstance(a, str) and a in ("", "nan", "NaN")
    try:
        a = float(a)
    except ValueError:
        return False
    return a == float(f"{b:.6g}") or abs(a - b) <= 5.0001e-6 * abs(b)


def c08(res, seed, i, tier):
    rng = rng_for("C08", seed, i)
    mi = W.mimosa()
    u = small(rng, i, relaxed=True)
    if i == 0:
        known_c08(res)
    for _ in range(20):
        y = R.model_years(R.full_params(u))
        if len({f"{v:.6g}" for v in y}) == len(y):
            break
        u["time"] = C.time_grid(rng, maxT=12)
    if rng.random() < .25:
        c = M.Cfg(u)
        if c.T >= 4:
            u = C.setu(u, ("simulation - simulationmode", True), ("simulation - deactivated_constraints", ["carbon_budget"]),
                       ("simulation - constraint_variables", {"temperature": {int(y) if y == int(y) else float(y): {"Global": 1.0 + .01 * k} for k, y in enumerate(c.years)}}))
    if rng.random() < .2:
        u = C.setu(u, ("simulation - custom_mapping", {"MAC_scaling_factor": {r: .77 for r in u["regions"]}}))
    I = E.Instance(u, cfg=M.Cfg(u))
    if I.dead:
        res.fail(f"legal configuration: {I.dead}", user=u)
        return
    c = I.c
    X = M.simulate(c, C.ramps(c, rng, 4), policy=C.random_policy(c, rng))
    m = I.model
    solved = rng.random() < .85
    folder = scratch()
    if rng.random() < .3:
        folder = os.path.join(folder, "new", "sub")
    name = pick(rng, ["run1", "a b", "base-line_2", "x.y", "r"])
    hs = bool(rng.random() < .5)
    if rng.random() < .35:
        # what an earlier save of this name left behind is replaced
        with W.quiet():
            if rng.random() < .7:
                P, _ = I.points(E.subset(X, [1]))
                W.solve_with(m, np.where(np.isfinite(P), P, .25)[:, 0], I.nl.m)
            m.save(name, hash_suffix=hs, folder=folder)
        if rng.random() < .5:
            for q in os.listdir(folder):
                with open(os.path.join(folder, q), "a") as fh:
                    fh.write("left,over,from,an,earlier,run\n" * 400)
        res.events["saves over an earlier one"] += 1
    if solved:
        P, _ = I.points(E.subset(X, [0]))
        P = np.where(np.isfinite(P), P, .5)
        if rng.random() < .3:
            P = P * 10 ** rng.uniform(-9, 9, P.shape) * rng.choice([-1, 1], P.shape)
        W.solve_with(m, P[:, 0], I.nl.m)
    before = copy.deepcopy(m.params)
    vals = values_of(m)
    with W.quiet():
        m.save(name, folder=folder, **({} if not hs and rng.random() < .6 else {"hash_suffix": hs}))
    files = sorted(os.listdir(folder))
    csvs = [f for f in files if f.endswith(".csv")]
    if len(csvs) != 1 or files != sorted([csvs[0], csvs[0] + ".params.json"]):
        res.fail(f"saving wrote {files}", user=u)
        return
    if (csvs[0] != name + ".csv") if not hs else not re.fullmatch(re.escape(name) + r"_\w+\.csv", csvs[0]):
        res.fail(f"saving as {name!r} (hash {hs}) wrote {csvs[0]}", user=u)
    if not same(before, m.params) or not all(vals[k] == v for k, v in values_of(m).items()):
        res.fail("saving changed the model", user=u)
    with open(os.path.join(folder, csvs[0]), newline="") as fh:
        rows = list(csv.reader(fh))
    years = [float(f"{y:.6g}") for y in c.years]
    head = rows[0]
    try:
        got_years = [float(x) for x in head[3:]]
    except ValueError:
        got_years = head[3:]
    if head[:3] != ["Variable", "Region", "Unit"] or got_years != years:
        res.fail(f"columns are {head[:6]}..., years {years[:3]}... expected", user=u)
        return
    want = expected_rows(m)
    seen = {}
    for r in rows[1:]:
        key = (r[0], r[1])
        if key in seen:
            res.fail(f"two rows for {key}", user=u)
        seen[key] = r
    if set(seen) != set(want):
        res.fail(f"rows missing {sorted(set(want) - set(seen))[:3]}, unexpected {sorted(set(seen) - set(want))[:3]}", user=u)
    docs = {(v, r) for v, k in M.variables(c).items() for r in (c.regions if k == "r" else ["Global"])} | \
           {(v, r) for v in ("population", "baseline_GDP", "baseline_emissions") for r in c.regions}
    lost = sorted(k for k in docs if k not in seen)
    if lost:
        res.fail(f"documented variables without a row: {lost[:3]}", user=u)
    for key in set(seen) & set(want):
        unit, v = want[key]
        r = seen[key]
        res.evals += 1
        if r[2] != unit:
            res.fail(f"unit of {key[0]} is saved as {r[2]!r}, the variable has {unit!r}", user=u)
        if r[2] not in ("", "dimensionless") and key[0] in UNITS:
            if unit_parts(r[2]) != unit_parts(UNITS[key[0]]):
                res.fail(f"{key[0]} is in {UNITS[key[0]]}, saved with the unit {r[2]!r}", user=u)
            res.events["units judged"] += 1
        if len(r) != 3 + len(years):
            res.fail(f"row {key} has {len(r) - 3} values for {len(years)} years", user=u)
            continue
        for t, (a, b) in enumerate(zip(r[3:], v)):
            res.events["saved values compared"] += 1
            if not six(a, b):
                res.fail(f"{key[0]} {key[1]} in {years[t]:g} is saved as {a}, the model has {b!r}", user=u)
        res.saw(key[0], key[1], solved)
    # data against the documented database
    for var, ref in (("population", c.POP), ("baseline_GDP", c.GDP0), ("baseline_emissions", c.BL0)):
        for q, r in enumerate(c.regions):
            if (var, r) in seen:
                for t in range(c.T):
                    if not abs(float(seen[var, r][3 + t]) - ref[t, q]) <= 6e-6 * np.abs(ref[:, q]).max():
                        res.fail(f"saved {var} of {r} in {years[t]:g} is not the scenario's value", user=u)
    # the parameter file
    par = json.load(open(os.path.join(folder, csvs[0] + ".params.json")))
    if not same(par, json.loads(json.dumps(m.params))):
        res.fail("the parameter file does not hold the model's parameters", user=u)
    m2 = W.build(par)
    a, b = W.capture_text(W.build(copy.deepcopy(u))), W.capture_text(m2)
    d = nl_diff(a, b)
    if d:
        res.fail(f"the model rebuilt from the parameter file differs in {d}", user=u)
    res.events["models rebuilt from the parameter file"] += 1

    # names with the parameter hash
    def named(model):
        f = scratch()
        with W.quiet():
            model.save(*([label] if label else []), hash_suffix=True, folder=f)
        return [x for x in os.listdir(f) if x.endswith(".csv")][0]
    label = pick(rng, ["h", "h", "h", None])
    n1, n2 = named(m), named(W.build(copy.deepcopy(u)))
    if n1 != n2:
        res.fail(f"equal parameters give the names {n1} and {n2}", user=u)
    names = {n1: m.params}
    for k, v in neighbours(rng, u, c):
        # equal but for one group of parameters
        try:
            mv = W.build(C.setu(u, (k, v)))
        except Exception:
            continue
        n = named(mv)
        res.events["hashed names compared"] += 1
        res.saw("hash", k)
        if n in names and not same(names[n], mv.params):
            res.fail(f"different parameters ({k} = {v!r}) give the same name {n}", user=u)
        names[n] = mv.params
    for _ in range(2):
        s = pick(rng, [s for s in R.SPEC if s["type"] in ("float", "bool", "enum", "quantity") and s["path"][0] not in ("model", "time", "SSP", "regionstype", "simulation", "effort sharing")])
        from .input_checks import good_value
        v, _ = good_value(rng, s)
        k = " - ".join(s["path"])
        if s["type"] == "quantity" and v is not False:
            v = v if "-" not in str(v)[:1] else str(v)[1:]
        try:
            mv = W.build(C.setu(u, (k, v)))
        except Exception:
            continue
        n = named(mv)
        res.events["hashed names compared"] += 1
        if n in names and not same(names[n], mv.params):
            res.fail(f"different parameters ({k} = {v!r}) give the same name {n}", user=u)
        if n not in names and any(same(p, mv.params) for p in names.values()):
            res.fail(f"equal parameters give the different name {n}", user=u)
        names[n] = mv.params
    if res.sample is None:
        res.sample = dict(config=u, file=csvs[0], rows=len(rows), hashed=sorted(names))


def neighbours(rng, u, c):
    """the same configuration with one group of parameters changed"""
    p = R.full_params(u)
    reg = dict(p["regions"])
    first = next(iter(reg))
    other = [r for r in C.ALLR if r not in reg]
    years = [float(y) for y in c.years]
    inp = dict(R.SPEC_BY["input - variables - GDP"]["default"])
    out = [("SSP", "SSP1" if p["SSP"] != "SSP1" else "SSP3"),
           ("regions", {**reg, str(pick(rng, other)): {}}), ("regions", {**reg, first: {**(reg[first] or {}), "economics": {"init_capital_factor": 2.4375}}}),
           ("time - start", p["time"]["start"] + 1), ("time - end", p["time"]["end"] + 1), ("time - dt", p["time"]["dt"] * 1.25),
           ("simulation - constraint_variables", {"relative_abatement": {y: {r: .1 for r in c.regions} for y in years}}),
           ("simulation - custom_mapping", {"MAC_scaling_factor": {r: .66 for r in c.regions}}),
           ("simulation - deactivated_constraints", ["regional_inertia"]),
           ("input - variables - GDP", {**inp, "scenario": "SSP1-Ref-SPA0-V17" if p["SSP"] != "SSP1" else "SSP3-Ref-SPA0-V15"}),
           ("model - welfare module", "cost_minimising" if p["model"]["welfare module"] != "cost_minimising" else "welfare_loss_minimising"),
           ("model - objective module", "globalcosts" if p["model"]["objective module"] != "globalcosts" else "utility"),
           ("effort sharing - regime", "equal_mitigation_costs" if p["effort sharing"]["regime"] != "equal_mitigation_costs" else "noregime"),
           ("effort sharing - percapconv_year", 2077)]
    return [out[k] for k in rng.choice(len(out), 3, replace=False)]


def known_c08(res):
    """recorded findings: values for single parameters in a custom mapping"""
    base = {"regions": {"USA": {}, "CHN": {}}, "time": {"start": 2020, "end": 2060, "dt": 10.0}}
    u = C.setu(base, ("simulation - custom_mapping", {"MAC_beta": {None: 2.0}}))
    f = scratch()
    m = W.build(u)
    with W.quiet():
        m.save("k", folder=f)
    try:
        m2 = W.build(json.load(open(f + "/k.csv.params.json")))
        if nl_diff(W.capture_text(m), W.capture_text(m2)):
            raise ValueError("another problem")
    except Exception:
        res.known.append("a custom mapping of a single (not indexed) parameter, {name: {None: value}}, comes back from the saved params.json "
                         "with the text key 'null' and the model cannot be rebuilt from it")
    u = C.setu(base, ("simulation - custom_mapping", {"population": {(t, r): 1.5 for t in range(5) for r in base["regions"]}}))
    m = W.build(u)
    try:
        with W.quiet():
            m.save("k2", folder=f)
        W.build(json.load(open(f + "/k2.csv.params.json")))
    except TypeError:
        res.known.append("a model whose custom mapping gives values per year and region (keys (year index, region)) cannot be saved: the parameter file "
                         "cannot hold such keys (TypeError in json.dump)")


# ------------------------------------------------------------------------- C09
def bad_answers():
    sol = 'cp "$D/answer.sol" "$base.sol"\n'

    def code(n, msg):
        return ("sol", n, msg)
    return {
        "error likely": code(100, "Ipopt 3.14.12: Optimal solution indicated, but error likely"),
        "infeasible": code(200, "Ipopt 3.14.12: Converged to a locally infeasible point. Problem may be infeasible."),
        "iteration limit": code(400, "Ipopt 3.14.12: Maximum Number of Iterations Exceeded."),
        "time limit": code(401, "Ipopt 3.14.12: Maximum CPU time exceeded."),
        "unbounded": code(300, "Ipopt 3.14.12: Diverging iterates."),
        "search direction": code(500, "Ipopt 3.14.12: Error in step computation!"),
        "restoration failed": code(501, "Ipopt 3.14.12: Restoration failed"),
        "invalid number": code(501, "Ipopt 3.14.12: Error evaluating functions"),
        "no answer": "exit 0\n", "exit 1": "exit 1\n", "exit 1 with junk": 'echo junk > "$base.sol"\nexit 1\n',
        "killed": "kill -9 $$\n", "aborted": "kill -6 $$\n",
        "empty answer": ': > "$base.sol"\nexit 0\n',
        "junk answer": 'echo "junk junk" > "$base.sol"\nexit 0\n',
        "header only": 'head -4 "$D/answer.sol" > "$base.sol"\nexit 0\n',
        "half an answer": 'n=$(wc -l < "$D/answer.sol"); head -$((n/2)) "$D/answer.sol" > "$base.sol"\nexit 0\n',
        "all but the end": 'n=$(wc -l < "$D/answer.sol"); head -$((n-5)) "$D/answer.sol" > "$base.sol"\nexit 0\n',
        "words for numbers": 'sed "20s/.*/abc/" "$D/answer.sol" > "$base.sol"\nexit 0\n',
        "directory for an answer": 'mkdir "$base.sol"\nexit 0\n',
    }


def status_text(m):
    return str(getattr(m, "status", None))


def c09(res, seed, i, tier):
    rng = rng_for("C09", seed, i)
    u = small(rng, i, relaxed=True)
    I, X, ok = solvable(u, rng)
    if I.dead:
        res.fail(f"legal configuration: {I.dead}", user=u)
        return
    m = W.build(copy.deepcopy(u))       # a model that has not been solved yet
    nl = I.nl
    d = W.stub_dir()
    P, _ = I.points(X)
    P = np.where(np.isfinite(P), P, .5)
    answers = bad_answers()
    if status_text(m) == "ok":
        res.fail("the status is ok before anything was solved", user=u)
    names = sorted(answers)
    steps = [names[(i + 7 * k) % len(names)] if rng.random() < .6 else "good" for k in range(int(rng.integers(4, 9)))]
    if rng.random() < .5:
        steps = ["good"] + steps
    steps[-1] = "good"
    solved = 0
    for q, s in enumerate(steps):
        n = int(rng.integers(P.shape[1]))
        kw = {}
        if rng.random() < .4:
            kw["ipopt_maxiter"] = int(rng.integers(1, 5000)) if rng.random() < .8 else 0
        if rng.random() < .3:
            kw["ipopt_output_file"] = os.path.join(W.setup(), f"out{rng.integers(1000)}.txt")
        if rng.random() < .2:
            kw["halt_on_ampl_error"] = pick(rng, ["yes", "no"])
        if rng.random() < .2:
            kw["verbose"] = True
        remote = bool(rng.random() < .25)
        forced = None
        if remote:
            W.neos()
            kw = {"use_neos": True, "neos_email": f"user{rng.integers(99)}@example.org"}
            if s != "good" or rng.random() < .15:
                from pyomo.opt import SolverStatus
                if rng.random() < .4:
                    # the service answers, but reports no success
                    W.Neos.forced = forced = pick(rng, [SolverStatus.unknown, SolverStatus.aborted, SolverStatus.error, SolverStatus.warning])
                    s = "good"
        W.write_sol(d + "/answer.sol", P[:, n], nl.m)
        a = answers.get(s)
        if s == "good":
            msg = pick(rng, ["Ipopt 3.14.12: Optimal Solution Found", "Ipopt 3.14.12: Optimal Solution Found"])
            W.write_sol(d + "/answer.sol", P[:, n], nl.m, 0, msg)
            W.behave(W.ANSWER)
        elif isinstance(a, tuple):
            W.write_sol(d + "/answer.sol", P[:, n], nl.m, a[1], a[2])
            W.behave('cp "$D/answer.sol" "$base.sol"\nexit ' + pick(rng, ["0", "0", "1"]) + "\n")
        else:
            W.behave(a)
        with contextlib.suppress(FileNotFoundError):
            os.remove(d + "/args")
        err = None
        try:
            W.solve_raw(m, **kw)
        except Exception as e:
            err = e
        res.evals += 1
        before = steps[q - 1] if q else "start"
        res.saw(before == "good", before if before in answers else "", s, bool(kw), remote, str(forced))
        if remote:
            res.events["remote solves"] += 1
            if W.Neos.asked != [("ipopt", kw["neos_email"])]:
                res.fail(f"the remote service was asked {W.Neos.asked}, expected ipopt for {kw['neos_email']}", user=u)
        if forced is not None:
            steps[q] = "no success"
            if err is None:
                res.fail(f"the remote solver reports '{forced}' and no error is raised", user=u, steps=steps)
            if status_text(m) == "ok":
                res.fail(f"the status is ok although the remote solver reports '{forced}'", user=u, steps=steps)
        elif s == "good":
            solved += 1
            if err is not None:
                res.fail(f"a successful solve (after {before}) raises {type(err).__name__}: {str(err)[:200]}", user=u, steps=steps)
                continue
            if status_text(m) != "ok":
                res.fail(f"the status after a successful solve is {status_text(m)}", user=u, steps=steps)
            vals = values_of(m)
            wrong = [(k, vals.get(k), P[j, n]) for k, j in I.cols.items() if vals.get(k) is None or not abs(vals[k] - P[j, n]) <= 1e-9 * (abs(P[j, n]) + 1e-9)]
            res.events["values compared"] += len(I.cols)
            if wrong:
                k, v, w = wrong[0]
                res.fail(f"after a successful solve (after {before}) {k[0]}{list(k[1])} holds {v!r}, the solution has {w!r} ({len(wrong)} such values)", user=u, steps=steps)
        else:
            res.events["bad answers given"] += 1
            if err is None:
                res.fail(f"the solver's answer is '{s}' and no error is raised", user=u, steps=steps)
            if status_text(m) == "ok":
                res.fail(f"the status is ok although the solver's answer is '{s}' (after {before})", user=u, steps=steps)
        if kw and not remote and os.path.exists(d + "/args"):
            told = open(d + "/args").read() + open(d + "/env").read()
            for f in ("ipopt.opt",):
                if os.path.exists(f):
                    told += open(f).read()
            for k in ("ipopt_maxiter", "ipopt_output_file"):
                if k in kw:
                    nm = {"ipopt_maxiter": "max_iter", "ipopt_output_file": "output_file"}[k]
                    res.events["options looked for"] += 1
                    if not re.search(nm + r"\W+" + re.escape(str(kw[k])) + r"\b", told):
                        res.fail(f"the solver was not given {nm}={kw[k]}", user=u, told=told[:500])
            if "ipopt_maxiter" not in kw and re.search(r"max_iter\W", told):
                res.fail("the solver was given an iteration limit nobody asked for", told=told[:500])
    # no solver at all
    if rng.random() < .3:
        path = os.environ["PATH"]
        os.environ["PATH"] = "/nonexistent"
        try:
            W.solve_raw(m)
            res.fail("no solver is installed and no error is raised", user=u)
        except Exception:
            pass
        finally:
            os.environ["PATH"] = path
        if status_text(m) == "ok":
            res.fail("the status is ok although there is no solver", user=u, steps=steps)
        res.saw("no solver")
        W.write_sol(d + "/answer.sol", P[:, 0], nl.m)
        W.behave(W.ANSWER)
        try:
            W.solve_raw(m)
        except Exception as e:
            res.fail(f"a successful solve after one without solver raises {type(e).__name__}: {e}", user=u)
    if res.sample is None:
        res.sample = dict(config=u, steps=steps, observed=dict(res.events))


# ------------------------------------------------------------------------- C10
def raw_model(user):
    """the problem as stated, without elimination of variables"""
    mi = W.mimosa()
    if not hasattr(mi.MIMOSA, "preprocessing") or not hasattr(mi.MIMOSA, "postprocessing"):
        return None
    cls = type("Raw", (mi.MIMOSA,), {"preprocessing": lambda self: None, "postprocessing": lambda self: None})
    with W.quiet():
        return cls(copy.deepcopy(user))


def c10(res, seed, i, tier):
    rng = rng_for("C10", seed, i)
    if i == 0:
        u = C.gen_user(rng, 0, plain=.3, modules={"emissiontrade module": "emissiontrade", "financialtransfer module": "globaldamagepool"})
        u["regions"] = {r: {} for r in C.ALLR}
        u["time"] = {"start": 2020, "end": 2110, "dt": 15.0}
    else:
        u = C.gen_user(rng, i, maxT=14, relaxed=rng.random() < .7, nreg=int(pick(rng, [1, 2, 2, 3, 4, 5])))
        r = rng.random()
        if r < .15:
            u = C.setu(u, ("economics - GDP - savings rate", float(pick(rng, [0, 1]))))
        elif r < .3:
            u = C.setu(u, ("emissions - baseline carbon intensity", False), ("economics - MAC - LBD_rate", 1.0))
        elif r < .4:
            u = C.setu(u, ("economics - damages - scale factor", 0.0))
        elif r < .6 and len(u["regions"]) > 1:
            # variables linked to one that is settled by the data alone
            u = C.setu(u, ("economics - GDP - savings rate", float(pick(rng, [0, 1]))), ("economics - GDP - alpha", 0.0),
                       ("economics - MAC - gamma", "0 USD2005/tCO2"), ("economics - damages - ignore damages", True), ("model - financialtransfer module", "notransfer"),
                       ("model - emissiontrade module", "notrade"))
        elif r < .7:
            # an almost free abatement, as in the documented baseline run
            u = C.setu(u, ("economics - MAC - gamma", pick(rng, ["1 USD2005/tCO2", "0.2 USD2005/tCO2", "0.01 USD2005/tCO2"])))
    raw = raw_model(u)
    Iw = E.Instance(u, model=raw) if raw is not None else None
    I = E.Instance(u)
    if I.dead or (Iw is not None and Iw.dead):
        if Iw is not None and bool(I.dead) != bool(Iw.dead):
            res.fail(f"with elimination: {I.dead}; without: {Iw.dead}", user=u)
        elif "savings rate" not in str(u):
            res.fail(f"legal configuration: {I.dead}", user=u)
        return
    c = I.c
    run = C.Run(u)
    pol = C.random_policy(c, rng)
    RE = C.ramps(c, rng, 16)
    X = run.add(RE, "ramp", pol)
    ok = C.good(c, X)
    n0 = ok[0] if ok else 0
    mt = C.mutants(c, rng, X, n0, RE[n0], pol, None, 500)
    if mt:
        run.parts.append(mt)
    X, metas = run.data()
    a, wa, _ = I.evaluate(X)
    if Iw is not None:
        b, wb, _ = Iw.evaluate(X)
        res.evals += len(metas)
        for n in np.where(a != b)[0]:
            # not judged within rounding of the acceptance threshold
            if (wa[n] if not a[n] else wb[n]) < 1e-7:
                res.events["too close to call"] += 1
                continue
            res.fail(f"a trajectory ({metas[n]}) {'satisfies' if b[n] else 'violates'} the problem as stated and "
                     f"{'satisfies' if a[n] else 'violates'} the problem given to the solver", user=u, meta=metas[n])
            break
        res.events["verdicts equal"] += int((a == b).sum())
        res.events["admitted"] += int(a.sum())
        for n in np.where((a == b) & ~a)[0]:
            if metas[n]["kind"] == "mutant":
                res.saw(metas[n]["var"], metas[n]["t"], metas[n]["r"])
        elim = set(I.cols) ^ set(Iw.cols)
        res.events["variables fixed before solving"] += len([k for k in Iw.cols if k not in I.cols])
        res.events["variables merged before solving"] += len(I.cols) - len(set(I.cols.values()))
    # reported values, several solves of one model
    m = I.model
    order = [int(n) for n in np.where(a)[0]]
    rng.shuffle(order)
    for n in order[:4]:
        if metas[n]["kind"] != "compliant":
            continue
        P, _ = I.points(E.subset(X, [n]))
        W.solve_with(m, P[:, 0], I.nl.m)
        vals = values_of(m)
        res.events["solves"] += 1
        none = [k for k, v in vals.items() if v is None and not (k[1][0] == 0 and k[0] in M.UNDEF0)]
        if none:
            res.fail(f"after solving {none[0][0]}{list(none[0][1])} has no value", user=u)
        if Iw is not None:
            Q = np.zeros((Iw.nl.n, 1))
            miss = 0
            for k, j in Iw.cols.items():
                v = vals.get(k)
                Q[j, 0] = np.nan if v is None else v
            v = Iw.nl.violation(Q)[:, 0]
            res.evals += Iw.nl.m
            res.events["stated rows checked at reported values"] += Iw.nl.m
            bad = np.where(v > 1e-6)[0]
            if len(bad):
                k = bad[np.argmax(v[bad])]
                res.fail(f"the reported values violate the stated {Iw.nl.rows[k]} (relative {v[k]:.3g})", user=u)
        if metas[n]["kind"] == "compliant" and n in ok:
            for name, kind in M.variables(c).items():
                if name == "effort_sharing_common_level":
                    continue
                for (nm, idx), v in vals.items():
                    if nm != name or (idx[0] == 0 and nm in M.UNDEF0):
                        continue
                    if Iw is not None and (nm, idx) not in Iw.cols:
                        continue          # in no stated relation (all its coefficients are zero)
                    ref = I.get(X, nm, idx)[n]
                    res.events["reported values compared"] += 1
                    if v is None or not abs(v - ref) <= 1e-6 * (abs(ref) + 1e-4):
                        # only when the variable is one the preprocessing eliminated
                        if (nm, idx) not in I.cols or list(I.cols.values()).count(I.cols[nm, idx]) > 1:
                            res.fail(f"the reported {nm}{list(idx)} is {v!r}, the solution implies {float(ref)!r}", user=u)
    if res.sample is None:
        res.sample = dict(config=u, raw=None if Iw is None else (Iw.nl.n, Iw.nl.m), reduced=(I.nl.n, I.nl.m), observed=dict(res.events))


# ------------------------------------------------------------------- C26 / C27
PATHABLE_R = ["regional_emissions", "regional_emissions", "relative_abatement", "carbonprice", "mitigation_costs", "GDP_net", "consumption", "regional_emission_reduction", "baseline"]
PATHABLE_G = ["global_emissions", "global_emissions", "temperature", "cumulative_emissions", "yearly_welfare"]


def other_years(rng, years):
    """the years of an imposed path -> (years, index of the model year at each or -1)"""
    k = rng.random()
    own = [(float(y), t) for t, y in enumerate(years)]
    if k < .5:
        return own
    if k < .8 or len(years) < 6:     # more years than the model has
        more = {float(y) for y in np.round((years[1:] + years[:-1]) / 2, 1) if rng.random() < .5}
        more |= {float(y) for y in np.arange(years[-1] + 5, 2151, 5) if rng.random() < .5} | ({float(years[0] - 5)} if rng.random() < .3 else set())
        return sorted(own + [(y, -1) for y in more if all(abs(y - z) > .3 for z, _ in own)])
    keep = sorted(rng.choice(len(years), int(rng.integers(4, len(years))), replace=False))
    return [own[j] for j in keep]


def on_years(rng, a, grid):
    """values of a path on those years: exactly the model's in the model's years, anything smooth elsewhere"""
    pos = [j for j, (_, t) in enumerate(grid) if t >= 0]
    x = np.interp([y for y, _ in grid], [grid[j][0] for j in pos], [a[grid[j][1]] for j in pos])
    x *= 1 + .02 * rng.normal(size=len(x))
    for j in pos:
        x[j] = a[grid[j][1]]
    return x


def write_output(path, c, X, n, extra=True, rng=None, grid=None):
    """a saved output file of some other run (as save() writes it)"""
    grid = grid or [(y, t) for t, y in enumerate(c.years)]
    rows = []
    for v, k in M.variables(c).items():
        for q, r in enumerate(c.regions if k == "r" else ["Global"]):
            a = X[v][n, :, q] if k == "r" else X[v][n]
            a = np.where(np.isnan(a), 0.0, a)
            rows.append([v, r, ""] + [f"{x:.6g}" for x in (on_years(rng, a, grid) if rng is not None else a)])
        if rng is not None:     # another run has more: regions, and rows of parameters and of other variables whose names look alike
            if k == "r" and rng.random() < .5:
                rows.append([v, "NOWHERE", "x"] + [f"{x:.6g}" for x in rng.uniform(1, 9, len(grid))])
            if rng.random() < .5:
                for r in (c.regions if k == "r" else ["Global"]):
                    rows.append([v + pick(rng, ["_2", " ", "_rel", "s"]), r, "y"] + [f"{x:.6g}" for x in rng.uniform(1, 9, len(grid))])
    if rng is not None:
        for v in ("baseline_GDP", "baseline_emissions", "population", "baseline_carbon_intensity", "carbonprice_2", "GDP", "old_temperature"):
            for r in c.regions:
                rows.append([v, r, "currency_unit"] + [f"{x:.6g}" for x in rng.uniform(1, 9, len(grid))])
        if rng.random() < .5:
            rng.shuffle(rows)
    with open(path, "w", newline="") as fh:
        w = csv.writer(fh)
        w.writerow(["Variable", "Region", "Unit"] + [f"{y:g}" for y, _ in grid])
        w.writerows(rows)


def sim_case(rng, i):
    """a configuration, a base trajectory and imposed paths"""
    for _ in range(30):
        u = C.gen_user(rng, i, maxT=12, relaxed=True, nreg=int(pick(rng, [1, 2, 2, 3])))
        u = C.mild(rng, u) if rng.random() < .5 else u
        c = M.Cfg(u)
        if c.T < 4 or len({f"{y:g}" for y in c.years}) < c.T or not all(float(f"{y:g}") == y for y in c.years):
            continue
        pol = C.random_policy(c, rng)
        RE = C.ramps(c, rng, 12)
        X = M.simulate(c, RE, policy=pol)
        ok = C.good(c, X)
        if ok:
            return u, c, X, ok[0], RE[ok[0]], pol
    return None


def towards(c, RE0, X0, n0, pol, var, t, q, goal):
    """emission paths that move variable var at (t, region q) by `goal` (array of offsets)"""
    N = len(goal)
    reg = X0[var].ndim == 3
    get = (lambda X: X[var][:, t, q]) if reg else (lambda X: X[var][:, t])
    base = get(X0)[n0]
    tt = max(t, 1)
    s = np.full(N, 1e-4 * c.BL0[0].mean())
    RE = np.repeat(RE0[None], N, axis=0)
    done = None
    for _ in range(6):
        R2 = RE.copy()
        if reg:
            R2[:, tt, q] += s
        else:
            R2[:, tt] += s[:, None] / c.R
        X = M.simulate(c, R2, policy=pol)
        d = get(X) - base
        if done is not None and np.nanmax(np.abs(d - goal)) < 1e-9:
            break
        with np.errstate(all="ignore"):
            f = goal / d
        f = np.where(np.isfinite(f), f, 1.0)
        f = np.clip(f, -1e6, 1e6)
        s = s * f
        done = True
    R2 = RE.copy()
    if reg:
        R2[:, tt, q] += s
    else:
        R2[:, tt] += s[:, None] / c.R
    return R2


def path_slack(c, X, paths):
    """paths: {var: array (T,R) or (T,) of imposed values (nan: not imposed)}"""
    out = {}
    for v, p in paths.items():
        out["path:" + v] = 1e-3 - np.abs(X[v] - p[None])     # nan where nothing is imposed
    return out


for _v in set(PATHABLE_R + PATHABLE_G):
    M.LIMIT_PROP["path:" + _v] = "C26"


def imposed(rng, c, X, n0, names, form):
    """-> (parameter value, {var: values (nan: not imposed in that year)}) for the imposed variables"""
    par, paths = {}, {}
    d = scratch()
    grid = other_years(rng, c.years)
    there = np.isin(np.arange(c.T), [t for _, t in grid])
    if form in ("csv", "glob"):
        other = int(rng.integers(1e6))
        f = f"{d}/out_{other}.csv"
        write_output(f, c, X, n0, rng=rng, grid=grid)
        if form == "glob":
            open(f"{d}/other.txt", "w").write("x")
            f2 = pick(rng, [f"{d}/out_*.csv", f"{d}/*.csv", f"{os.path.dirname(d)}/{os.path.basename(d)[:-1]}*/out_{other}.csv"])
        else:
            f2 = f
        for v in names:
            par[v] = f2
            paths[v] = np.vectorize(lambda x: float(f"{0.0 if np.isnan(x) else x:.6g}"))(X[v][n0])
            paths[v][~there] = np.nan
        return par, paths
    ykind = pick(rng, [int, float, str]) if all(y == int(y) for y, _ in grid) else pick(rng, [float, str])
    for v in names:
        holes = []
        a = np.where(np.isnan(X[v][n0]), 0.0, X[v][n0])
        key = lambda y: f"{y:g}" if ykind is str else ykind(y)
        full = on_years(rng, a[:, 0], grid) if a.ndim == 2 else on_years(rng, a, grid)
        if a.ndim == 2:
            cols = [on_years(rng, a[:, q], grid) for q in range(c.R)]
            par[v] = {key(y): {r: float(cols[q][j]) for q, r in enumerate(c.regions)} for j, (y, _) in enumerate(grid)}
            if len(grid) > 7 and c.R > 1 and rng.random() < .3:
                # a region without data of its own for some of the years
                q = int(rng.integers(c.R))
                for j in rng.choice(np.arange(1, len(grid) - 2), int(rng.integers(1, len(grid) - 6)), replace=False):
                    y, t = grid[j]
                    del par[v][key(y)][c.regions[q]]
                    if t >= 0:
                        holes.append((t, q))
            if rng.random() < .3:           # regions that are not modelled do no harm
                for y in par[v]:
                    par[v][y]["NOWHERE"] = 7.0
        else:
            par[v] = {key(y): {"Global": float(full[j])} for j, (y, _) in enumerate(grid)}
        paths[v] = a.copy()
        paths[v][~there] = np.nan
        for t, q in holes:
            paths[v][t, q] = np.nan
    return par, paths


def around(rng, run, c, RE0, X0, n0, pol, names, paths, tag):
    """trajectories just inside and just outside the imposed band at every place"""
    places = [(v, t, q) for v in names for t in range(1, c.T) for q in range(c.R if X0[v].ndim == 3 else 1)]
    rng.shuffle(places)
    for v, t, q in places[:14 if len(names) < 6 else 30]:
        goal = np.array([.00097, -.00097, .00103 + 10 ** rng.uniform(-4.5, -2), -.00103 - 10 ** rng.uniform(-4.5, -2)])
        try:
            RE = towards(c, RE0, X0, n0, pol, v, t, q, goal)
        except Exception:
            continue
        run.add(RE[np.isfinite(RE).all(axis=(1, 2))], tag, pol)


def c26(res, seed, i, tier):
    rng = rng_for("C26", seed, i)
    got = sim_case(rng, i)
    if got is None:
        res.events["no suitable configuration"] += 1
        return
    u, c, X0, n0, RE0, pol = got
    names = sorted({pick(rng, PATHABLE_R + PATHABLE_G) for _ in range(int(pick(rng, [1, 1, 1, 2, 3, 40])))})
    form = pick(rng, ["dict", "dict", "csv", "glob"])
    par, paths = imposed(rng, c, X0, n0, names, form)
    partial = any(np.isnan(p).any() for p in paths.values())
    res.events["imposed paths with own years" if not partial else "imposed paths with some of the years"] += len(names)
    on = rng.random() < .8
    us = C.setu(u, ("simulation - simulationmode", on), ("simulation - constraint_variables", par))
    run = C.Run(us)
    run.c = c
    run.add(np.repeat(RE0[None], 2, axis=0), "path itself", pol)
    around(rng, run, c, RE0, X0, n0, pol, names, paths, "around")
    run.add(C.ramps(c, rng, 10), "other", pol)
    # other variables may do what they like: another trajectory with the same imposed values is decided by the oracle
    X, metas = run.data()
    extra = path_slack(c, X, paths) if on else None
    if extra:
        extra = {k: s for k, s in extra.items()}
    try:
        I = E.Instance(us, cfg=c)
    except Exception as e:
        raise
    if I.dead and not hasattr(I, "model"):
        res.fail(f"imposing {names} ({form}) fails: {I.dead}", user=us)
        return
    mm, st, pl = I.compare(X, metas, extra)
    res.evals += len(metas)
    res.events.update(st)
    res.events["simulation mode on" if on else "simulation mode off"] += 1
    for p in pl:
        res.places.add(p + (form, on))
    base_bad = None
    for m in mm:
        if m["prop"] == "C26":
            res.fail(m["what"], user=us, meta=m["meta"])
        elif m["meta"]["kind"] == "compliant" and (partial and on):
            continue        # what holds between the years of the data is not promised
        elif m["meta"]["kind"] == "compliant":
            # is it the imposed paths, or would the plain model refuse it too?
            if base_bad is None:
                plain = E.Instance(u, cfg=c)
                if plain.dead:
                    base_bad = True
                else:
                    mb, _, _ = plain.compare(X, metas)
                    base_bad = bool([x for x in mb if x["meta"]["kind"] == "compliant"])
            if not base_bad:
                res.fail(f"with imposed paths for {names} (simulation mode {on}): {m['what']}", user=us, meta=m["meta"])
    regional = [v for v in names if v in PATHABLE_R]
    if on and regional and form == "dict" and rng.random() < .4:
        # a path that says nothing about a region of the model: no problem with made up values
        v = pick(rng, regional)
        gone = pick(rng, c.regions)
        short = {y: {r: x for r, x in row.items() if r != gone} for y, row in par[v].items()}
        if rng.random() < .5:
            for y in short:
                short[y]["Global"] = 1.0
        if any(short.values()):
            ul = C.setu(us, ("simulation - constraint_variables", {**par, v: short}))
            res.evals += 1
            try:
                W.build(ul)
                res.fail(f"the path imposed on {v} has nothing for {gone}, a problem is stated all the same", user=ul)
            except Exception:
                res.events["paths without a region refused"] += 1
    if res.sample is None:
        res.sample = dict(config={k: v for k, v in us.items() if k != "simulation"}, imposed=names, form=form, on=on, observed=dict(st))


DEACT = {   # name for deactivation -> documented limits that go away
    "carbon_budget": ["carbon_budget"], "temperature_target": ["temperature_target"], "net_zero_after_2100": ["net_zero"],
    "global_inertia": ["global_inertia"], "regional_inertia": ["regional_inertia"], "global_min_level": ["global_min"],
    "regional_min_level": ["regional_min"], "non_increasing_emissions_after_2100": ["non_increasing"],
    "rel_mitigation_costs_non_negative": ["rel_mitigation_min"],
    "effort_sharing_regime_mitigation_costs_upperbound": ["effort_hi"], "effort_sharing_regime_mitigation_costs_lowerbound": ["effort_lo"],
    "effort_sharing_regime_total_costs_upperbound": ["effort_hi"], "effort_sharing_regime_total_costs_lowerbound": ["effort_lo"],
    "percapconv_rule_upperbound": ["percap_hi"], "percapconv_rule_lowerbound": ["percap_lo"],
}
# definitions that can be taken out: name -> variable (years after the first where the first has its own rule)
DEFS = {"temperature": ("temperature", 1), "capital_stock": ("capital_stock", 1), "utility": ("utility", 0), "area_under_MAC": ("area_under_MAC", 0),
        "global_rel_mitigation_costs": ("global_rel_mitigation_costs", 0), "SLR_GIS": ("slr_cumgis", 1), "investments": ("investments", 0),
        "regional_emission_reduction": ("regional_emission_reduction", 0), "yearly_welfare": ("yearly_welfare", 0), "NPV": ("NPV", 1), "LOT": ("LOT_factor", 0)}


def c27(res, seed, i, tier):
    rng = rng_for("C27", seed, i)
    mode = pick(rng, ["limits", "limits", "limits", "regime", "definition", "definition", "unknown", "off", "names"])
    run = None
    if mode == "names":
        if hasattr(W.mimosa().MIMOSA, "preprocessing"):
            return c27_names(res, rng, i)
        mode = "unknown"
    if mode in ("limits", "off"):
        run = pick(rng, [C.lim_C19, C.lim_C19, C.lim_C20, C.lim_C20, C.lim_C20, lambda r, k: C.lim_C17(r, k)])(rng, i)
        own = {"carbon_budget", "temperature_target", "net_zero_after_2100", "global_inertia", "regional_inertia", "global_min_level", "regional_min_level",
               "non_increasing_emissions_after_2100", "rel_mitigation_costs_non_negative"}
        n = int(rng.integers(1, 5))
        off = [str(x) for x in rng.choice(sorted(own), n, replace=False)]
        # most of the time the limit this run is about is among them
        X, metas = run.data()
        broken, vague = E.judge(run.c, X)
        about = sorted({b[0] for bs in broken for b in bs})
        back = {l: k for k, ls in DEACT.items() for l in ls if k in own}
        if about and rng.random() < .8:
            k = back.get(pick(rng, about))
            if k and k not in off:
                off.append(k)
    elif mode == "regime":
        reg = pick(rng, ["equal_mitigation_costs", "equal_total_costs", "per_cap_convergence"])
        run = C.lim_C23(rng, i, reg)
        stem = {"equal_mitigation_costs": "effort_sharing_regime_mitigation_costs", "equal_total_costs": "effort_sharing_regime_total_costs",
                "per_cap_convergence": "percapconv_rule"}[reg]
        off = [stem + "_" + b for b in pick(rng, [["upperbound"], ["lowerbound"], ["upperbound", "lowerbound"]])]
        X, metas = run.data()
    elif mode == "definition":
        u = C.gen_user(rng, i, maxT=12, relaxed=True)
        name = pick(rng, [k for k in sorted(DEFS) if k != "area_under_MAC" or M.Cfg(u).trade == "notrade"])
        off = [name]
        run = C.Run(u)
        c = run.c
        pol = C.random_policy(c, rng)
        RE = C.ramps(c, rng, 12)
        X = run.add(RE, "ramp", pol)
        ok = C.good(c, X)
        if not ok:
            return
        # the definition taken out, broken anywhere: now free; all others still bind
        var, first = DEFS[name]
        near = {"C11", "C12", "C16", "C17", "C24", "C25", "C13", "C18"}
        mt = C.mutants(c, rng, X, ok[0], RE[ok[0]], pol, near, 300)
        run.parts.append(mt)
        X, metas = run.data()
    else:
        u = C.gen_user(rng, i, maxT=8, relaxed=rng.random() < .5)
        known = pick(rng, sorted(DEACT)[:6])
        bad = pick(rng, ["nope", known + "s", "constraint_" + known, known.upper(), "", "carbonbudget", known[:-1], "_" + known])
        lst = [known, bad] if rng.random() < .5 else [bad, known]
        us = C.setu(u, ("simulation - simulationmode", True), ("simulation - deactivated_constraints", lst))
        res.evals += 1
        try:
            W.build(us)
            res.fail(f"the unknown constraint name {bad!r} is accepted for deactivation", user=us)
        except Exception:
            res.saw("unknown", bad)
        us = C.setu(us, ("simulation - simulationmode", False))
        try:
            W.build(us)
        except Exception as e:
            res.fail(f"the list of constraints to deactivate has an effect outside simulation mode: {e}", user=us)
        return
    on = mode != "off"
    us = C.setu(run.user, ("simulation - simulationmode", on), ("simulation - deactivated_constraints", off))
    c = run.c
    I = E.Instance(us, cfg=c)
    if I.dead and not hasattr(I, "model"):
        res.fail(f"deactivating {off} fails: {I.dead}", user=us)
        return
    gone = {l for n in off for l in DEACT.get(n, [])} if on else set()
    dv = {DEFS[n][0]: DEFS[n][1] for n in off if n in DEFS} if on else {}
    I.loose = set(dv)
    # judge without the limits that were taken out
    real = M.slacks

    def slacks(c_, X_):
        return {k: v for k, v in real(c_, X_).items() if k not in gone}
    M.slacks = slacks
    try:
        mm, st, pl = I.compare(X, metas)
        if mm and mode == "regime" and len(off) == 1:
            # which half of a two-sided rule is called which is not documented: exactly one must go
            flip = off[0].replace("upper", "LOWER").replace("lower", "upper").replace("LOWER", "lower")
            gone = {l for l in DEACT.get(flip, [])}
            mm2, st2, pl2 = I.compare(X, metas)
            if not mm2:
                mm, st, pl = mm2, st2, pl2
                res.events["halves of a rule called the other way round"] += 1
    finally:
        M.slacks = real
    res.evals += len(metas)
    res.events.update(st)
    res.events[mode] += 1
    for p in pl:
        res.places.add(p + tuple(sorted(off)))
    plain = None
    if dv:
        # mutants of the definition taken out must be admitted
        acc = None
        if not I.dead:
            acc, worst, _ = I.evaluate(X)
            broken, vague = E.judge(c, X)
            (var, first), = dv.items()
            for n, me in enumerate(metas):
                if me["kind"] == "mutant" and me["var"] == var and me["t"] >= max(first, 1) and not vague[n] and not broken[n]:
                    res.events["freed places tried"] += 1
                    if not acc[n]:
                        plain = plain or plain_bad(run.user, c, X, metas)
                        if not plain["compliant"]:
                            res.fail(f"constraint {off[0]} is deactivated but {var} still binds at year {c.years[me['t']]:g}"
                                     f"{' in ' + me['r'] if me.get('r') else ''}", user=us, meta=me)
                            break
                    else:
                        res.saw("freed", var, me["t"], me.get("r"))
    for m in mm:
        me = m["meta"]
        if me["kind"] == "mutant" and me["var"] in dv:
            continue
        # the plain model (nothing deactivated) tells whether the cause is the deactivation
        plain = plain or plain_bad(run.user, c, X, metas)
        key = (json.dumps(me, default=str, sort_keys=True), m["what"][:60])
        if me["kind"] == "compliant" and plain["compliant"] or me["kind"] == "mutant" and key in plain["keys"]:
            res.events["differences of the plain model"] += 1
            continue
        if key in plain["keys"]:
            continue
        res.fail(f"with {off} deactivated (simulation mode {on}): {m['what']}", user=us, meta=me)
    if res.sample is None:
        res.sample = dict(mode=mode, deactivated=off, observed=dict(st))


def c27_names(res, rng, i):
    """any of the constraint names of a problem: with some of them deactivated, exactly their conditions are gone"""
    from pyomo.environ import Constraint, Var
    u = C.gen_user(rng, i, maxT=6, relaxed=rng.random() < .3)

    def rows(m):
        return {d.name for d in m.component_data_objects(Constraint, active=True)}
    mi = W.mimosa()
    cls = type("Raw", (mi.MIMOSA,), {"preprocessing": lambda self: None, "postprocessing": lambda self: None})
    with W.quiet():
        m0 = cls(u).concrete_model
    all0 = rows(m0)
    names = sorted({c.name[len("constraint_"):] for c in m0.component_objects(Constraint)
                    if c.name.startswith("constraint_") and not c.name[len("constraint_"):].isdigit()})
    short = [a for a in names if any(b != a and (a in b) for b in names)]
    for k in range(6):
        off = [str(x) for x in rng.choice(names, int(rng.integers(1, 5)), replace=False)]
        if short and k < 3:
            off = [pick(rng, short)]
        us = C.setu(u, ("simulation - simulationmode", True), ("simulation - constraint_variables", {}), ("simulation - deactivated_constraints", off))
        try:
            with W.quiet():
                m = cls(us).concrete_model
        except Exception as e:
            res.fail(f"deactivating {off} fails: {type(e).__name__}: {e}", user=us)
            return
        res.evals += 1
        want = {n for n in all0 if n.split("[")[0] not in {"constraint_" + o for o in off}}
        have = rows(m)
        if have != want:
            res.fail(f"asked to deactivate {off}: {sorted(want - have)[:3]} are gone as well" if want - have else
                     f"asked to deactivate {off}: {sorted(have - want)[:3]} are still there", user=us)
            return
        res.saw("names", *off)
        res.events["sets of names deactivated"] += 1
        for v0, v1 in zip(m0.component_data_objects(Var), m.component_data_objects(Var)):
            if (v0.name, v0.bounds, v0.fixed) != (v1.name, v1.bounds, v1.fixed):
                res.fail(f"deactivating {off} changes the variable {v0.name}: {v0.bounds} -> {v1.bounds}", user=us)
                return


def plain_bad(user, c, X, metas):
    I = E.Instance(user, cfg=c)
    mm, _, _ = I.compare(X, metas)
    n_ok = [m for m in mm if m["meta"]["kind"] == "compliant" and "refused" in m["what"] or "not admitted" in m["what"]]
    return dict(compliant=bool(n_ok), keys={(json.dumps(m["meta"], default=str, sort_keys=True), m["what"][:60]) for m in mm})


# ------------------------------------------------------------------------- C29
GLOBAL_LINK = {"global_emissions", "cumulative_emissions", "emission_relative_cumulative", "NPV", "yearly_welfare", "global_carbonprice",
               "global_rel_mitigation_costs", "global_emission_reduction_per_cost_unit", "global_cost_per_emission_reduction_unit", "effort_sharing_common_level"}


def permuted(X, perm):
    return {k: (v[:, :, perm] if v.ndim == 3 else v) for k, v in X.items()}


def row_set(I, region, K=3):
    """purely regional rows of one region: {(variables, fingerprint)} evaluated at points
    that depend on (variable, year) only"""
    import zlib
    nl = I.nl
    byc = {}
    for (n, idx), j in I.cols.items():
        byc.setdefault(j, []).append((n, idx))
    P = np.zeros((nl.n, K))
    for j, ks in byc.items():
        n, idx = ks[0]
        g = np.random.default_rng([zlib.crc32(f"{n}|{idx}".encode())])
        P[j] = g.uniform(.3, 1.7, K)
    with np.errstate(all="ignore"):
        B, _ = nl.body(P)
    out = {}
    for q in range(nl.m):
        ks = [k for j in nl.row_vars[q] for k in byc.get(j, [(nl.cols[j], ())])]
        regs = {k[1][1] for k in ks if len(k[1]) == 2}
        if region is not None and (regs != {region} or any(k[0] in GLOBAL_LINK for k in ks)):
            continue
        out.setdefault(frozenset(ks), []).append((B[q] - (nl.lo[q] if np.isfinite(nl.lo[q]) else nl.hi[q]), np.isfinite(nl.lo[q]), np.isfinite(nl.hi[q]),
                                                  (nl.hi[q] - nl.lo[q]) if np.isfinite(nl.lo[q]) and np.isfinite(nl.hi[q]) else None))
    bounds = {}
    for j, ks in byc.items():
        if len(ks) == 1 and (region is None or len(ks[0][1]) == 2 and ks[0][1][1] == region):
            bounds[ks[0]] = (nl.xl[j], nl.xu[j])
    return out, bounds


def same_rows(a, b):
    if set(a) != set(b):
        d = set(a) ^ set(b)
        return f"rows over {sorted(next(iter(d)))[:4]}"
    for k in a:
        x, y = a[k], b[k]
        if len(x) != len(y):
            return f"number of rows over {sorted(k)[:4]}"
        for u in x:
            if not any(u[1:3] == v[1:3] and np.allclose(u[0], v[0], rtol=1e-8, atol=1e-10, equal_nan=True)
                       and (u[3] is None) == (v[3] is None) and (u[3] is None or close(u[3], v[3], 1e-8)) for v in y):
                return f"a row over {sorted(k)[:4]}"
    return None


def c29(res, seed, i, tier):
    rng = rng_for("C29", seed, i)
    n = int(pick(rng, [2, 3, 3, 4, 5]))
    mode = "permute" if i % 3 else "subset"
    if i == 1:
        u = C.gen_user(rng, 0, plain=.4)
        u["regions"] = {r: {} for r in C.ALLR}
        u["time"] = {"start": 2020, "end": 2080, "dt": 20.0}
        run = C.Run(u)
        run.add(C.ramps(run.c, rng, 10), "ramp", C.random_policy(run.c, rng))
    elif mode == "permute" and rng.random() < .5:
        f = pick(rng, [C.lim_C19, C.lim_C20, C.lim_C22, C.lim_C23, C.lim_C21])
        run = f(rng, i)
        u = run.user
    else:
        u = C.gen_user(rng, i, nreg=n, maxT=12, relaxed=rng.random() < .4)
        run = C.Run(u)
        pol = C.random_policy(run.c, rng)
        RE = C.ramps(run.c, rng, 16)
        X = run.add(RE, "ramp", pol)
        ok = C.good(run.c, X)
        mt = C.mutants(run.c, rng, X, ok[0] if ok else 0, RE[ok[0] if ok else 0], pol, None, 250)
        if mt:
            run.parts.append(mt)
    c = run.c
    X, metas = run.data()
    I = E.Instance(u, cfg=c)
    if mode == "permute":
        if c.R == 1:
            return
        perm = list(range(c.R))
        while perm == list(range(c.R)):
            rng.shuffle(perm)
        u2 = copy.deepcopy(u)
        u2["regions"] = {c.regions[p]: u["regions"][c.regions[p]] for p in perm}
        J = E.Instance(u2)
        if bool(I.dead) != bool(J.dead):
            res.fail(f"regions in the order {c.regions}: {I.dead or 'ok'}; {J.c.regions}: {J.dead or 'ok'}", user=u)
            return
        if I.dead:
            return
        # every stated row, as stated (nothing eliminated yet)
        ma, mb = raw_model(u), raw_model(u2)
        if ma is not None and mb is not None:
            A, B = E.Instance(u, cfg=c, model=ma), E.Instance(u2, cfg=J.c, model=mb)
            if not A.dead and not B.dead:
                (ra, ba), (rb, bb) = row_set(A, None), row_set(B, None)
                res.events["rows compared in two orders"] += sum(map(len, ra.values()))
                d = same_rows(ra, rb)
                if d:
                    res.fail(f"with the regions in the order {J.c.regions} instead of {c.regions} the problem differs in {d}", user=u)
                for kk in set(ba) & set(bb):
                    if ba[kk] != bb[kk] and not all(close(x, y) or x == y for x, y in zip(ba[kk], bb[kk])):
                        res.fail(f"the bounds of {kk[0]}{list(kk[1])} depend on the order of the regions", user=u)
        X2 = permuted(X, perm)
        a, wa, _ = I.evaluate(X)
        b, wb, _ = J.evaluate(X2)
        res.evals += 2 * len(metas)
        res.events["trajectories judged in two orders"] += len(metas)
        for q in np.where(a != b)[0]:
            if max(min(wa[q], 1), min(wb[q], 1)) < 1e-7:
                continue
            res.fail(f"with the regions in the order {c.regions} a trajectory is {'admitted' if a[q] else 'refused'}, "
                     f"in the order {J.c.regions} it is {'admitted' if b[q] else 'refused'} ({metas[q]})", user=u)
            break
        P, _ = I.points(X)
        Q, _ = J.points(X2)
        with np.errstate(all="ignore"):
            oa, ob = I.nl.objective(P), J.nl.objective(Q)
        fin = np.isfinite(oa) & np.isfinite(ob)
        if I.nl.obj_sense != J.nl.obj_sense or not np.allclose(oa[fin], ob[fin], rtol=1e-8, atol=1e-10):
            res.fail("the objective depends on the order of the regions", user=u)
        # results of one region
        acc = [q for q in np.where(a & b)[0] if metas[q]["kind"] == "compliant"]
        if acc:
            q = acc[0]
            W.solve_with(I.model, P[:, q], I.nl.m)
            va = values_of(I.model)
            W.solve_with(J.model, Q[:, q], J.nl.m)
            vb = values_of(J.model)
            for k, v in va.items():
                res.events["reported values compared"] += 1
                w = vb.get(k)
                if k[0] in M.UNDEF0 and k[1][0] == 0:
                    continue
                if (v is None) != (w is None) or (v is not None and not abs(v - w) <= 1e-8 * (abs(v) + 1e-6)):
                    if k in I.cols or k in J.cols or v is not None and w is not None:
                        if k not in I.cols and k not in J.cols or (k in I.cols) != (k in J.cols) or True:
                            if np.isnan(I.get(X, *k)[q]) if k[0] in X else True:
                                continue
                            res.fail(f"{k[0]}{list(k[1])} is reported as {v!r} or {w!r} depending on the order of the regions", user=u)
                            break
        res.saw(tuple(perm), tuple(c.regions), c.T, c.trade, c.transfer, c.regime)
    else:
        k = int(rng.integers(1, c.R + 1)) if c.R > 1 else 1
        sub = [str(r) for r in rng.choice(c.regions, max(1, min(k, c.R - 1)) if c.R > 1 else 1, replace=False)]
        more = [str(r) for r in rng.choice([r for r in C.ALLR if r not in c.regions], int(rng.integers(1, 3)), replace=False)]
        if rng.random() < .5 or len(sub) < 2:
            other = list(u["regions"]) + more
            keep = list(u["regions"])
            rng.shuffle(other)
        else:
            other, keep = sub, sub
        u2 = copy.deepcopy(u)
        u2["regions"] = {r: u["regions"].get(r, {}) for r in other}
        ma, mb = raw_model(u), raw_model(u2)
        if ma is None or c.R < 2 or len(other) < 2:
            return
        A, B = E.Instance(u, model=ma), E.Instance(u2, model=mb)
        if A.dead or B.dead:
            if bool(A.dead) != bool(B.dead):
                res.fail(f"regions {c.regions}: {A.dead}; {other}: {B.dead}", user=u)
            return
        for r in keep:
            ra, ba = row_set(A, r)
            rb, bb = row_set(B, r)
            res.evals += sum(map(len, ra.values()))
            res.events["regional rows compared"] += sum(map(len, ra.values()))
            d = same_rows(ra, rb)
            if d:
                res.fail(f"{r} modelled with {sorted(set(c.regions) - {r})} and with {sorted(set(other) - {r})} differs in {d}", user=u)
            for kk in set(ba) & set(bb):
                if ba[kk] != bb[kk] and not all(close(x, y) or x == y for x, y in zip(ba[kk], bb[kk])):
                    res.fail(f"the bounds of {kk[0]}{list(kk[1])} depend on the other regions", user=u)
            res.saw("subset", r, len(c.regions), len(other), c.trade, c.transfer, c.damage_module)
    if res.sample is None:
        res.sample = dict(mode=mode, config=u, observed=dict(res.events))


# ------------------------------------------------------------------------- C31
COMBOS = [(d, t, f, w, o, g) for d in ("COACCH", "nodamage") for t in ("notrade", "emissiontrade", "globalcostpool") for f in ("notransfer", "globaldamagepool")
          for w in ("welfare_loss_minimising", "cost_minimising", "inequal_aversion_general") for o in ("utility", "globalcosts")
          for g in ("noregime", "equal_mitigation_costs", "equal_total_costs", "per_cap_convergence")
          if g != "per_cap_convergence" or t == "emissiontrade"]
FREE = {"regional_emissions", "effort_sharing_common_level"}
# not determined in the first year: quantities per unit of cost, abatement where nothing is abated yet
LOOSE0 = M.UNDEF0 | {"relative_abatement"}


def undetermined(I, X, n):
    """columns that can move while every equality stays satisfied (first order) and
    the decisions of the modules stay put"""
    nl = I.nl
    P, _ = I.points(E.subset(X, [n]))
    x = P[:, 0]
    free = set(FREE)
    c = I.c
    if c.trade != "notrade":
        free.add("import_export_mitigation_cost_balance")
    if c.transfer == "globaldamagepool":
        free.add("financial_transfer")
    fixed_cols = {j for (nm, idx), j in I.cols.items() if nm in free or (idx[0] == 0 and nm in LOOSE0)}
    cols = [j for j in range(nl.n) if j not in fixed_cols]
    eq = np.where(nl.is_eq)[0]
    h = 1e-6 * (np.abs(x[cols]) + 1e-2)
    Q = np.repeat(x[:, None], 2 * len(cols), axis=1)
    for k, j in enumerate(cols):
        Q[j, 2 * k] += h[k]
        Q[j, 2 * k + 1] -= h[k]
    with np.errstate(all="ignore"):
        B, _ = nl.body(Q)
    B = B[eq]
    J = (B[:, 0::2] - B[:, 1::2]) / 2                  # change of each row for a relative step in each column
    bad = ~np.isfinite(J)
    if bad.any():
        return None, len(cols)
    sc = np.abs(J).max(axis=1)
    J = J[sc > 0] / sc[sc > 0][:, None]
    cs = np.abs(J).max(axis=0)
    lone = [cols[k] for k in np.where(cs < 1e-12)[0]]
    J = J / np.where(cs > 0, cs, 1)
    u, s, vt = np.linalg.svd(J, full_matrices=True)
    rank = int((s > 1e-9 * s[0]).sum())
    null = vt[rank:]
    return [(nl.cols[cols[int(np.argmax(np.abs(v)))]]) for v in null], len(cols)


def c31(res, seed, i, tier):
    rng = rng_for("C31", seed, i)
    d, t, f, w, o, g = COMBOS[i % len(COMBOS)]
    plain = i < len(COMBOS) and seed == 1 and rng.random() < .3
    u = C.gen_user(rng, i, nreg=int(pick(rng, [2, 2, 3] if i % 7 else [1])), maxT=8, plain=.3, relaxed=True)
    if plain:
        u = {"regions": u["regions"], "time": u["time"]}
        u = C.merge(u, C.RELAXED)
    u = C.merge(u, {"model": {"damage module": d, "emissiontrade module": t, "financialtransfer module": f, "welfare module": w, "objective module": o},
                    "effort sharing": {"regime": g}})
    if g == "per_cap_convergence" and rng.random() < .4:
        u = C.setu(u, ("effort sharing - percapconv_year", pick(rng, [False, 2100.0, 2060])) if u["time"]["start"] <= 2060 else ("effort sharing - percapconv_year", 2150))
    elif g == "per_cap_convergence":
        u = C.setu(u, ("effort sharing - percapconv_year", max(2050, u["time"]["start"])))
    if w == "inequal_aversion_general":
        full = R.full_params(u)["economics"]
        if full["elasmu"] == 1:
            u = C.setu(u, ("economics - elasmu", 1.3))
        if full["inequal_aversion"] == 1:
            u = C.setu(u, ("economics - inequal_aversion", .6))
    res.evals += 1
    combo = (d, t, f, w, o, g)
    try:
        model = W.build(u)
    except Exception as e:
        res.fail(f"the combination {combo} cannot be built: {type(e).__name__}: {str(e)[:200]}", user=u)
        return
    try:
        I = E.Instance(u, model=model)
    except Exception:
        raise
    # the regime's own limits are not the point here
    if I.dead:
        m = re.search(r"constraint '|variable '", I.dead)
        res.fail(f"the combination {combo} states no problem: {I.dead}", user=u)
        return
    c = I.c
    # every documented variable in every year and region
    from pyomo.environ import Var
    have = {(v.name, idx if isinstance(idx, tuple) else (idx,)) for v in model.concrete_model.component_objects(Var) for idx in v}
    names = {n for n, _ in have}
    for v, k in M.variables(c).items():
        if v not in names:
            res.fail(f"the combination {combo} has no variable {v}", user=u)
            continue
        for tt in range(c.T):
            for r in (c.regions if k == "r" else [None]):
                if (v, (tt,) if r is None else (tt, r)) not in have:
                    res.fail(f"the combination {combo} has no {v} in year {c.years[tt]:g}", user=u)
    pol = C.random_policy(c, rng)
    RE = C.ramps(c, rng, 12)
    X = M.simulate(c, RE, policy=pol)
    ok = np.where(X["_ok"])[0]
    if not len(ok):
        res.events["no trajectory"] += 1
        return
    n0 = int(ok[0])
    # trajectories may break the regime's bands: only the definitions are looked at
    eq = I.nl.is_eq
    P, issues = I.points(X)
    v0 = I.nl.violation(P)[eq]
    base_ok = bool((v0[:, n0] <= E.ACC).all()) and not any(dd[n0] for dd, _, _ in issues)
    res.events["combinations whose base trajectory obeys every equality"] += int(base_ok)
    mt = C.mutants(c, rng, X, n0, RE[n0], pol, None, 500)
    if mt and base_ok:
        Xm, metas = mt
        Pm, iss = I.points(Xm)
        viol = (I.nl.violation(Pm)[eq] > E.ACC).any(axis=0)
        for dd, _, _ in iss:
            viol |= dd
        bad_b = (I.nl.bound_violation(Pm) > E.ACC).any(axis=0)
        for n, me in enumerate(metas):
            if not Xm["_ok"][n] or abs(me["d"]) < 1e-6 * (1 if c.R > 1 else 10):
                continue
            res.evals += 1
            if not viol[n] and not bad_b[n]:
                if me["t"] == 0 and me["var"] in LOOSE0:
                    continue
                res.fail(f"in the combination {combo} {me['var']} is not determined at year {c.years[me['t']]:g}{' in ' + me['r'] if me['r'] else ''}", user=u, meta=me)
            else:
                res.events["places where one variable is determined"] += 1
                res.saw(me["var"], me["t"], combo)
    if I.nl.n <= 700:
        null, ncol = undetermined(I, X, n0)
        if null is None:
            res.events["jacobian not finite"] += 1
        else:
            res.events["jacobians of full rank"] += int(not null)
            res.events["columns in jacobians"] += ncol
            if null:
                res.fail(f"in the combination {combo} variables are not determined uniquely: {sorted(set(null))[:4]} can move together", user=u)
    if I.nl.nobj != 1:
        res.fail(f"the combination {combo} has {I.nl.nobj} objectives", user=u)
    res.saw(combo)
    if res.sample is None:
        res.sample = dict(combination=combo, config=u, variables=I.nl.n, rows=I.nl.m)
