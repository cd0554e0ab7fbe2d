"""C36: parameters, tables and data added to the model's configuration the documented way.
C37: what the generated parameter reference tells.  Both run a scratch copy of the package whose
configuration file was extended, in a process of its own."""
import copy, csv, math, os, pickle, re, shutil, subprocess, sys
import numpy as np
from . import world as W, cases as C, refdata as R
from .eng_checks import rng_for
from .cases import pick
from .run_checks import scratch
from .input_checks import DIMS, qtext, same, close

UNITS = sorted(DIMS)
WORDS = ["new leaf", "Extra", "x_1", "carbon thing", "kappa2", "A-b", "rate (new)", "Z", "some long name of a parameter", "2nd"]


# ------------------------------------------------------------------ new leaves
def leaf(rng, depth=0, types=None):
    """a random node of the configuration file"""
    t = pick(rng, types or (["float", "float", "int", "int", "bool", "str", "enum", "enum", "quantity", "quantity", "filepath"] + (["list", "dict", "str_or_plain_dict"] if depth == 0 else ["list"] if depth == 1 else [])))
    s = {"descr": pick(rng, ["Some parameter", "", "Text with: colon, and 'quotes'", "x" * 40]), "type": t}
    if s["descr"] == "":
        s.pop("descr")
    if rng.random() < .35:
        s["can_be_false"] = True
    if t in ("float", "int"):
        lo, hi = sorted(np.round(rng.uniform(-40, 60, 2), 1 if t == "float" else 0).tolist())
        if hi == lo:
            hi = lo + 5
        if rng.random() < .2:
            lo = 0.0 if hi > 0 else lo
        if rng.random() < .6:
            s["min"] = int(lo) if t == "int" else lo
        if rng.random() < .6:
            s["max"] = int(hi) if t == "int" else hi
    elif t == "enum":
        s["values"] = pick(rng, [["a", "b", "c d"], ["one"], [1, 2, 5], [.25, .5], ["SSP2", "other", "x-y"], ["low", "high", "mid", "none of them"]])
    elif t == "quantity":
        s["unit"] = pick(rng, UNITS)
    elif t == "list":
        if rng.random() < .8:
            s["values"] = leaf(rng, depth + 1)
    elif t == "dict":
        if rng.random() < .8:
            s["values"] = leaf(rng, depth + 1)
        if rng.random() < .6:
            s["keys"] = leaf(rng, 2, ["int", "enum", "str"])
            s["keys"].pop("can_be_false", None)
    if depth < 1 or t == "enum":
        s["default"] = good(rng, s)[0]
        if t == "enum":
            s["default"] = pick(rng, s["values"])
    return s


def good(rng, s):
    """-> (legal value, what it is after validation)"""
    t = s["type"]
    if s.get("can_be_false") and rng.random() < .25:
        return pick(rng, [False, False, "false", "no", "False"]), False
    if t in ("float", "int"):
        lo, hi = s.get("min"), s.get("max")
        a = lo if lo is not None else (hi - 50 if hi is not None else -50)
        b = hi if hi is not None else a + 100
        k = int(rng.integers(4))
        if t == "int":
            v = int([a, b, rng.integers(a, b + 1), rng.integers(a, b + 1)][k])
            if rng.random() < .15 and lo is None and hi is None:
                v = int(rng.integers(-10 ** 9, 10 ** 9))
            if rng.random() < .1:
                v = str(v)
        else:
            v = float([a, b, rng.uniform(a, b), round(rng.uniform(a, b), 1)][k])
            v = min(max(v, a), b)
            v = int(v) if v == int(v) and rng.random() < .3 else v
        if float(v) == 0 and s.get("can_be_false"):
            v = a if a else b
        return v, (int(v) if t == "int" else float(v))
    if t == "bool":
        v = pick(rng, [True, False, 1, 0, "yes", "no", "true", "false", "True", "False"])
        return v, v in (True, 1, "yes", "true", "True")
    if t in ("str", "filepath"):
        v = pick(rng, ["text", "inputdata/x.csv", "with {odd} braces {", "A-b_c 1", 5, 2.5, "", "{no such thing}", "Yes?"])
        return v, str(v)
    if t == "str_or_plain_dict":
        v = pick(rng, ["text", 7, {"a": 1, "b": {"c": [1, 2]}}, {}, {"x": None}])
        return copy.deepcopy(v), v if isinstance(v, dict) else str(v)
    if t == "enum":
        v = pick(rng, s["values"])
        return v, v
    if t == "quantity":
        v = qtext(float(np.round(rng.uniform(-5, 50), 3)), pick(rng, DIMS[s["unit"]]))
        return v, v
    if t == "list":
        if rng.random() < .1:
            return None, []
        xs = [good(rng, s["values"]) if "values" in s else ((v := pick(rng, [1, "a", None, [2], {"b": 1}])), v) for _ in range(int(rng.integers(0, 4)))]
        return [x for x, _ in xs], [w for _, w in xs]
    if t == "dict":
        if rng.random() < .1:
            return None, {}
        d, w = {}, {}
        for _ in range(int(rng.integers(0, 4))):
            k, kw = good(rng, s["keys"]) if "keys" in s else ((q := pick(rng, ["a", 3, "b c", "type"])), q)
            x, xw = good(rng, s["values"]) if "values" in s else ((q := pick(rng, [1, "a", None, [2], {"b": 1}])), q)
            if kw in w:
                continue
            d[k], w[kw] = x, xw
        return d, w
    raise KeyError(t)


def bad(rng, s):
    """a value that must be refused, or None when there is none"""
    t = s["type"]
    if t in ("float", "int"):
        out = ["abc", "", "1 GtCO2", float("nan")]
        if s.get("min") is not None:
            d = 1 if t == "int" else float(10 ** rng.uniform(-7, 2))
            out += [s["min"] - d] * 3
        if s.get("max") is not None:
            d = 1 if t == "int" else float(10 ** rng.uniform(-7, 2))
            out += [s["max"] + d] * 3
        if s.get("can_be_false"):
            out = [x for x in out if x != 0]
        return (pick(rng, out),)
    if t == "bool":
        return (pick(rng, ["maybe", 2, -1, .5, "nee"]),)
    if t == "enum":
        v = pick(rng, s["values"])
        out = [v + "x", " " + v, v[:-1] + "_", 77] if isinstance(v, str) else [v + .125, v + 100, str(v), -v]
        out = [x for x in out if x not in s["values"]]
        if not s.get("can_be_false"):
            out += [False, "no"] if 0 not in s["values"] else []
        return (pick(rng, out),)
    if t == "quantity":
        others = [u for k in UNITS if k != s["unit"] for u in DIMS[k]] + ["parsec", "m"]
        return (pick(rng, [qtext(5.0, pick(rng, others)), qtext(5.0, pick(rng, others)), "5", "abc"] + ([] if s.get("can_be_false") else [False, "false"])),)
    if t == "list":
        if "values" in s and rng.random() < .7:
            b = bad(rng, s["values"])
            if b is not None:
                xs = [good(rng, s["values"])[0] for _ in range(int(rng.integers(0, 3)))]
                xs.insert(int(rng.integers(len(xs) + 1)), b[0])
                return (xs,)
        return (pick(rng, ["abc", 5, {"a": 1}, True]),)
    if t == "dict":
        if "values" in s and rng.random() < .7:
            b = bad(rng, s["values"])
            if b is not None:
                k = good(rng, s["keys"])[0] if "keys" in s else "k"
                return ({k: b[0]},)
        if "keys" in s and rng.random() < .5:
            b = bad(rng, s["keys"])
            if b is not None and not (isinstance(b[0], float) and math.isnan(b[0])):
                return ({b[0]: good(rng, s["values"])[0] if "values" in s else 1},)
        return (pick(rng, ["abc", 5, [1], True]),)
    return None


def parsed_default(s):
    """what a leaf left alone is after validation"""
    t, v = s["type"], s["default"]
    if s.get("can_be_false") and (v is False or v in (0, "False", "false", "no")):
        return False
    if t == "float":
        return float(v)
    if t == "int":
        return int(v)
    if t == "bool":
        return v in (True, 1, "yes", "true", "True")
    if t in ("str", "filepath"):
        return str(v)
    if t == "str_or_plain_dict":
        return v if isinstance(v, dict) else str(v)
    if t == "list":
        return [] if v is None else [parsed_default({**s["values"], "default": x}) if "values" in s else x for x in v]
    if t == "dict":
        return {} if v is None else {(parsed_default({**s["keys"], "default": k}) if "keys" in s else k): (parsed_default({**s["values"], "default": x}) if "values" in s else x) for k, x in v.items()}
    return v


def grow(rng, tree, n):
    """put n new leaves into the configuration; -> {path: node}"""
    out = {}
    groups = [("emissions",), ("economics", "MAC"), ("economics",), ("model",), ("time",), ()]
    mine = [("new group",), ("new group", "inner"), ("other", "deep", "deeper")]
    for k in range(n):
        g = pick(rng, mine if rng.random() < .7 else groups)
        d = tree
        for name in g:
            d = d.setdefault(name, {})
        name = f"{pick(rng, WORDS)}{k if rng.random() < .8 else ''}"
        if name in d:
            continue
        s = leaf(rng)
        d[name] = s
        out[g + (name,)] = s
    return out


def package(rng, d, n, tables=True):
    """scratch copy of the package with an extended configuration"""
    import yaml
    shutil.copytree(os.path.join(W.REPO, "mimosa"), os.path.join(d, "mimosa"), ignore=shutil.ignore_patterns("__pycache__", "*.pyc"))
    conf = os.path.join(d, "mimosa", "inputdata", "config", "config_default.yaml")
    with open(conf, encoding="utf8") as fh:
        tree = yaml.safe_load(fh)
    new = grow(rng, tree, n)
    # a text that refers to other parameters
    texts = {}
    plain = [p for p, s in new.items() if s["type"] in ("enum", "float", "int", "bool") and re.fullmatch(r"[\w -]+", " - ".join(p)) and not any(" - " in k for k in p)]
    for k in range(2):
        refs = [("SSP",)] + [pick(rng, plain) for _ in range(int(rng.integers(0, 3))) if plain]
        text = "".join(f"{w}{{{' - '.join(p)}}}" for w, p in zip(["pre ", "/", "-x-"], refs))
        tree.setdefault("new group", {})[f"text {k}"] = {"descr": "a text", "type": "str", "default": text}
        texts[("new group", f"text {k}")] = (text, refs)
    info = dict(new=new, texts=texts)
    if tables:
        # regional values of the user's own, in two regional resolutions
        tab = {}
        for name, kind in (("newparamgroup", "IMAGE26"), ("fineparams", "COACCH")):
            regs = list(C.ALLR) if kind == "IMAGE26" else sorted({x for r in C.ALLR for x in R.coacch_regions(r)})
            regs = [regs[j] for j in rng.permutation(len(regs))]
            vals = {c: {r: (float(np.round(rng.uniform(-3, 9), 4)) if rng.random() < .9 else int(rng.integers(0, 5))) for r in regs} for c in ("newparam1", "newparam2")}
            with open(os.path.join(d, "mimosa/inputdata/regionalparams", name + ".csv"), "w", newline="") as fh:
                w = csv.writer(fh)
                cols = sorted(vals) if rng.random() < .5 else sorted(vals)[::-1]
                w.writerow(["region"] + cols)
                for r in regs:
                    w.writerow([r] + [vals[c][r] for c in cols])
            tree["regional_parameter_files"]["default"][name] = {"filename": f"inputdata/regionalparams/{name}.csv", "regionstype": kind}
            tab[name] = {c: ({r: float(v[r]) for r in C.ALLR} if kind == "IMAGE26" else {r: float(np.mean([v[x] for x in R.coacch_regions(r)])) for r in C.ALLR}) for c, v in vals.items()}
        info["tables"] = tab
        # data over years and regions
        unit = pick(rng, ["dimensionless", "million", "GtCO2/yr", "billion USD2005/yr"])
        target = {"dimensionless": "dimensionless", "million": "population_unit", "GtCO2/yr": pick(rng, ["emissionsrate_unit", "MtCO2/yr"]), "billion USD2005/yr": "currency_unit"}[unit]
        years = list(range(2010, 2101, 10))
        data = {(s, r): np.round(rng.uniform(1, 100, len(years)).cumsum() / 7, 4) for s in ("SSP1", "SSP2", "SSP3", "SSP4", "SSP5") for r in C.ALLR}
        with open(os.path.join(d, "mimosa/inputdata/data/newdata.csv"), "w", newline="") as fh:
            w = csv.writer(fh)
            w.writerow(pick(rng, [["Model", "Scenario", "Region", "Variable", "Unit"], ["model", "scenario", "region", "variable", "unit"]]) + years)
            keys = list(data)
            for j in rng.permutation(len(keys)):
                s, r = keys[j]
                w.writerow(["MYMODEL", f"mine-{s}-x", r, "New|Variable", unit] + data[s, r].tolist())
                if rng.random() < .3:
                    w.writerow(["MYMODEL", f"mine-{s}-x", r, "New|Variable|Part", unit] + (data[s, r] * 2).tolist())
        src = {"variable": "New|Variable", "scenario": "mine-{SSP}-x", "model": "MYMODEL", "file": "inputdata/data/newdata.csv"}
        src["unit"] = target
        tree["input"]["variables"]["newdata"] = {"descr": "New data", "type": "datasource", "default": src}
        f, ft = R.unit(unit), R.unit(target)
        info["data"] = {k: (np.array(years, float), v * (f[0] / ft[0])) for k, v in data.items()}
    with open(conf, "w", encoding="utf8") as fh:
        yaml.safe_dump(tree, fh, sort_keys=False, allow_unicode=True)
    with open(conf, encoding="utf8") as fh:
        assert same(yaml.safe_load(fh), tree)
    info["tree"] = tree
    return info


CHILD = r'''
import sys, os, io, pickle, logging, warnings, contextlib, traceback, copy
sys.dont_write_bytecode = True
root, jobfile = sys.argv[1:3]
sys.path.insert(0, root)
warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)
job = pickle.load(open(jobfile, "rb"))
out = {}
keep = sys.stdout
sys.stdout = io.StringIO()
try:
    import mimosa
    from mimosa.common.config import parseconfig
    import mimosa.common as mc
    import mimosa.components as comp
    from mimosa.common import Any, value
    assert os.path.dirname(os.path.abspath(mimosa.__file__)) == os.path.join(os.path.abspath(root), "mimosa"), mimosa.__file__
    def tried(fn):
        try:
            return ("ok", fn())
        except Exception as e:
            return ("err", type(e).__name__ + ": " + str(e).strip()[:200] + traceback.format_exc()[-500:])
    out["defaults"] = tried(mimosa.load_params)
    out["trials"] = [tried(lambda: parseconfig.check_params(copy.deepcopy(d))) for d in job.get("trials", [])]
    for b in job.get("builds", []):
        host = getattr(comp, b["host"])
        orig = host.get_constraints
        def get_constraints(m, *a, **k):
            o = list(orig(m, *a, **k))
            for name, doc in b["scalars"].items():
                setattr(m, name, mc.Param(within=Any, doc=doc) if b["any"].get(name) else mc.Param(doc=doc))
            for name, doc in b["regional"].items():
                setattr(m, name, mc.Param(m.regions, doc=doc))
            for name, doc in b["data"].items():
                setattr(m, name, mc.Param(m.t, m.regions, doc=doc))
            return o
        host.get_constraints = get_constraints
        def go():
            M = mimosa.MIMOSA(copy.deepcopy(b["user"]))
            m = M.concrete_model
            r = {"scalars": {n: value(getattr(m, n)) for n in b["scalars"]},
                 "regional": {n: {r: value(getattr(m, n)[r]) for r in m.regions} for n in b["regional"]},
                 "data": {n: {(t, r): value(getattr(m, n)[t, r]) for t in m.t for r in m.regions} for n in b["data"]},
                 "years": [float(m.year(t)) for t in m.t], "params": M.params}
            os.makedirs("sav", exist_ok=True)
            with contextlib.suppress(ValueError):
                M.save("x", folder="sav")
            return r
        try:
            out.setdefault("builds", []).append(tried(go))
        finally:
            host.get_constraints = orig
    if job.get("hooks"):
        sys.path.insert(0, os.path.join(root, "docs", "scripts"))
        import mkdocs_hooks as h
        out["reference"] = h.on_page_markdown("before\n{params::reference}\nafter")
        out["untouched"] = h.on_page_markdown("no reference {here} {params}")
        out["types"] = h.on_page_markdown("{parsers::types}")
        out["content"] = {k: h.on_page_content(v) for k, v in job["content"].items()}
    if job.get("examples"):
        import re as _re
        text = out["reference"]
        got = {}
        for n, code in enumerate(_re.findall(r"```python[^\n]*\n(.*?)```", text, _re.S)):
            code = "\n".join(l.strip() for l in code.splitlines())
            if n not in job["some"]:
                continue
            cls = mimosa.MIMOSA if n in job["examples"] else (lambda p: type("V", (), {"params": parseconfig.check_params(p)}))
            ns = {"load_params": mimosa.load_params, "MIMOSA": cls}
            def run():
                exec(code, ns)
                return (ns["params"], ns["model"].params)
            got[n] = (code, tried(run))
        out["examples"] = got
except Exception:
    out["crash"] = traceback.format_exc()
pickle.dump(out, open(jobfile + ".out", "wb"))
'''


def child(d, job):
    f = os.path.join(d, "job")
    with open(f, "wb") as fh:
        pickle.dump(job, fh)
    src = os.path.join(d, "child.py")
    with open(src, "w") as fh:
        fh.write(CHILD)
    p = subprocess.run([sys.executable, src, d, f], cwd=d, capture_output=True, text=True)
    if not os.path.exists(f + ".out"):
        raise RuntimeError("no answer from the child process: " + p.stderr[-800:])
    with open(f + ".out", "rb") as fh:
        return pickle.load(fh)


def at(d, path):
    for k in path:
        if not isinstance(d, dict) or k not in d:
            return "missing"
        d = d[k]
    return d


def equal(a, b):
    return same(a, b) and (isinstance(a, str) == isinstance(b, str)) and (not isinstance(b, int) or isinstance(b, bool) or isinstance(a, int))


# --------------------------------------------------------------------------- C36
def c36(res, seed, i, tier):
    rng = rng_for("C36", seed, i)
    d = scratch()
    info = package(rng, d, int(rng.integers(8, 20)))
    new = info["new"]
    trials, what = [], []
    for p, s in new.items():
        for _ in range(4):
            v, w = good(rng, s)
            u = {}
            R.setp(u, list(p), v)
            trials.append(u)
            what.append(("good", p, v, w))
        for _ in range(4):
            b = bad(rng, s)
            if b is None:
                break
            u = {}
            R.setp(u, list(p), b[0])
            trials.append(u)
            what.append(("bad", p, b[0], None))
    for p in new:
        q = list(p)
        k = int(rng.integers(len(q)))
        q[k] = q[k] + "s" if rng.random() < .5 else q[k].swapcase() if q[k].swapcase() != q[k] else q[k] + "_"
        if at(info["tree"], q) == "missing":
            u = {}
            R.setp(u, q, 1.0)
            trials.append(u)
            what.append(("unknown", tuple(q), 1.0, None))
    # models with parameters bound to the new entries
    builds, expect = [], []
    for b in range(2):
        ssp = pick(rng, ["SSP1", "SSP2", "SSP3", "SSP4", "SSP5"])
        regs = [str(r) for r in rng.choice(C.ALLR, int(rng.integers(1, 6)), replace=False)]
        user = {"SSP": ssp, "regions": {r: {} for r in regs}, "time": {"start": int(rng.integers(2015, 2040)), "end": int(rng.integers(2060, 2151)), "dt": float(pick(rng, [5, 10, 7.5, 12]))}}
        bd = dict(host=pick(rng, ["sealevelrise", "mitigation", "cobbdouglas"]), scalars={}, regional={}, data={}, any={}, user=user)
        ex = dict(scalars={}, regional={}, data={}, texts={})
        vals = {}
        for p, s in new.items():
            w = parsed_default(s)
            if rng.random() < .5:
                v, w = good(rng, s)
                R.setp(user, list(p), v)
            vals[p] = w
        for n, (p, s) in enumerate(new.items()):
            if s["type"] not in ("float", "int", "quantity", "bool", "enum") or any("." in k for k in p):
                continue
            name = f"ext_s{n}"
            bd["scalars"][name] = "::" + ".".join(p)
            w = vals[p]
            if s["type"] == "enum" and not isinstance(w, (int, float)):
                bd["any"][name] = True
            ex["scalars"][name] = (p, R.quantity(w, s["unit"]) if s["type"] == "quantity" and w is not False else w)
        for p, (text, refs) in info["texts"].items():
            out = text
            for q in refs:
                out = out.replace("{" + " - ".join(q) + "}", str(ssp if q == ("SSP",) else vals[q]))
            ex["texts"][p] = out
        for n, (g, c) in enumerate((g, c) for g in info["tables"] for c in info["tables"][g]):
            name = f"ext_r{n}"
            bd["regional"][name] = f"regional::{g}.{c}"
            w = {r: info["tables"][g][c][r] for r in regs}
            if rng.random() < .3:
                r = pick(rng, regs)
                w[r] = float(np.round(rng.uniform(0, 5), 3))
                user["regions"][r].setdefault(g, {})[c] = w[r]
            ex["regional"][name] = (g, c, w)
        bd["data"]["ext_d"] = "timeandregional::newdata"
        builds.append(bd)
        expect.append((ssp, regs, ex))
    out = child(d, dict(trials=trials, builds=builds))
    if out.get("crash"):
        raise RuntimeError(out["crash"])
    # ---- defaults
    how, dflt = out["defaults"]
    if how != "ok":
        res.fail(f"the default parameters of a legally extended configuration are refused: {dflt}", new={" - ".join(p): s for p, s in new.items()})
        return
    for p, s in new.items():
        got = at(dflt, p)
        res.evals += 1
        if not equal(got, parsed_default(s)):
            res.fail(f"the added parameter '{' - '.join(p)}' ({s}) has the default value {got!r}", node=s)
    for p, (text, _) in info["texts"].items():
        if at(dflt, p) != text:
            res.fail(f"the added text '{' - '.join(p)}' has the default value {at(dflt, p)!r}, not {text!r}")
    # ---- validation
    for (kind, p, v, w), (how, val) in zip(what, out["trials"]):
        res.evals += 1
        name, s = " - ".join(p), new.get(p)
        if kind == "good":
            if how != "ok":
                res.fail(f"the legal value {v!r} of the added parameter '{name}' ({s}) is refused: {val}", node=s)
                continue
            if not equal(at(val, p), w):
                res.fail(f"the added parameter '{name}' ({s}) set to {v!r} is {at(val, p)!r} after validation", node=s)
            for o, so in new.items():
                if o != p and not equal(at(val, o), parsed_default(so)):
                    res.fail(f"setting '{name}' changes the added parameter '{' - '.join(o)}' to {at(val, o)!r}", node=so)
                    break
            res.events["legal values accepted"] += 1
        elif how == "ok":
            res.fail(f"the illegal value {v!r} of the added parameter '{name}' ({s}) is accepted as {at(val, p)!r}" if kind == "bad" else f"the unknown name '{name}' is accepted", node=s)
        else:
            res.events["illegal values refused" if kind == "bad" else "unknown names refused"] += 1
        res.saw(kind, s["type"] if s else None, s.get("can_be_false", False) if s else None, "min" in s if s else None, "max" in s if s else None, len(p), (s.get("values") or {}).get("type") if s and isinstance(s.get("values"), dict) else None)
    # ---- models
    for bd, (ssp, regs, ex), (how, val) in zip(builds, expect, out["builds"]):
        if how != "ok":
            res.fail(f"a model with parameters bound to added entries cannot be built: {val}", user=bd["user"], build=bd)
            continue
        res.events["models built"] += 1
        for n, (p, w) in ex["scalars"].items():
            got = val["scalars"][n]
            res.evals += 1
            if isinstance(w, str) != isinstance(got, str) or (w != got if isinstance(w, str) else not close(float(got), float(w))):
                res.fail(f"the model's parameter bound to '{'.'.join(p)}' ({new[p]}) is {got!r}, {w!r} asked for", user=bd["user"])
            else:
                res.saw("bound", new[p]["type"], len(p))
        for p, w in ex["texts"].items():
            if at(val["params"], p) != w:
                res.fail(f"the added text {info['texts'][p][0]!r} becomes {at(val['params'], p)!r}, {w!r} expected", user=bd["user"])
        for n, (g, c, w) in ex["regional"].items():
            got = val["regional"][n]
            for r in regs:
                res.evals += 1
                if not close(got[r], w[r]):
                    res.fail(f"the model's parameter bound to the added table column {g}.{c} is {got[r]!r} for {r}, {w[r]!r} expected", user=bd["user"])
                else:
                    res.saw("table", g, c, r)
        years = np.array(val["years"])
        for q, r in enumerate(regs):
            y, v = info["data"][ssp, r]
            y, v = R.extend(y, v)
            want = R.CubicSpline(y, v, bc_type="not-a-knot")(years)
            got = np.array([val["data"]["ext_d"][t, r] for t in range(len(years))])
            res.evals += len(years)
            if not np.allclose(got, want, rtol=1e-8, atol=1e-12):
                k = int(np.argmax(np.abs(got - want)))
                res.fail(f"the added data are {got[k]!r} for {r} in {years[k]:g}, {want[k]!r} expected", user=bd["user"])
            else:
                res.saw("data", ssp, r)
    if res.sample is None:
        res.sample = dict(new={" - ".join(p): s for p, s in list(new.items())[:6]}, builds=[b["user"] for b in builds][:1])


# --------------------------------------------------------------------------- C37
def blocks(text):
    """[(name, body)] of the parameter blocks of the generated reference"""
    parts = re.split(r'\?\?\?\+? parameter "(.*)"[ \t]*$', text, flags=re.M)
    return list(zip(parts[1::2], parts[2::2]))


def field(body, name):
    m = re.search(r"^[ \t]*- %s:[ \t]*(.*?)[ \t]*$" % re.escape(name), body, flags=re.M)
    return None if m is None else m.group(1)


def number(x):
    try:
        return float(x)
    except (TypeError, ValueError):
        return x


def nodes(tree, pre=()):
    for k, v in tree.items():
        if isinstance(v, dict) and "type" not in v:
            yield from nodes(v, pre + (k,))
        else:
            yield pre + (k,), v


DOCPARAMS = {"PRTP": "economics.PRTP", "elasmu": "economics.elasmu", "alpha": "economics.GDP.alpha", "sr": "economics.GDP.savings rate", "dk": "economics.GDP.depreciation of capital",
             "MAC_gamma": "economics.MAC.gamma", "MAC_beta": "economics.MAC.beta", "TCRE": "temperature.TCRE", "T0": "temperature.initial", "budget": "emissions.carbonbudget",
             "LBD_rate": "economics.MAC.LBD_rate", "LOT_rate": "economics.MAC.LOT_rate", "inertia_regional": "emissions.inertia.regional"}


def c37(res, seed, i, tier):
    rng = rng_for("C37", seed, i)
    d = scratch()
    info = package(rng, d, int(rng.integers(0, 25)) if i else 0, tables=False)
    shutil.copytree(os.path.join(W.REPO, "docs", "scripts"), os.path.join(d, "docs", "scripts"), ignore=shutil.ignore_patterns("__pycache__"))
    tree = info["tree"]
    leafs = dict(nodes(tree))
    names = [str(x) for x in rng.choice(sorted(DOCPARAMS), 4, replace=False)]
    content = {n: f"<p>text param::{n} end</p>" for n in names}
    for n in ("no_such_param_", "t"):
        content[n] = f"<p>param::{n}!</p>"
    docs = ["economics.MAC.beta", "temperature.TCRE", "SSP", "emissions.carbonbudget", "time.dt"]
    man = pick(rng, docs)
    # a page with many mentions: names that begin like others, repeated ones, titles that are names of parameters
    refs = [str(x) for x in rng.choice(sorted(DOCPARAMS), 5)] + ["percapconv_share", "percapconv_share_init", "rel_mitigation_costs", "rel_mitigation_costs_min_level", "nothing_like_that"]
    refs = [("param", r, None) for r in refs] + [("manual", pick(rng, ["budget", "T0", "My title", "sr"]), pick(rng, docs)) for _ in range(2)]
    refs = [refs[k] for k in rng.permutation(len(refs))]
    content["page"] = "".join(f"<p>@{k}@ {'param::' + r if how == 'param' else 'manualparam::' + r + '::' + key} #{k}#</p>\n" for k, (how, r, key) in enumerate(refs))
    content["manual"] = f"<p>manualparam::My title::{man} end</p>"
    n = len(leafs)
    some = [int(k) for k in rng.choice(n, 16, replace=False)]
    out = child(d, dict(hooks=True, content=content, some=some, examples=some[:2]))
    if out.get("crash"):
        tb = out["crash"]
        res.fail("the parameter reference of a legal configuration cannot be generated: " + tb.strip().splitlines()[-1][:300], trace=tb[-1500:])
        return
    text = out["reference"]
    if not text.startswith("before\n") or not text.rstrip().endswith("after") or "{params::reference}" in text:
        res.fail("the text around the reference is not kept")
    if out["untouched"] != "no reference {here} {params}":
        res.fail(f"a page without reference is changed to {out['untouched']!r}")
    got = blocks(text)
    seen = {}
    for name, body in got:
        m = re.search(r'id="([^"]*)"', body)
        seen.setdefault(m.group(1) if m else "?", []).append((name, body))
    want = {".".join(p): (p, s) for p, s in leafs.items()}
    if set(seen) != set(want):
        res.fail(f"the generated reference lacks {sorted(set(want) - set(seen))[:5]} and has {sorted(set(seen) - set(want))[:5]} that do not exist")
    for a, (p, s) in want.items():
        if len(seen.get(a, [])) != 1:
            if a in seen:
                res.fail(f"the parameter {a} appears {len(seen[a])} times in the generated reference")
            continue
        name, body = seen[a][0]
        res.evals += 1
        told = {k: field(body, k) for k in ("Type", "Default", "Can be false", "Min", "Max", "Unit")}
        t = s["type"]
        true = {"Type": t, "Default": str(s.get("default")), "Can be false": str(s.get("can_be_false", False)),
                "Min": float(s.get("min", -math.inf)) if t in ("float", "int") else None, "Max": float(s.get("max", math.inf)) if t in ("float", "int") else None,
                "Unit": s["unit"] if t == "quantity" else None}
        told["Min"], told["Max"] = (number(told[k]) for k in ("Min", "Max"))
        for k in true:
            if told[k] != true[k] and not (k == "Default" and number(told[k]) == number(true[k])):
                res.fail(f"the generated reference tells {k} {told[k]!r} for {a}, the configuration has {true[k]!r}", node=s)
        if name != p[-1]:
            res.fail(f"the parameter {a} is shown as {name!r}")
        if t == "enum":
            m = re.search(r"- Allowed values:[ \t]*\n((?:[ \t]*- .*\n)*)", body)
            vals = re.findall(r"- (.*?)[ \t]*$", m.group(1), flags=re.M) if m else []
            if vals != [str(x) for x in s["values"]]:
                res.fail(f"the generated reference tells the allowed values {vals} for {a}, the configuration has {s['values']}", node=s)
        if s.get("descr") and s["descr"].strip().splitlines()[0].strip() not in body:
            res.fail(f"the generated reference lacks the description of {a}", node=s)
        res.saw(a if p not in info["new"] else (t, tuple(sorted(s))))
    # the usage examples
    for n, (code, (how, val)) in out["examples"].items():
        res.evals += 1
        m = re.search(r"params(\[.*\]) = ", code)
        if how != "ok":
            res.fail(f"the usage example fails with {val}: {code}")
            continue
        path = re.findall(r'\["(.*?)"\]', m.group(1)) if m else []
        if tuple(path) not in leafs:
            res.fail(f"the usage example sets {path}, which does not exist: {code}")
            continue
        s = leafs[tuple(path)]
        if not equal(at(val[1], path), parsed_default(s)) and "{" not in str(s.get("default")):
            res.fail(f"the usage example gives {'.'.join(path)} the value {at(val[1], path)!r}, the default is {s.get('default')!r}: {code}")
        res.events["usage examples run"] += 1
    # values told inside pages
    parts = re.findall(r"<p>@(\d+)@ (.*?) #(\d+)#</p>\n", out["content"]["page"], flags=re.S)
    if "".join(f"<p>@{a}@ {x} #{b}#</p>\n" for a, x, b in parts) != out["content"]["page"] or [int(a) for a, _, b in parts if a == b] != list(range(len(refs))):
        res.fail(f"the text of a page around its parameters is changed: {out['content']['page'][:800]!r}")
        parts = []
    slots = [(n, out["content"][n]) for n in names]
    for (how, r, key), (_, x, _) in zip(refs, parts):
        res.evals += 1
        if how == "param" and r in DOCPARAMS:
            slots.append((r, x))
        elif how == "manual":
            s = R.SPEC_BY[key.replace(".", " - ")]
            if "param::" in x or r not in x or f"Default: {s['default']}." not in x or "#" + key not in x:
                res.fail(f"the page's text on {key} (titled {r}) is {x!r}")
        elif r == "nothing_like_that":
            if x != "param::" + r:
                res.fail(f"an unknown parameter in a page becomes {x!r}")
        else:
            if not re.search(rf"(?<![A-Za-z0-9_]){r}(?![A-Za-z0-9_])", re.sub(r"href='[^']*'", "", x)):
                res.fail(f"the page's text on {r} is {x!r}")
    for n, html in slots:
        s = R.SPEC_BY[DOCPARAMS[n].replace(".", " - ")]
        if n not in html or "#" + DOCPARAMS[n] + "'" not in html.replace('"', "'") or f"Default: {s['default']}." not in html or f"Type: {s['type']}." not in html:
            res.fail(f"the page's text on {n} is {html!r}; it is {DOCPARAMS[n]} of type {s['type']} with default {s['default']}")
        if s["type"] in ("float", "int") and (f"Min: {s.get('min', '-inf')}." not in html or f"Max: {s.get('max', 'inf')}." not in html):
            res.fail(f"the page's text on {n} is {html!r}; its bounds are {s.get('min')}, {s.get('max')}")
        if s["type"] == "quantity" and f"Unit: {s['unit']}." not in html:
            res.fail(f"the page's text on {n} is {html!r}; its unit is {s['unit']}")
        if ("Can also be false" in html) != bool(s.get("can_be_false")):
            res.fail(f"the page's text on {n} is {html!r}; it can{'' if s.get('can_be_false') else 'not'} be false")
        res.events["values told in pages"] += 1
    if out["content"]["no_such_param_"] != content["no_such_param_"]:
        res.fail(f"an unknown parameter in a page is replaced: {out['content']['no_such_param_']!r}")
    s = R.SPEC_BY[man.replace(".", " - ")]
    if "My title" not in out["content"]["manual"] or f"Default: {s['default']}." not in out["content"]["manual"] or "#" + man not in out["content"]["manual"]:
        res.fail(f"the page's text on {man} is {out['content']['manual']!r}")
    if res.sample is None:
        res.sample = dict(parameters=len(want), added=[" - ".join(p) for p in info["new"]], pages=out["content"])
