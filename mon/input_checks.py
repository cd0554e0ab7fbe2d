"""Checks on what goes into a model: parameter validation, values, references, data,
regional tables, units, smooth functions, year grid (C01-C04, C06, C07, C28, C30)."""
import copy, csv, json, math, os, tempfile
import numpy as np
from . import world as W, refmodel as M, refdata as R, engine as E, cases as C
from .eng_checks import rng_for

SMALL = {"regions": {"USA": {}, "CHN": {}}, "time": {"start": 2020, "end": 2060, "dt": 10.0}}


def config():
    W.mimosa()
    from mimosa.common.config import parseconfig
    return parseconfig


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def leafs(d, pre=()):
    """leafs of a parameter dictionary of the documented tree"""
    return {" - ".join(k): v for k, v in R.flat(d, pre)}


def same(a, b):
    """equal including the kind of the value (False is not 0)"""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if (a is False) != (b is False) or (a is True) != (b is True):
        return False
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return a == b


# ------------------------------------------------------------------------- C01
DIMS = {"emissions_unit": ["GtCO2", "MtCO2", "TtCO2", "ktCO2", "tCO2", "Gt CO2"],
        "emissionsrate_unit": ["GtCO2/yr", "MtCO2/yr", "ktCO2/day", "GtCO2/year", "tCO2/day"],
        "temperature_unit": ["delta_degC", "kelvin"],
        "currency_unit/emissionsrate_unit": ["USD2005/tCO2", "US$/tCO2", "USD2010/ktCO2", "million USD2005/MtCO2"],
        "(temperature_unit)/(emissions_unit)": ["delta_degC/TtCO2", "kelvin/GtCO2", "delta_degC/(MtCO2)"]}
NOUNIT = ["", "parsec", "GtC02x", "USD2005/yr/people", "m"]


def qtext(x, unit):
    return f"{x!r} {unit}"


def good_value(rng, s):
    """-> (value, what the validated dictionary must hold)"""
    t = s["type"]
    if s.get("can_be_false") and rng.random() < .3:
        v = pick(rng, [False, False, "false", "False", "no"])
        return v, False
    if t in ("float", "int"):
        lo, hi = s.get("min", None), s.get("max", None)
        a = lo if lo is not None else (hi - 50 if hi is not None else -50)
        b = hi if hi is not None else a + 100
        k = rng.integers(4)
        if t == "int":
            v = int([a, b, int(rng.integers(a, b + 1)), int(rng.integers(a, b + 1))][k])
        else:
            v = [a, b, float(rng.uniform(a, b)), float(round(rng.uniform(a, b), 2))][k]
            v = min(max(v, a), b)
            v = float(v) if rng.random() < .7 or v != int(v) else int(v)
        if v == 0 and s.get("can_be_false"):
            v = (a or b) or .5                      # zero also means "switched off" there
        want = int(v) if t == "int" else float(v)
        if rng.random() < .15:                      # YAML reads 1e-3 as text
            v = str(v) if t == "int" else pick(rng, [repr(float(v)), f"{v:.17e}", f" {v!r}"])
            if v in ("0", "0.0") or (s.get("can_be_false") and want == 0):
                v = want
        return v, want
    if t == "bool":
        v = pick(rng, [True, False, True, False, 1, 0, "yes", "no", "true", "false", "True", "False"])
        return v, v in (True, 1, "yes", "true", "True")
    if t == "enum":
        v = pick(rng, s["values"])
        return v, v
    if t == "quantity":
        x = float(np.round(rng.uniform(-5, 50), 3)) if rng.random() < .7 else float(f"{rng.choice([-1, 1]) * 10 ** rng.uniform(-12, 12):.6g}")
        v = qtext(x, pick(rng, DIMS[s["unit"]]))
        return v, v
    p = s["path"]
    if t == "datasource":
        v = dict(s["default"])
        if rng.random() < .5:
            v["scenario"] = "SSP3-Ref-SPA0-V17"
        return v, v
    if p == ["regions"]:
        v = {r: pick(rng, [{}, {}, {"MAC": {"kappa_rel_abatement_0.75_2050": .7}}]) for r in rng.choice(C.ALLR, 3, replace=False)}
        v = {str(k): x for k, x in v.items()}
        return v, v
    if p[-1] == "deactivated_constraints":
        v = pick(rng, [[], ["carbon_budget"], ["carbon_budget", "regional_inertia"]])
        return v, v
    if p[-1] == "constraint_variables":
        v = pick(rng, [{}, {"temperature": "some/file.csv"}, {"temperature": " my file.csv "}, {"regional_emissions": {2020: {"USA": 1.0}, 2030: {"USA": 2.0}}}])
        return v, v
    if p[-1] == "custom_mapping":
        v = pick(rng, [{}, {"MAC_beta": {None: 2.0}}])
        return v, v
    if t in ("filepath", "str", "str_or_plain_dict") and rng.random() < .6:
        v = pick(rng, ["data/my file.csv", "../x/é_ü.csv", "C:\\data\\a b.csv", " spaced ", "None", "SSP2", "a - b", "No", "0"])
        return v, v
    if t in ("list", "dict") and rng.random() < .3:
        return None, ([] if t == "list" else {})
    v = copy.deepcopy(s["default"])
    return v, v


def bad_value(rng, s):
    t = s["type"]
    nan = float("nan")
    if t in ("float", "int"):
        out = ["abc", None, [1.0], {}, {"x": 1}, nan, "", "1 GtCO2"]
        lo, hi = s.get("min"), s.get("max")
        step = 1 if t == "int" else None
        if t == "int":
            mid = lo if lo is not None else 5
            out += [f"{mid}.5", f"{mid}.0", "5,0", f"{mid}e1"]
        if lo is not None:
            out += [lo - (step or max(abs(lo), 1) * 10 ** rng.uniform(-9, 2))] * 4 + [-1e30 if t == "float" else -10 ** 9, float("-inf")]
        if hi is not None:
            out += [hi + (step or max(abs(hi), 1) * 10 ** rng.uniform(-9, 2))] * 4 + [1e30 if t == "float" else 10 ** 9, float("inf")]
        return pick(rng, out)
    if t == "bool":
        return pick(rng, ["maybe", 2, -1, .5, None, [], {}, "", "nee", nan])
    if t == "enum":
        v = pick(rng, s["values"])
        if isinstance(v, str):
            out = [v + "x", v[:-1], v.upper() if v.upper() != v else v.lower(), " " + v, None, 5, [v], False, True, "", "no"]
            out = [x for x in out if not isinstance(x, str) or x not in s["values"]]
        else:
            out = [v + .001, v + 1, str(v), None, [v], False, nan, -v]
        return pick(rng, out)
    if t == "quantity":
        others = [u for k, us in DIMS.items() if k != s["unit"] for u in us] + NOUNIT
        out = [qtext(5.0, pick(rng, others))] * 6 + [5, 5.0, "5", "abc", None, [], {}, "nan " + DIMS[s["unit"]][0]]
        if not s.get("can_be_false"):
            out += [False, "false", "no", 0]
        return pick(rng, out)
    p = s["path"]
    if t == "datasource":
        d = dict(s["default"])
        d.pop(pick(rng, sorted(d)))
        return pick(rng, [d, d, d, "abc", None, [1], 5])
    if t == "dict":
        out = ["abc", 5, [1], True]
        if isinstance(s.get("values"), dict) and s["values"]["type"] == "dict":
            out += [{"CAN": "abc"}, {"CAN": 5}, {"CAN": [1]}]
        return pick(rng, out)
    out = ["abc", 5, {"a": 1}, True]
    if s["values"]["type"] == "dict":
        out += [["abc"], [5], [{}, 3.0]]
    return pick(rng, out)


NODES = sorted({tuple(s["path"][:k]) for s in R.SPEC for k in range(len(s["path"]))})
KEYS = {n: {s["path"][len(n)] for s in R.SPEC if tuple(s["path"][:len(n)]) == n and len(s["path"]) > len(n)} for n in NODES}


def unknown_key(rng, d):
    """put a name that does not exist somewhere; -> path"""
    node = pick(rng, NODES)
    names = KEYS[node]
    k = rng.integers(5)
    base = pick(rng, sorted(names))
    if k == 0:
        name = base + "s"
    elif k == 1:
        name = base[:-1] or "x"
    elif k == 2:
        name = base.replace(" ", "_") if " " in base else base.replace("_", " ") if "_" in base else base.swapcase()
    elif k == 3:                                # a real name at a place where it does not belong
        other = pick(rng, [n for n in NODES if n != node])
        name = pick(rng, sorted(KEYS[other]))
    else:
        name = pick(rng, ["foo", "Carbon budget", "emisions", "GDP ", "type", "default", "beta"])
    if name in names:
        name = name + "_"
    v = pick(rng, [1.0, "abc", False, None, [1], 5, {"type": "float"}, {"a": {"b": 2}}])
    R.setp(d, list(node) + [name], v)
    return list(node) + [name], v


def c01(res, seed, i, tier):
    rng = rng_for("C01", seed, i)
    pc = config()
    mi = W.mimosa()
    with W.quiet():
        dflt = mi.load_params()
    frozen = leafs(R.default_params())
    # every leaf in turn, and random ones
    todo = [(R.SPEC[(3 * i + k) % len(R.SPEC)], g) for k in range(3) for g in (1, 0, 0, 0, 0, 0, 0)]
    todo += [(pick(rng, R.SPEC), int(rng.random() < .4)) for _ in range(30)]

    def attempt(d, via=None):
        before = copy.deepcopy(d)
        via = via or pick(rng, ["check", "check", "check", "full", "file"])
        out = err = None
        try:
            with W.quiet():
                if via == "file":
                    import yaml
                    try:
                        txt = yaml.safe_dump(d, sort_keys=False)
                        if yaml.safe_load(txt) != d:
                            raise ValueError
                    except Exception:
                        via = "check"
                if via == "file":
                    f = os.path.join(W.setup(), "user.yaml")
                    open(f, "w").write(txt)
                    out = mi.load_params(f)
                elif via == "model":
                    out = mi.MIMOSA(d).params
                else:
                    out = pc.check_params(d)
        except Exception as e:
            err = e
        res.evals += 1
        if not same(before, d):
            res.fail(f"validation changed the caller's dictionary: {before!r} became {d!r}", via=via)
        return out, err, via

    for q, (s, good) in enumerate(todo):
        path = s["path"]
        name = " - ".join(path)
        base = copy.deepcopy(dflt) if rng.random() < .3 else {}
        if good:
            extra = {}
            if rng.random() < .5:
                for o in (pick(rng, R.SPEC) for _ in range(int(rng.integers(1, 6)))):
                    v, w = good_value(rng, o)
                    R.setp(base, list(o["path"]), v)
                    extra[" - ".join(o["path"])] = w
            v, want = good_value(rng, s)
            R.setp(base, list(path), v)
            out, err, via = attempt(base)
            if err is not None:
                res.fail(f"legal value {v!r} of '{name}' rejected: {type(err).__name__}: {str(err).strip()[:150]}", params=base)
                continue
            res.events["legal values accepted"] += 1
            res.saw("good", name, type(v).__name__, via)
            got = leafs(out)
            extra[name] = want
            for k in frozen:
                exp = extra.get(k, frozen[k])
                if k == "regions":
                    exp, g = {a: b or {} for a, b in exp.items()}, {a: b or {} for a, b in got.get(k, {}).items()}
                elif k == "simulation - constraint_variables":
                    exp, g = json.dumps(exp, sort_keys=True), json.dumps(got.get(k), sort_keys=True)
                else:
                    g = got.get(k, "missing")
                if not (same(g, exp) or (not isinstance(exp, bool) and not isinstance(g, bool) and g == exp)):
                    res.fail(f"validated value of '{k}' is {g!r}, {exp!r} expected", params=base)
            if set(got) - set(frozen):
                res.fail(f"validated dictionary holds unknown names {sorted(set(got) - set(frozen))}", params=base)
            if q % 3 == 0:
                with W.quiet():
                    try:
                        again = pc.check_params(out)
                    except Exception as e:
                        again = e
                if not same(again, out):
                    res.fail(f"validating a validated dictionary changes it ({again if isinstance(again, Exception) else ''})", params=base)
                res.events["validated twice"] += 1
                # the result is the caller's own: editing it touches neither input nor defaults
                keep = copy.deepcopy(base)
                for k in list(out):
                    if isinstance(out[k], dict):
                        for kk in list(out[k]):
                            if isinstance(out[k][kk], dict):
                                out[k][kk]["edited"] = 1
                            elif isinstance(out[k][kk], list):
                                out[k][kk].append("edited")
                if not same(keep, base):
                    res.fail("editing the validated dictionary edits the caller's", params=keep)
        else:
            v = bad_value(rng, s)
            R.setp(base, list(path), v)
            out, err, via = attempt(base, "model" if rng.random() < .2 else None)
            if err is None:
                res.fail(f"illegal value {v!r} of '{name}' accepted", params=base)
            else:
                res.events["illegal values rejected"] += 1
                res.saw("bad", name, repr(v)[:6], via)
    for _ in range(50):
        base = copy.deepcopy(dflt) if rng.random() < .4 else {}
        p, v = unknown_key(rng, base)
        out, err, via = attempt(base, "model" if rng.random() < .1 else None)
        if err is None:
            res.fail(f"unknown parameter name {' - '.join(p)!r} (value {v!r}) accepted", params=base)
        else:
            res.events["unknown names rejected"] += 1
            res.saw("unknown", tuple(p))
    for _ in range(6):
        # a section replaced by a plain value
        node = pick(rng, [n for n in NODES if n])
        base = {}
        R.setp(base, list(node), pick(rng, [5, "abc", None, [1, 2], True]))
        out, err, via = attempt(base)
        if err is None:
            res.fail(f"section {' - '.join(node)!r} given as a plain value accepted", params=base)
        res.saw("section", node)
    if i % 8 == 1:
        u = C.setu(SMALL, ("SSP", pick(rng, ["SSP1", "SSP4"])))
        u["regions"]["USA"] = {"notes": {"text": "{SSP}, {time - dt}"}}
        keep = copy.deepcopy(u)
        m = W.build(u)
        if not same(u, keep):
            res.fail("building a model changed the caller's dictionary", params=keep)
        W.build(m.params)
        res.events["models built from validated parameters"] += 1
    with W.quiet():
        if not same(mi.load_params(), dflt) or any(k != "regions" and not same(leafs(dflt).get(k, "missing"), v) and (isinstance(v, bool) or leafs(dflt).get(k) != v) for k, v in frozen.items()):
            res.fail("the default parameters changed")
    if res.sample is None:
        res.sample = dict(leafs=len(R.SPEC), observed=dict(res.events))


# ------------------------------------------------------------------------- C02
SCALARS = {
    "T0": "temperature - initial", "TCRE": "temperature - TCRE", "temperature_target": "temperature - target",
    "perc_reversible_damages": "economics - damages - percentage reversible", "budget": "emissions - carbonbudget",
    "inertia_global": "emissions - inertia - global", "inertia_regional": "emissions - inertia - regional",
    "global_min_level": "emissions - global min level", "regional_min_level": "emissions - regional min level",
    "non_increasing_emissions_after_2100": "emissions - non increasing emissions after 2100",
    "no_pos_emissions_after_budget_year": "emissions - not positive after budget year",
    "use_carbon_intensity_for_baseline": "emissions - baseline carbon intensity",
    "cumulative_emissions_trapz": "emissions - cumulative_emissions_trapz",
    "damage_scale_factor": "economics - damages - scale factor", "ignore_damages": "economics - damages - ignore damages",
    "MAC_gamma": "economics - MAC - gamma", "MAC_beta": "economics - MAC - beta",
    "rel_mitigation_costs_min_level": "economics - MAC - rel_mitigation_costs_min_level",
    "LBD_rate": "economics - MAC - LBD_rate", "LBD_scaling": "economics - MAC - LBD_scaling", "LOT_rate": "economics - MAC - LOT_rate",
    "effort_sharing_regime": "effort sharing - regime", "percapconv_year": "effort sharing - percapconv_year",
    "alpha": "economics - GDP - alpha", "dk": "economics - GDP - depreciation of capital", "sr": "economics - GDP - savings rate",
    "elasmu": "economics - elasmu", "inequal_aversion": "economics - inequal_aversion", "PRTP": "economics - PRTP",
    "beginyear": "time - start", "dt": "time - dt",
    "min_rel_payment_level": "economics - emission trade - min rel payment level",
    "max_rel_payment_level": "economics - emission trade - max rel payment level",
}
# only these reach a problem row
UNUSED = {"min_rel_payment_level", "max_rel_payment_level", "perc_reversible_damages"}
CUSTOM = {"MAC_gamma": "gamma", "MAC_beta": "beta", "TCRE": "tcre", "T0": "T0", "sr": "sr", "LOT_rate": "lot", "elasmu": "elasmu",
          "PRTP": "prtp", "damage_scale_factor": "dscale", "MAC_scaling_factor": "kappa", "init_capitalstock_factor": "K0f"}

CONST = {"slr_thermal_equil": "th_eq", "slr_thermal_init": "th_0", "slr_thermal_adjust_rate": "th_rate", "slr_gsic_melt_rate": "gs_rate",
         "slr_gsic_total_ice": "gs_ice", "slr_gsic_equil_temp": "gs_T", "slr_gis_melt_rate_above_thresh": "gi_above",
         "slr_gis_init_melt_rate": "gi_rate", "slr_gis_init_ice_vol": "gi_ice"}
DAMPAR = {"damage_noslr_b1": ("tdam", 1), "damage_noslr_b2": ("tdam", 2), "damage_noslr_a": ("tdam", 4),
          "damage_slr_b1": ("sdam", 1), "damage_slr_b2": ("sdam", 2), "damage_slr_a": ("sdam", 4)}
SERIES = {"population": "POP", "baseline_GDP": "GDP0", "baseline_emissions": "BL0"}


def overridden(user, over):
    """the documented configuration with the values of a custom mapping put last"""
    c = M.Cfg(user)
    ov = {}
    for n, d in over.items():
        if n in SERIES:
            ov[SERIES[n]] = np.array([[d[t, r] for r in c.regions] for t in range(c.T)])
        elif n in DAMPAR:
            a, j = DAMPAR[n]
            col = list(ov.get(a, getattr(c, a)))
            col[j] = np.array([d[r] for r in c.regions])
            ov[a] = tuple(col)
        else:
            ov[{**CUSTOM, **CONST}[n]] = d[None] if None in d else np.array([d[r] for r in c.regions])
    return M.Cfg(user, ov)


def scalar(model, name):
    """value of the model parameter, or LookupError"""
    p = getattr(model.concrete_model, name, None)
    if p is None or p.is_indexed():
        raise LookupError(name)
    v = p.value
    return v


def expected_scalar(params, path):
    v = R.getp(params, path)
    s = R.SPEC_BY[path]
    if v is False or (s.get("can_be_false") and v in ("no", "false", "False", 0)):
        return False
    return R.quantity(v, s["unit"]) if s["type"] == "quantity" else v


def close(a, b, tol=1e-10):
    if isinstance(a, (bool, str)) or isinstance(b, (bool, str)):
        if a is False or b is False:
            return (a is False or a == 0 and not isinstance(a, str)) == (b is False or b == 0 and not isinstance(b, str)) and a == b
        return a == b
    try:
        return abs(float(a) - float(b)) <= tol * (abs(float(b)) + 1e-12)
    except (TypeError, ValueError):
        return a == b


def c02_user(rng, i):
    k = rng.integers(10)
    from . import eng_checks
    if k < 4:
        u = C.gen_user(rng, i, relaxed=rng.random() < .6, plain=.1)
        run = None
    else:
        f = [C.lim_C19, C.lim_C20, C.lim_C17, C.lim_C23, C.lim_C20, C.lim_C19][int(rng.integers(6))]
        run = f(rng, i)
        u = run.user
    return u, run


def engine_bad(user, cfg, X, metas, inst):
    """does the stated problem differ from the documented one for cfg?"""
    I = inst
    keep, I.c = I.c, cfg
    try:
        mm, st, pl = I.compare(X, metas)
    finally:
        I.c = keep
    return mm, st


def c02(res, seed, i, tier):
    rng = rng_for("C02", seed, i)
    mi = W.mimosa()
    over = {}
    if i == 0:
        user = {"regions": {r: {} for r in C.BIG}}
        run = C.general(rng, i, None, npop=30, limit=300, user=user)
    else:
        user, run = c02_user(rng, i)
        if run is None:
            if rng.random() < .35:                      # a custom mapping comes last
                if rng.random() < .3:
                    user = C.setu(user, ("economics - damages - coacch_combined_slr_nonslr_damages", True))
                c = M.Cfg(user)
                over = {}
                for name in rng.choice(sorted(CUSTOM), int(rng.integers(1, 4)), replace=False):
                    attr_ = CUSTOM[name]
                    if name in ("MAC_scaling_factor", "init_capitalstock_factor"):
                        over[str(name)] = {r: float(np.round(rng.uniform(.5, 1.5) * (1 if attr_ == "kappa" else 2.5), 3)) for r in c.regions}
                    else:
                        old = getattr(c, attr_)
                        over[str(name)] = {None: float(old * rng.uniform(.6, .9) if old else .03)}
                if c.damage_module == "COACCH" and rng.random() < .6:
                    for name in rng.choice(sorted(DAMPAR), int(rng.integers(1, 4)), replace=False):
                        a, j = DAMPAR[name]
                        over[str(name)] = {r: float(v * rng.uniform(.4, 1.6) + (.01 if j == 1 else 0)) if j != 0 else str(v)
                                           for r, v in zip(c.regions, getattr(c, a)[j])}
                if rng.random() < .4:                     # not tied to any entry of the configuration
                    for name in rng.choice(sorted(CONST), int(rng.integers(1, 4)), replace=False):
                        over[str(name)] = {None: float(getattr(c, CONST[str(name)]) * rng.uniform(.7, 1.3))}
                if rng.random() < .3:
                    name = str(rng.choice(sorted(SERIES)))
                    f = rng.uniform(.8, 1.2, c.R)
                    over[name] = {(t, r): float(v * g) for t, row in enumerate(getattr(c, SERIES[name]))
                                  for r, v, g in zip(c.regions, row, f)}
                if user.get("model", {}).get("damage module") == "nodamage":
                    over.pop("damage_scale_factor", None)
                user = C.setu(user, ("simulation - custom_mapping", over))
            run = C.Run(user)
            if over:
                run.c = overridden(user, over)
            X = run.add(C.ramps(run.c, rng, 16), "ramp", C.random_policy(run.c, rng))
            ok = C.good(run.c, X)
            if ok:
                m = C.mutants(run.c, rng, X, ok[0], C.ramps(run.c, rng, 1)[0] if False else X["regional_emissions"][ok[0]], None, None, 60)
    X, metas = run.data()
    I = E.Instance(user, cfg=run.c)
    if I.dead and not hasattr(I, "model"):
        res.fail(f"legal parameters rejected: {I.dead}", user=user)
        return
    full = R.full_params(user)
    mm, st, _ = I.compare(X, metas)
    res.evals += len(metas)
    res.events.update(st)
    # 1. the validated parameters kept by the model
    got = leafs(I.model.params)
    for k, v in leafs(full).items():
        s = R.SPEC_BY[k]
        exp = False if s.get("can_be_false") and v in ("no", "false", "False", 0) else v
        if s["type"] == "datasource":
            exp = {a: (b.replace("{SSP}", full["SSP"]) if isinstance(b, str) else b) for a, b in v.items()}
        if k == "regions":
            exp = {a: (b or {}) for a, b in v.items()}
        res.events["parameters compared"] += 1
        if not (same(got.get(k), exp) or (not isinstance(exp, bool) and not isinstance(got.get(k), bool) and got.get(k) == exp)):
            res.fail(f"parameter '{k}' is {got.get(k)!r} in the model, {exp!r} expected", user=user)
    # 2. the values of the model's parameters, where their problem disagrees too
    diffs = []
    for name, path in SCALARS.items():
        exp = over[name][None] if name in over else expected_scalar(full, path)
        try:
            v = scalar(I.model, name)
        except LookupError:
            continue
        res.events["model parameters read"] += 1
        if not close(v, exp):
            diffs.append((name, path, v, exp))
        elif not close(exp, expected_scalar(R.default_params(), path)):
            res.saw("set", path, str(exp)[:6])
    for name in sorted(set(over) & set(CONST)):
        try:
            v = scalar(I.model, name)
        except LookupError:
            continue
        res.events["values of a custom mapping read"] += 1
        if mm and not close(v, over[name][None]):
            res.fail(f"the model uses {name} = {v!r}, the custom mapping says {over[name][None]!r}", user=user)
    for name, path, v, exp in diffs:
        if mm or name in UNUSED or (close(v, exp, 1e-3) and not close(v, exp, 1e-9)):
            res.fail(f"the model uses {name} = {v!r}, the user asked for '{path}' = {exp!r}", user=user)
    for name, col in (("MAC_scaling_factor", "kappa"), ("init_capitalstock_factor", "K0f")):
        p = getattr(I.model.concrete_model, name, None)
        if p is None:
            continue
        want = getattr(run.c, col)
        for r, w in zip(run.c.regions, want):
            res.events["model parameters read"] += 1
            v = p[r]
            if not close(v if isinstance(v, (int, float)) else v.value, w) and mm:
                res.fail(f"the model uses {name}[{r}] = {v!r}, {w!r} expected", user=user)
    for name in sorted(over):
        p = getattr(I.model.concrete_model, name, None)
        if p is None or not p.is_indexed():
            continue
        for k, w in over[name].items():
            try:
                v = p[k]
            except (KeyError, ValueError):
                continue
            res.events["values of a custom mapping read"] += 1
            v = v if isinstance(v, (int, float, str)) else v.value
            if mm and not close(v, w):
                res.fail(f"the model uses {name}[{k}] = {v!r}, the custom mapping says {w!r}", user=user)
    # 3. behaves as with another value
    if mm and not diffs:
        hypothesis(res, rng, user, run, I, mm)
    if not mm:
        res.saw("problem agrees", tuple(sorted(k for k in leafs(user))), tuple(sorted(over)))
    if res.sample is None:
        res.sample = dict(config=user, parameters=len(full), trajectories=len(metas), observed=dict(res.events))


def hypothesis(res, rng, user, run, I, mm):
    """the stated problem is not the documented one: is it the one of another value?"""
    tried = 0
    d = leafs(R.default_params())
    for k in sorted(leafs(user)):
        if k in ("regions", "time - start", "time - end", "time - dt", "simulation - custom_mapping") or tried > 40:
            continue
        if same(d[k], leafs(user)[k]):
            continue
        alt = C.setu(user, (k, d[k]))
        try:
            c2 = M.Cfg(alt)
            if c2.T != run.c.T or set(M.variables(c2)) != set(M.variables(run.c)):
                continue
            RE = C.ramps(c2, rng, 16)
            X = M.simulate(c2, RE, policy=C.random_policy(c2, rng))
            mm2, st2 = engine_bad(user, c2, X, C.kinds(16, tag="alt"), I)
        except Exception:
            continue
        tried += 1
        if not mm2 and st2["admitted"] > 3:
            res.fail(f"the problem is that of '{k}' = {d[k]!r}, the user asked for {leafs(user)[k]!r}", user=user)
    regs = {r: (v or {}) for r, v in R.full_params(user)["regions"].items()}
    single = [(r, cat, k) for r, v in regs.items() for cat, d2 in v.items() for k in d2]
    alts = []
    if single:
        alts.append(("the values given for single regions are not used", {r: {} for r in regs}))
        for r, cat, k in single:
            a = copy.deepcopy(regs)
            del a[r][cat][k]
            alts.append((f"the value given for {k} of {r} alone is not used", a))
            for q in regs:
                b = copy.deepcopy(regs)
                b[q].setdefault(cat, {})[k] = regs[r][cat][k]
                if b != regs:
                    alts.append((f"the value given for {k} of {r} alone is used for {q} too", b))
        for text, want in (("the values of zero given for single regions are not used", lambda v: v == 0), ("the values other than zero given for single regions are not used", lambda v: v != 0)):
            alts.append((text, {r: {cat: {k: x for k, x in d2.items() if not want(x)} for cat, d2 in v.items()} for r, v in regs.items()}))
        for cat in {s[1] for s in single}:
            alts.append((f"the values of {cat} given for single regions are not used", {r: {q: d2 for q, d2 in v.items() if q != cat} for r, v in regs.items()}))
            m = {}
            for v in regs.values():
                m.update(v.get(cat, {}))
            alts.append((f"a value of {cat} given for one region is used for all", {r: {**v, cat: m} for r, v in regs.items()}))
    for text, a in alts[:60]:
        if a == regs:
            continue
        c2 = M.Cfg(C.setu(user, ("regions", a)))
        X = M.simulate(c2, C.ramps(c2, rng, 12), policy=C.random_policy(c2, rng))
        mm2, st2 = engine_bad(user, c2, X, C.kinds(12, tag="alt"), I)
        if not mm2 and st2["admitted"] > 3:
            res.fail(text, user=user)
            break


# ------------------------------------------------------------------------- C03
TARGETS = [k for k, s in R.SPEC_BY.items() if s["type"] in ("int", "float", "enum", "bool", "quantity")]


def resolve(text, values):
    """independent substitution: scan left to right"""
    out, p = "", 0
    while True:
        a = text.find("{", p)
        if a < 0:
            return out + text[p:]
        b = text.find("}", a)
        if b < 0:
            return out + text[p:]
        name = text[a + 1:b]
        if name in values:
            out += text[p:a] + str(values[name])
            p = b + 1
        else:
            out += text[p:a + 1]
            p = a + 1


def make_text(rng, n=None):
    n = int(rng.integers(1, 5)) if n is None else n
    lits = ["", "x", " - ", "a/b", "run ", "_", "{", "}", "{}", "{nope}", "{time - begin}", "{SSP - a}", "{ SSP}", "{emissions - carbon budget}", "{ssp}",
            "{economics - MAC}x"[:0], "%s", "\\d", "(1)", "{time-start}"]
    out = pick(rng, lits)
    for _ in range(n):
        out += "{" + pick(rng, TARGETS + ["SSP"] * 5) + "}" + pick(rng, lits)
    # no accidental nesting of braces around references
    return out if ambiguous(out) is False else make_text(rng, n)


def ambiguous(t):
    depth = 0
    for ch in t:
        if ch == "{":
            depth += 1
        if ch == "}":
            depth -= 1
        if depth > 1 or depth < 0:
            return True
    return depth != 0


PLACES = [("input", "variables", "GDP", f) for f in ("variable", "unit", "scenario", "model", "file")] + \
         [("input", "variables", "population", "scenario"), ("input", "variables", "emissions", "model"),
          ("regions", "USA", "note"), ("regions", "CHN", "deep", "er", "text"), ("simulation", "custom_mapping", "a", "b"),
          ("simulation", "constraint_variables", "temperature"), ("simulation", "constraint_variables", "x", "y", "z"),
          ("regional_parameter_files", "MAC", "filename"), ("simulation", "custom_mapping", "q")]


def put(d, path, v):
    for k in path[:-1]:
        if not isinstance(d.get(k), dict):
            d[k] = {}
        d = d[k]
    d[path[-1]] = v


def all_text(d, pre=()):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from all_text(v, pre + (k,))
        else:
            yield pre + (k,), v


def expected_refs(params):
    want = copy.deepcopy(params)
    flatp = {}
    for ks, v in all_text(params):
        if all(isinstance(k, str) for k in ks):
            flatp[" - ".join(ks)] = v
    for ks, v in all_text(params):
        if isinstance(v, str):
            put(want, ks, resolve(v, flatp))
    return want


def c03(res, seed, i, tier):
    rng = rng_for("C03", seed, i)
    pc = config()
    mi = W.mimosa()
    for q in range(40):
        u = {}
        for path in R.SPEC:
            if path["type"] in ("int", "float", "enum", "bool", "quantity") and rng.random() < .3:
                v, _ = good_value(rng, path)
                R.setp(u, list(path["path"]), v)
        u["regions"] = {"USA": {}, "CHN": {}, "WEU": {}}
        base = C.merge(R.default_params(), {}) if False else None
        with W.quiet():
            params = pc.check_params(u)
        params = copy.deepcopy(params)
        # values that hold references themselves (default scenario names) are resolved as well
        used = 0
        for p in PLACES:
            if rng.random() < .5:
                put(params, p, make_text(rng))
                used += 1
        if rng.random() < .5:
            put(params, ("simulation", "custom_mapping", "n"), pick(rng, [5, 2.5, None, True, [1, "{SSP}"]]))
        want = expected_refs(params)
        d = copy.deepcopy(params)
        with W.quiet():
            got = pc.parse_param_values(d)
        res.evals += used
        res.events["texts with references"] += used
        a, b = dict(all_text(want)), dict(all_text(got))
        for k in a:
            if not same(a[k], b.get(k, "missing")):
                res.fail(f"{' - '.join(map(str, k))} = {dict(all_text(params))[k]!r} was resolved to {b.get(k)!r}, {a[k]!r} expected")
            elif isinstance(a[k], str) and "{" in str(dict(all_text(params))[k]):
                res.saw(k, str(dict(all_text(params))[k]).count("{"), str(a[k])[:12])
        if set(b) - set(a):
            res.fail(f"resolving references added {sorted(set(b) - set(a))[:3]}")
    # through the model: the rows that are selected
    ssp = pick(rng, ["SSP1", "SSP3", "SSP4", "SSP5"])
    f = "inputdata/data/data_IMAGE_SSP.csv"
    start = int(pick(rng, [2020, 2030]))
    d = tempfile.mkdtemp(dir=W.setup())
    beta = float(pick(rng, [2.5, 3.0]))
    own = os.path.join(d, f"db_{start}_{beta}_False.csv")
    rows = [["IMAGE", f"{ssp}-x-{start}", r, "Population", "million", *np.round(rng.uniform(100, 900, 10), 3)] for r in ("USA", "CHN")]
    with open(own, "w", newline="") as fh:
        w = csv.writer(fh)
        w.writerow(["Model", "Scenario", "Region", "Variable", "Unit"] + list(range(2010, 2101, 10)))
        w.writerows(rows)
    u = {"SSP": ssp, "regions": {"USA": {"notes": {"text": "{SSP} from {time - start}", "more": {"text": "{time - dt}"}}}, "CHN": {}},
         "time": {"start": start, "end": start + 30, "dt": 10.0},
         "economics": {"MAC": {"beta": beta}, "damages": {"ignore damages": False}},
         "input": {"variables": {
             "GDP": {"variable": "GDP|PPP", "unit": "currency_unit", "scenario": "{SSP}-Ref-SPA0-V17", "model": "IMAGE", "file": f},
             "population": {"variable": "Population", "unit": "population_unit", "scenario": "{SSP}-x-{time - start}", "model": "IMAGE",
                            "file": d + "/db_{time - start}_{economics - MAC - beta}_{economics - damages - ignore damages}.csv"},
             "emissions": {"variable": "Emissions|CO2", "unit": "emissionsrate_unit", "scenario": "{SSP}-Ref-SPA0-V17", "model": "IMAGE", "file": f}}}}
    keep = copy.deepcopy(u)
    m = W.build(u)
    if u != keep:
        res.fail("resolving references changed the caller's dictionary", user=keep)
    want = expected_refs(R.full_params(u))
    got = m.params["input"]["variables"]
    for v in want["input"]["variables"]:
        if got[v] != want["input"]["variables"][v]:
            res.fail(f"data source {v} is {got[v]}, {want['input']['variables'][v]} expected", user=u)
    pop = m.concrete_model.population
    for r, row in zip(("USA", "CHN"), rows):
        exp = R.series(dict(want["input"]["variables"]["population"]), r, [start + 10 * t for t in range(4)])
        for t in range(4):
            res.evals += 1
            if not close(float(pop[t, r] if not hasattr(pop[t, r], "value") else pop[t, r].value), exp[t], 1e-8):
                res.fail(f"population of {r} is not from the row the references select", user=u)
    res.events["models with references in data sources"] += 1
    if res.sample is None:
        res.sample = dict(user=u, resolved={k: v["file"] for k, v in got.items()})


# ------------------------------------------------------------------------- C04
DATA = {"baseline_GDP": "GDP", "population": "population", "baseline_emissions": "emissions"}


def read_data(model, name):
    from pyomo.environ import value
    p = getattr(model.concrete_model, name)
    return {k: float(value(p[k])) for k in p}


def grid04(rng):
    start = int(pick(rng, [2010, 2011, 2015, 2020, 2020, 2037, 2095, 2100, int(rng.integers(2010, 2101))]))
    end = int(pick(rng, [2100, 2150, 2300, start + 1, int(rng.integers(start + 1, 2301))]))
    if end <= start:
        end = start + 20
    dt = float(pick(rng, [5, 10, 1, .5, 20, 2.5, 7.3, 3.7, 12.1, round(rng.uniform(.5, 20), 2)]))
    return {"start": start, "end": min(end, 2300), "dt": dt}


def c04(res, seed, i, tier):
    rng = rng_for("C04", seed, i)
    u = {"SSP": f"SSP{i % 5 + 1}", "time": grid04(rng)}
    big = i % 20 == 0
    regs = C.ALLR if big else C.regions_for(rng, int(rng.integers(1, 5)), i)
    u["regions"] = {r: {} for r in regs}
    kind = pick(rng, ["default", "default", "harmonised", "own", "own", "none", "twice"])
    var = {}
    own = None
    if kind == "harmonised":
        for v in DATA.values():
            if rng.random() < .7:
                var[v] = dict(R.SPEC_BY[f"input - variables - {v}"]["default"], file="inputdata/data/data_IMAGE_SSP_harmonised_2020.csv")
    elif kind in ("own", "none", "twice"):
        own = os.path.join(tempfile.mkdtemp(dir=W.setup()), "db.csv")
        U = {"GDP": ["billion USD2005/yr", "trillion USD2010/yr", "million US$/yr"], "population": ["million", "billion", "thousand"],
             "emissions": ["Mt CO2/yr", "GtCO2/yr", "ktCO2/day", "Gt CO2/year"]}
        head = pick(rng, [["Model", "Scenario", "Region", "Variable", "Unit"], ["MODEL", "SCENARIO", "REGION", "VARIABLE", "UNIT"], ["model", "scenario", "region", "variable", "unit"]])
        years = list(range(2010, 2101, 10))
        rows = []
        for mod in ("IMAGE", "OTHER"):
            for sc in ("A", "B"):
                for r in list(regs) + ["World"]:
                    for v in DATA.values():
                        f, _ = R.unit(un := pick(rng, U[v]))
                        f /= R.unit(R.SPEC_BY[f"input - variables - {v}"]["default"]["unit"])[0]
                        x = np.round(np.exp(rng.normal(0, .4, 10)) * .5 / f, 12)
                        rows.append([mod, sc, r, v, un, *map(repr, map(float, x))])
        hit = None
        if kind != "own":
            k = pick(rng, [q for q, r in enumerate(rows) if r[0] == "IMAGE" and r[1] == "A" and r[2] in regs])
            hit = rows[k]
            if kind == "none":
                rows[k] = ["IMAGE ", *rows[k][1:]] if rng.random() < .5 else [*rows[k][:3], rows[k][3] + "x", *rows[k][4:]]
            else:
                rows.append(list(rows[k]))
                if rng.random() < .5:
                    rows[-1][5] = "1.0"
        rng.shuffle(rows)
        with open(own, "w", newline="") as fh:
            w = csv.writer(fh)
            w.writerow(head + years)
            w.writerows(rows)
        for v in DATA.values():
            var[v] = {"variable": v, "unit": R.SPEC_BY[f"input - variables - {v}"]["default"]["unit"], "scenario": "A", "model": "IMAGE", "file": own}
    if var:
        u["input"] = {"variables": var}
    if kind in ("none", "twice"):
        try:
            W.build(u)
            res.fail(f"the data query for {hit[2:4]} matches {'no row' if kind == 'none' else 'two rows'} and no error is raised", user=u)
        except Exception:
            res.saw(kind, hit[3])
        res.evals += 1
        return
    m = W.build(u)
    p = R.full_params(u)
    years = R.model_years(p)
    for name, v in DATA.items():
        info = dict(p["input"]["variables"][v])
        info["scenario"] = info["scenario"].replace("{SSP}", p["SSP"])
        got = read_data(m, name)
        want = {}
        for r in regs:
            s = R.series(info, r, years)
            for t, x in enumerate(s):
                want[t, r] = x
        if set(got) != set(want):
            res.fail(f"{name} is defined for {len(got)} (year, region) pairs, {len(want)} expected; differing {sorted(set(got) ^ set(want), key=str)[:3]}", user=u)
        scale = {r: max(abs(want[t, r]) for t in range(len(years))) for r in regs}
        for k in set(got) & set(want):
            res.evals += 1
            if not abs(got[k] - want[k]) <= 1e-9 * scale[k[1]]:
                res.fail(f"{name} of {k[1]} in {years[k[0]]:g} is {got[k]!r}, the database row gives {want[k]!r}", user=u)
        for r in regs:
            for y in years:
                res.places.add((name, r, p["SSP"] if own is None else "own", float(round(y, 2)), kind == "harmonised"))
    res.events["values compared"] += 3 * len(regs) * len(years)
    if res.sample is None:
        res.sample = dict(user=u, years=len(years), kind=kind)


# ------------------------------------------------------------------------- C06
def tables06(rng, u, regs):
    """the user's own tables in another region definition"""
    d = tempfile.mkdtemp(dir=W.setup())
    X = [f"X{k}" for k in range(8)]
    form = {}
    mapping = []
    for r in C.ALLR:
        for x in rng.choice(X, int(rng.integers(1, 4)), replace=False):
            mapping.append((r, str(x)))
    rng.shuffle(mapping)
    with open(d + "/map.csv", "w", newline="") as fh:
        w = csv.writer(fh)
        w.writerow(["IMAGE26", "XREG", "note"] if rng.random() < .5 else ["XREG", "IMAGE26", "note"])
        head = None
        for a, b in mapping:
            w.writerow([a, b, 1])
    # header order decides the columns
    with open(d + "/map.csv", newline="") as fh:
        first = fh.readline().strip().split(",")
    if first[0] == "XREG":
        with open(d + "/map.csv", "w", newline="") as fh:
            w = csv.writer(fh)
            w.writerow(first)
            for a, b in mapping:
                w.writerow([b, a, 1])
    vals = {"economics": {}, "MAC": {}}
    kap = R.getp(R.full_params(u), "economics - MAC - regional calibration factor")
    for cat, cols in (("economics", ["init_capital_factor", "other"]), ("MAC", [kap, "kappa_x"])):
        with open(f"{d}/{cat}.csv", "w", newline="") as fh:
            w = csv.writer(fh)
            w.writerow(["region"] + cols)
            xs = list(X)
            rng.shuffle(xs)
            for x in xs:
                v = [float(np.round(rng.uniform(.5, 3), 4)) for _ in cols]
                vals[cat][x] = v[0]
                w.writerow([x] + v)
    files = copy.deepcopy(R.SPEC_BY["regional_parameter_files"]["default"])
    for cat in vals:
        files[cat] = {"filename": f"{d}/{cat}.csv", "regionstype": "XREG"}
    maps = copy.deepcopy(R.SPEC_BY["regionsmappings"]["default"])
    maps.append({"regionstype1": "IMAGE26", "regionstype2": "XREG", "conversiontable": d + "/map.csv"} if rng.random() < .5 else
                {"regionstype1": "XREG", "regionstype2": "IMAGE26", "conversiontable": d + "/map.csv"})
    u = C.setu(u, ("regional_parameter_files", files), ("regionsmappings", maps))
    for r in regs:
        u["regions"][r] = {k: v for k, v in (u["regions"][r] or {}).items() if k not in vals}
    mean = {cat: np.array([np.mean([vals[cat][b] for a, b in mapping if a == r]) for r in regs]) for cat in vals}
    return u, {"K0f": mean["economics"], "kappa": mean["MAC"]}


def table06(user, c):
    """model parameter -> expected value per region"""
    p = c.p
    out = {"init_capitalstock_factor": c.K0f, "MAC_scaling_factor": c.kappa}
    for (g, k), v in c.mort.items():
        out[f"mortality_param_{g}_{k}"] = v
    for nm, t in (("damage_noslr", c.tdam), ("damage_slr", c.sdam)):
        for k, v in zip(("form", "b1", "b2", "b3", "a"), t):
            out[f"{nm}_{k}"] = v
    return out


def c06(res, seed, i, tier):
    rng = rng_for("C06", seed, i)
    u = C.gen_user(rng, i, plain=.05)
    over = None
    if rng.random() < .7:
        u = C.setu(u, ("model - damage module", "COACCH"))
    if i == 0 or rng.random() < .05:
        u["regions"] = {r: {} for r in rng.permutation(C.ALLR)}
        u["time"] = {"start": 2020, "end": 2080, "dt": 15.0}
    # overrides in the damage table too
    for r in u["regions"]:
        if rng.random() < .15:
            u["regions"][r] = C.merge(u["regions"][r] or {}, {"COACCH": {pick(rng, ["NoSLR_b1", "NoSLR_b2", "SLR-Ad_b1", "SLR-NoAd_b1"]): float(np.round(rng.uniform(-1, 1), 3))}})
    u["regions"] = {str(r): v for r, v in u["regions"].items()}
    if rng.random() < .3:
        u, over = tables06(rng, u, list(u["regions"]))
    run = C.Run(u)
    if over:
        run.c = M.Cfg(u, over)
    c = run.c
    pol = C.random_policy(c, rng)
    X = run.add(C.ramps(c, rng, 20), "ramp", pol)
    X, metas = run.data()
    I = E.Instance(u, cfg=c)
    if I.dead and not hasattr(I, "model"):
        res.fail(f"legal configuration rejected: {I.dead}", user=u)
        return
    mm, st, pl = I.compare(X, metas)
    res.evals += len(metas)
    res.events.update(st)
    mine = [m for m in mm if m["prop"] in ("C14", "C15", "C16", "C17", "*")]
    wrong = 0
    for name, want in table06(u, c).items():
        p = getattr(I.model.concrete_model, name, None)
        if p is None:
            continue
        for r, w in zip(c.regions, want):
            try:
                v = p[r]
            except (KeyError, ValueError):
                continue
            v = getattr(v, "value", v)
            res.events["coefficients read"] += 1
            if isinstance(w, float) and np.isnan(w) or (name.endswith("b3") and not isinstance(w, (int, float))):
                continue
            ok = (v == w or (isinstance(w, str) and set(str(v).split("-")) & {"Linear", "Quadratic", "Logistic"} == set(w.split("-")) & {"Linear", "Quadratic", "Logistic"})) if isinstance(w, str) else close(v, w)
            if not ok and mine:
                wrong += 1
                res.fail(f"{name}[{r}] is {v!r}, the input table gives {w!r}", user=u)
            elif ok:
                res.saw(name, r, str(w)[:8])
    store = getattr(I.model, "regional_param_store", None)
    if store is not None and hasattr(store, "getregional") and not over:
        for _ in range(60):
            cat = pick(rng, ["economics", "MAC", "COACCH", "COACCH", "mortality"])
            col = pick(rng, [k for k in next(iter(R.table(cat).values())) if k != "region" and k != ""])
            r = pick(rng, c.regions)
            w = R.regional(c.p, cat, col, r)
            if isinstance(w, float) and np.isnan(w):
                continue
            try:
                v = store.getregional(cat, col, r)
            except Exception as e:
                v = f"{type(e).__name__}: {e}"
            res.evals += 1
            res.saw("lookup", cat, col, r)
            if not (v == w or close(v, w)):
                res.fail(f"the value of {cat} {col} for {r} is {v!r}, the input table gives {w!r}", user=u)
    if mine and not wrong:
        # no parameter of that name is readable: is the problem that of another row or column?
        for alt, text in alternatives(rng, u, c):
            try:
                X2 = M.simulate(alt, C.ramps(alt, rng, 12), policy=C.random_policy(alt, rng))
                mm2, st2 = engine_bad(u, alt, X2, C.kinds(12, tag="alt"), I)
            except Exception:
                continue
            if not mm2 and st2["admitted"] > 2:
                res.fail(f"the problem is the one with {text}", user=u)
    if res.sample is None:
        res.sample = dict(config=u, observed=dict(res.events))


def alternatives(rng, u, c):
    for q in C.QUANT:
        if q != c.p["economics"]["damages"]["quantile"]:
            yield M.Cfg(C.setu(u, ("economics - damages - quantile", q))), f"damage quantile {q}"
    a = c.p["economics"]["damages"]["coacch_slr_withadapt"]
    yield M.Cfg(C.setu(u, ("economics - damages - coacch_slr_withadapt", not a))), "the other adaptation choice"
    for k in C.KAPPAS:
        if k != c.p["economics"]["MAC"]["regional calibration factor"]:
            yield M.Cfg(C.setu(u, ("economics - MAC - regional calibration factor", k))), f"calibration {k}"
    yield M.Cfg(C.setu(u, ("regions", {r: {} for r in c.regions}))), "no regional override"


# ------------------------------------------------------------------------- C07
def spelling(rng, x, unit):
    """write x (in the target unit) in some other unit; -> text"""
    mass = {"ktCO2": 1e-6, "MtCO2": 1e-3, "GtCO2": 1.0, "TtCO2": 1e3, "tCO2": 1e-9, "kt CO2": 1e-6, "Gt CO2": 1.0, "Mt CO2": 1e-3,
            "million tCO2": 1e-3, "billion tCO2": 1.0, "trillion tCO2": 1e3}
    temp = {"delta_degC": 1.0, "kelvin": 1.0}
    per = {"yr": 1.0, "year": 1.0, "day": 365.25, "month": 12.0}
    cur = {"USD": 1.0, "USD2005": 1.0, "US$": 1.0, "US$2005": 1.0, "USD2010": 1.11, "US$2010": 1.11, "usd": 1.0}
    mult = {"": 1.0, "thousand ": 1e3, "million ": 1e6, "billion ": 1e9, "trillion ": 1e12}
    fmt = lambda v: pick(rng, [f"{v!r}", f"{v:.17e}", f"{v!r} *", f"  {v!r}"])

    def mk(v, utext):
        f = fmt(v)
        return f"{f} {utext}"
    if unit == "emissions_unit":
        m = pick(rng, sorted(mass))
        return mk(x / mass[m], m)
    if unit == "emissionsrate_unit":
        m, p = pick(rng, sorted(mass)), pick(rng, sorted(per))
        return mk(x / mass[m] / per[p], f"{m}/{p}" if " tCO2" not in m else f"{m} / {p}")
    if unit == "temperature_unit":
        return mk(x, pick(rng, sorted(temp)))
    if unit == "currency_unit/emissionsrate_unit":
        m, cu, k = pick(rng, [q for q in sorted(mass) if " " not in q]), pick(rng, sorted(cur)), pick(rng, sorted(mult))
        return mk(x * 1e12 / (cur[cu] * mult[k]) * (mass[m] / 1.0), f"{k}{cu}/{m}")
    m = pick(rng, [q for q in sorted(mass) if " " not in q])
    return mk(x * mass[m], f"{pick(rng, sorted(temp))}/{pick(rng, [m, '(' + m + ')'])}")


QUANTS = [s for s in R.SPEC if s["type"] == "quantity"]
QPARAM = {v: k for k, v in SCALARS.items()}


def c07(res, seed, i, tier):
    rng = rng_for("C07", seed, i)
    pc = config()
    W.mimosa()
    from mimosa.common import quant
    # 1. the unit converter
    for _ in range(60):
        s = pick(rng, QUANTS)
        x = float(np.round(rng.choice([-1, 1]) * 10 ** rng.uniform(-3, 4), 6)) if rng.random() < .95 else 0.0
        text = spelling(rng, x, s["unit"])
        res.evals += 1
        try:
            got = quant(text, s["unit"])
        except Exception as e:
            got = f"{type(e).__name__}: {e}"
        if not close(got, x, 1e-10):
            res.fail(f"{text!r} is read as {got!r} {s['unit']}, physically it is {x!r}")
        else:
            res.saw("text", s["unit"], text.split(None, 1)[1])
    for _ in range(30):
        cases = [("billion USD2005/yr", "currency_unit", 1e-3), ("million", "population_unit", 1e-3), ("Mt CO2/yr", "emissionsrate_unit", 1e-3),
                 ("billion USD2010/yr", "currency_unit", 1.11e-3), ("billion US$2010/yr", "currency_unit", 1.11e-3), ("trillion US$2005/yr", "currency_unit", 1.0),
                 ("thousand", "population_unit", 1e-6), ("billion", "population_unit", 1.0), ("GtCO2/day", "emissionsrate_unit", 365.25),
                 ("ktCO2/yr", "emissionsrate_unit", 1e-6), ("million USD/day", "currency_unit", 365.25e-6), ("TtCO2", "emissions_unit", 1e3), ("GtCO2", "ktCO2", 1e6)]
        un, to, f = pick(rng, cases)
        x = rng.uniform(-10, 10, 5)
        res.evals += 1
        try:
            got = quant(x.copy(), un, to)
        except Exception as e:
            got = np.full(5, np.nan)
        if not np.allclose(np.asarray(got, float), x * f, rtol=1e-10, atol=0):
            res.fail(f"{x[0]!r} {un} is converted to {np.asarray(got).ravel()[0]!r} {to}, physically it is {x[0] * f!r}")
        res.saw("array", un, to)
        qty = quant(x.copy(), un, to, only_magnitude=False)
        if hasattr(qty, "units") and hasattr(quant, "unit"):
            try:
                back = qty.units == quant.unit(to, pyomo=False)
            except Exception:
                back = True
            if not back:
                res.fail(f"values asked for in {to} carry the unit {qty.units}")
    # 2. rejected
    for _ in range(25):
        s = pick(rng, QUANTS)
        bad = [qtext(2.0, u) for k, us in DIMS.items() if k != s["unit"] for u in us] + ["2.0", "2", "2 foo", "2 GtC", "2 people", "2 yr", "2 GtCO2**2", "2 USD2005", "2 USD2005*tCO2"]
        b = pick(rng, bad)
        for f in ((lambda: quant(b, s["unit"])), (lambda: pc.check_params(R_set(s["path"], b)))):
            res.evals += 1
            try:
                f()
                res.fail(f"{b!r} accepted for '{' - '.join(s['path'])}' ({s['unit']})")
            except Exception:
                res.events["incompatible units rejected"] += 1
                res.saw("rejected", s["path"][-1], b)
    # 3. the same problem in every spelling
    if i % 2 == 0:
        u = C.gen_user(rng, i, plain=.2, nreg=2, maxT=10)
        vals = {"economics - MAC - gamma": 2.6, "economics - MAC - LBD_scaling": 33.0, "emissions - carbonbudget": 950.0, "emissions - global min level": -7.5,
                "emissions - regional min level": -4.25, "temperature - initial": 1.07, "temperature - TCRE": .00058, "temperature - target": 3.1}
        vals = {k: float(v * rng.uniform(.7, 1.4)) for k, v in vals.items()}
        plain = {"emissions_unit": "GtCO2", "emissionsrate_unit": "GtCO2/yr", "temperature_unit": "delta_degC",
                 "currency_unit/emissionsrate_unit": "trillion USD2005/GtCO2", "(temperature_unit)/(emissions_unit)": "delta_degC/GtCO2"}
        ua, ub = u, u
        texts = {}
        for k, v in vals.items():
            un = R.SPEC_BY[k]["unit"]
            ua = C.setu(ua, (k, f"{v!r} {plain[un]}"))
            texts[k] = spelling(rng, v, un)
            ub = C.setu(ub, (k, texts[k]))
        ma, mb = W.build(ua), W.build(ub)
        for k, v in vals.items():
            for m, who in ((ma, "plain"), (mb, texts[k])):
                try:
                    got = scalar(m, QPARAM[k])
                except LookupError:
                    continue
                res.evals += 1
                if not close(got, v, 1e-9):
                    res.fail(f"'{k}' written {who!r} is {got!r} in the model, {v!r} expected", user=ub)
        a, b = W.capture_text(ma), W.capture_text(mb)
        d = nl_diff(a, b)
        if d:
            res.fail(f"the problem depends on how quantities are written: {d}", texts=texts)
        res.events["pairs of problems compared"] += 1
        # database values carry the unit asked for
        for v, arr in getattr(getattr(mb, "data_store", None), "_data_values", {}).items():
            want = R.SPEC_BY[f"input - variables - {v}"]["default"]["unit"]
            for r, x in arr.items():
                if getattr(x, "unit", None) is not None and not isinstance(x.unit, str):
                    if x.unit != quant.unit(want, pyomo=False):
                        res.fail(f"data for {v} asked for in {want} carry the unit {x.unit}")
    if res.sample is None:
        res.sample = dict(observed=dict(res.events), example=text)


def R_set(path, v):
    d = {}
    R.setp(d, list(path), v)
    return d


def nl_points(nl, k, seed=0):
    """the same pseudo-random point for columns of the same name"""
    import zlib
    P = np.empty((nl.n, k))
    for j, name in enumerate(nl.cols):
        g = np.random.default_rng([seed, zlib.crc32(name.encode())])
        P[j] = g.uniform(.2, 2.0, k)
    return P


def nl_diff(a, b, rtol=1e-8):
    """what differs between two problems (rows, columns matched by name)"""
    if set(a.cols) != set(b.cols):
        return f"variables {sorted(set(a.cols) ^ set(b.cols))[:3]}"
    ra, rb = a.rows[:a.m], b.rows[:b.m]
    if set(ra) != set(rb) or a.m != b.m:
        return f"rows {sorted(set(ra) ^ set(rb))[:3]}"
    Pa, Pb = nl_points(a, 3), nl_points(b, 3)
    with np.errstate(all="ignore"):
        (Ba, Ma), (Bb, Mb) = a.body(Pa), b.body(Pb)
        oa, ob = a.objective(Pa), b.objective(Pb)
    ib = {n: q for q, n in enumerate(rb)}
    for q, n in enumerate(ra):
        w = ib[n]
        sc = Ma[q] + sum(abs(v) for v in (a.lo[q], a.hi[q]) if np.isfinite(v)) + 1e-12
        # a constant may stand on either side
        for x, y in ((Ba[q] - a.lo[q], Bb[w] - b.lo[w]), (a.hi[q] - Ba[q], b.hi[w] - Bb[w])):
            if (np.isfinite(x) != np.isfinite(y)).any() or (np.abs(x - y)[np.isfinite(x)] > (rtol * sc)[np.isfinite(x)]).any():
                return f"row {n}"
    jb = {n: q for q, n in enumerate(b.cols)}
    for q, n in enumerate(a.cols):
        w = jb[n]
        for x, y in ((a.xl[q], b.xl[w]), (a.xu[q], b.xu[w])):
            if x != y and not abs(x - y) <= 1e-9 * (abs(y) + 1e-12):
                return f"bounds of {n}"
    if a.obj_sense != b.obj_sense or not np.allclose(oa, ob, rtol=rtol, atol=1e-9, equal_nan=True):
        return "the objective"
    return None


# ------------------------------------------------------------------------- C28
def c28(res, seed, i, tier):
    rng = rng_for("C28", seed, i)
    W.mimosa()
    from mimosa import common as mc
    import pyomo.environ as po
    import pandas as pd
    sw, mn, mx = mc.soft_switch, mc.soft_min, mc.soft_max
    eps = 2.3e-16
    for q in range(40):
        scale = float(pick(rng, [1.0, 10.0, .1, 10 ** rng.uniform(-4, 4), 10 ** rng.uniform(-1, 1)]))
        n = 400
        mag = 10 ** rng.uniform(-6, 12 if rng.random() < .4 else 4, n)
        x = np.sort(np.concatenate([rng.choice([-1, 1], n) * mag * scale, [0.0, scale / 25, -scale / 25, scale, -scale], rng.uniform(-1, 1, 50) * scale * .2]))
        top = float(rng.choice([-1, 1]) * 10 ** rng.uniform(-2, 2) * scale) if rng.random() < .9 else 0.0
        one = scale == 1.0 and rng.random() < .5
        a = (lambda f, *z: f(*z)) if one else (lambda f, *z: f(*z, scale))
        S, N, X = (np.asarray(a(sw, x), float), np.asarray(a(mn, x), float), np.asarray(a(mx, x, top), float))
        res.evals += 3 * len(x)
        gap = scale / (25 * np.pi)
        bad = []

        def need(ok, what, *arrs):
            ok = np.asarray(ok)
            if not ok.all():
                k = int(np.argmin(ok))
                bad.append(f"{what} fails at x={x[k]!r}, scale={scale!r}" + (f", cap={top!r}" if "max" in what else "") + ": " + ", ".join(repr(float(z[k])) for z in arrs))
        need((S >= -eps * 4) & (S <= 1 + 4 * eps), "switch within 0 and 1", S)
        need(np.concatenate([[True], np.diff(S) >= -4 * eps]), "switch rises monotonically", S)
        need(np.abs(S[x == 0] - .5) <= 4 * eps if (x == 0).any() else [True], "switch is one half at zero")
        need(np.where(x >= 1e3 * scale, S > .9999, True) & np.where(x <= -1e3 * scale, S < 1e-4, True), "switch reaches 0 and 1", S)
        need(np.abs(S + np.asarray(a(sw, -x), float) - 1) <= 1e-14, "switch is symmetric around one half", S)
        tol = 8 * eps * (np.abs(x) + scale)
        m0 = np.maximum(x, 0)
        need(N >= m0 - tol, "smooth minimum not below max(x,0)", N)
        need(N <= m0 + gap + tol, "smooth minimum within 1/(25 pi) of the scale", N)
        need(np.where(np.abs(x) < 1e3 * scale, N > 0, N > -tol), "smooth minimum positive", N)
        cap = np.minimum(x, top)
        tol2 = 16 * eps * (np.abs(x) + abs(top) + scale)
        need(X <= cap + tol2, "smooth maximum not above min(x,cap)", X)
        need(X >= cap - gap - tol2, "smooth maximum within 1/(25 pi) of the scale", X)
        mirror = top - np.asarray(a(mn, top - x), float)
        need(np.abs(X - mirror) <= tol2, "smooth maximum mirrors the smooth minimum around the cap", X, mirror)
        # kinds of arguments
        pts = rng.choice(len(x), 6, replace=False)
        kinds = [("number", float), ("numpy number", np.float64), ("series", lambda v: pd.Series([v])), ("variable", "var"), ("expression", "expr"), ("parameter", "par"), ("array", lambda v: np.array([[v]]))]
        kname, conv = pick(rng, kinds)
        for k in pts:
            v = float(x[k])
            for f, want, extra in ((sw, S[k], ()), (mn, N[k], ()), (mx, X[k], (top,))):
                if isinstance(conv, str):
                    m = po.ConcreteModel()
                    m.v = po.Var(initialize=v)
                    m.w = po.Var(initialize=v / 2)
                    m.p = po.Param(initialize=v, mutable=True)
                    arg = {"var": m.v, "expr": m.w + m.w, "par": m.p}[conv]
                else:
                    arg = conv(v)
                g = f(arg, *extra) if one else f(arg, *extra, scale)
                g = po.value(g) if isinstance(conv, str) else float(np.asarray(g).ravel()[0])
                res.evals += 1
                if not abs(g - want) <= 1e-12 * (abs(v) + abs(top) + scale):
                    bad.append(f"{f.__name__} of the {kname} {v!r} (scale {scale!r}) is {g!r}, of the array {want!r}")
        vi = int(rng.integers(-20, 20))
        for f, extra in ((sw, ()), (mn, ()), (mx, (top,))):
            g, w = float(f(vi, *extra, scale)), float(f(float(vi), *extra, scale))
            if not abs(g - w) <= 1e-12 * (abs(w) + scale):
                bad.append(f"{f.__name__} of the integer {vi} is {g!r}, of the number {w!r}")
        for b in bad:
            res.fail(b)
        res.saw(kname, round(math.log10(scale), 1), one)
        res.events["argument kinds x scales"] += 1
    if res.sample is None:
        res.sample = dict(scale=scale, cap=top, points=len(x), kind=kname)


# ------------------------------------------------------------------------- C30
def c30(res, seed, i, tier):
    from pyomo.environ import Var, value
    rng = rng_for("C30", seed, i)
    for q in range(3):
        start = int(pick(rng, [2010, 2020, 2020, 2025, 2050, 2100, int(rng.integers(2010, 2101))]))
        end = int(min(2300, pick(rng, [start + 1, start + int(rng.integers(1, 200)), 2150, 2300, 2100])))
        if end <= start:
            end = start + 7
        dt = float(pick(rng, [5, 10, .5, 20, .7, 1.4, 2.3, .57, 1.1, .3 + .7, 1 / 3 + .5, round(rng.uniform(.5, 20), 1), round(rng.uniform(.5, 20), 2), int(rng.integers(1, 20))]))
        if rng.random() < .15:      # the last year lies a little before or behind the end
            dt = float((end - start) / int(rng.integers(2, 60)) + pick(rng, [1, -1]) * 10.0 ** -int(rng.integers(1, 6)))
            dt = min(max(dt, .5), 20.0)
        if (end - start) / dt > 90:
            dt = float(np.round((end - start) / float(rng.integers(5, 80)), 1))
            dt = min(max(dt, .5), 20.0)
        if i % 60 == 7 and q == 0:      # hundreds of model years
            start, end, dt = 2010, int(rng.integers(2170, 2301)), .5
        u = {"time": {"start": start, "end": end, "dt": dt if rng.random() < .7 or dt != int(dt) else int(dt)},
             "regions": {r: {} for r in C.regions_for(rng, int(rng.integers(1, 3)), i)},
             "model": {"damage module": pick(rng, ["COACCH", "nodamage"]), "emissiontrade module": pick(rng, ["notrade", "emissiontrade", "globalcostpool"]),
                       "financialtransfer module": pick(rng, ["notransfer", "globaldamagepool"]), "objective module": pick(rng, ["utility", "globalcosts"])}}
        m = W.build(u)
        years = R.model_years(R.full_params(u))
        if abs((end - start) / dt - round((end - start) / dt)) < 1e-7 and abs(len(years) - 1 - (end - start) / dt) > .5:
            continue
        T = len(years)
        cm = m.concrete_model
        got = [float(cm.year(t)) for t in cm.t]
        res.evals += 1
        if len(got) != T or not np.allclose(got, years, rtol=0, atol=1e-9):
            res.fail(f"model years run from {got[0]:g} to {got[-1]:.10g} in {len(got)} steps; start {start}, end {end}, dt {dt!r} mean {T} years up to {years[-1]:g}", user=u)
            continue
        for name, want in (("dt", dt), ("beginyear", start), ("tf", T - 1)):  # what the equations of components work with
            if hasattr(cm, name) and abs(value(getattr(cm, name)) - want) > 1e-9:
                res.fail(f"the equations work with {name} = {value(getattr(cm, name))!r}, not {want!r}", user=u)
        for v in cm.component_objects(Var):
            if v.name.startswith("_"):
                continue
            ts = {}
            for idx in v:
                t, r = (idx if isinstance(idx, tuple) else (idx, None))
                ts.setdefault(r, set()).add(t)
            res.events["variables looked at"] += 1
            want = set(ts) == {None} or set(ts) == set(u["regions"])
            if not want or any(s != set(range(T)) for s in ts.values()):
                res.fail(f"variable {v.name} is not defined in every model year and region", user=u)
        d = tempfile.mkdtemp(dir=W.setup())
        if q == 0:
            with W.quiet():
                m.save("years", folder=d)
            with open(d + "/years.csv", newline="") as fh:
                head = next(csv.reader(fh))
            cols = head[3:]
            lab = [float(f"{y:.6g}") for y in years]
            try:
                num = [float(x) for x in cols]
            except ValueError:
                num = []
            if head[:3] != ["Variable", "Region", "Unit"] or len(num) != T or not np.allclose(num, lab, rtol=0, atol=1e-9):
                res.fail(f"saved years are {cols[:3]}..{cols[-2:]}, model years {years[:3]}..{years[-2:]}", user=u)
            res.events["saved files read"] += 1
        res.saw(start, end, dt)
    if res.sample is None:
        res.sample = dict(user=u, years=T)
