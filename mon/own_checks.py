"""A user's own regions, data, regional tables and conversion tables (C39)."""
import csv, os
import numpy as np
from . import world as W, refmodel as M, refdata as R, engine as E, cases as C
from .eng_checks import rng_for, observe
from .input_checks import pick
from .run_checks import scratch

NAMES = ["North", "South", "R2", "EU 27", "A-B", "region_1", "x", "Land (new)", "N.America", "Sub|Group", "OECD+", "Rest of World", "CAN", "2nd", "World", "t", "a,b", "east", "East"]
DATAUNITS = {"GDP": [("billion US$2005/yr", 1e3), ("trillion USD2005/yr", 1.0), ("million USD2005/year", 1e6), ("billion USD2010/yr", 1e3 / 1.11)],
             "emissions": [("Mt CO2/yr", 1e3), ("GtCO2/yr", 1.0), ("ktCO2/day", 1e6 / 365.25), ("Gt CO2/year", 1.0)],
             "population": [("million", 1e3), ("billion", 1.0), ("thousand", 1e6)]}
OTHER = ["FINE", "COARSE", "COACCH", "SSP5", "World", "my types"]


def dump(path, rows, rng, quoting=csv.QUOTE_MINIMAL):
    with open(path, "w", newline="", encoding="utf8") as fh:
        csv.writer(fh, quoting=quoting).writerows(rows)


def own(rng, u, d, lack=None):
    """put own files of this configuration into d; -> user parameters that use them.
    lack: leave one region of the model out of (data | table | conversion)"""
    d = os.path.abspath(d)
    base = R.full_params(u)
    olds = list(base["regions"])
    rename = rng.random() < .75
    names = {r: str(n) for r, n in zip(olds, rng.permutation(NAMES))} if rename else {r: r for r in olds}
    v = dict(u)
    v["regions"] = {names[r]: x for r, x in u["regions"].items()}
    kind = pick(rng, ["IMAGE26", "SSP5", "World"]) if rename else "IMAGE26"
    v["regionstype"] = kind
    regs = list(v["regions"])
    gone = pick(rng, regs) if lack else None
    if gone:
        v["regions"] = {**v["regions"], gone: {}}
    decoys = [str(n) for n in rng.permutation([n for n in NAMES if n not in regs])[:int(rng.integers(0, 4))]]
    # ---- data
    if rename or rng.random() < .5:
        years = pick(rng, [list(range(2010, 2101, 10)), [2010, 2015, 2020] + list(range(2030, 2101, 10)), list(range(2010, 2101, 5)) if False else list(range(2010, 2101, 10))])
        one = rng.random() < .5
        files, src = {}, {}
        for var, (unit, f) in {k: pick(rng, us) for k, us in DATAUNITS.items()}.items():
            info = dict(base["input"]["variables"][var])
            info["scenario"] = info["scenario"].replace("{SSP}", base["SSP"])
            fn = os.path.join(d, "data.csv" if one else f"data {var}.csv")
            model, scen, vn = pick(rng, ["IMAGE", "MINE", "a b"]), pick(rng, ["{SSP}-mine", "my scenario", "x{SSP}y{SSP}"]), pick(rng, [f"My|{var}", info["variable"], var])
            rows = files.setdefault(fn, [])
            for r in regs + decoys:
                o = {b: a for a, b in names.items()}.get(r, olds[0])
                y = R.series(info, o, years) * f * rng.uniform(.7, 1.4) * np.linspace(1, rng.uniform(.8, 1.3), len(years))
                if gone != r or lack != "data":
                    rows.append([model, scen.replace("{SSP}", base["SSP"]), r, vn, unit] + [repr(float(z)) for z in y])
                for other in ([model + "x", scen.replace("{SSP}", base["SSP"]), r, vn], [model, scen.replace("{SSP}", "SSP9") + "z", r, vn], [model, scen.replace("{SSP}", base["SSP"]), r, vn + "|Part"]):
                    if rng.random() < .4:
                        rows.append(other + [unit] + [repr(float(z) * 3) for z in y])
            src[var] = {"variable": vn, "unit": base["input"]["variables"][var]["unit"], "scenario": scen, "model": model, "file": fn}
        for fn, rows in files.items():
            rows = [rows[j] for j in rng.permutation(len(rows))]
            dump(fn, [["Model", "Scenario", "Region", "Variable", "Unit"] + years] + rows, rng, pick(rng, [csv.QUOTE_MINIMAL, csv.QUOTE_NONNUMERIC]))
        v["input"] = {"variables": src}
    elif lack == "data":
        lack = None
    # ---- regional tables
    files = {k: dict(x) for k, x in base["regional_parameter_files"].items()}
    conv = {}
    tidy = rng.random() < .4           # tables and conversions in alphabetical order: then the first text is no question
    must = "MAC" if lack in ("table", "conversion") else None
    for cat in files:
        if not rename and rng.random() < .5 and cat != must:
            continue
        tab = R.table(cat)
        cols = [c for c in next(iter(tab.values())) if c != "region"]
        same_type = rng.random() < .5
        if cat == must:
            same_type = lack == "table"
        typ = kind if same_type else pick(rng, [t for t in OTHER if t != kind and (rename or t != "COACCH")])
        if same_type:
            rows = {r: None for r in regs + decoys}
            groups = {r: [r] for r in rows}
        else:
            if typ not in conv:
                groups, m = {}, []
                for k, r in enumerate(regs + decoys):
                    how = rng.random()
                    if how < .4 and groups:                        # several regions share one
                        groups[r] = [pick(rng, sorted({x for g in groups.values() for x in g}))]
                    elif how < .7:
                        groups[r] = [f"{typ} {k}"]
                    else:
                        groups[r] = [f"{typ} {k}.{j}" for j in range(int(rng.integers(2, 5)))]
                for r in groups:
                    if not (lack == "conversion" and r == gone):
                        m += [[r, x] for x in groups[r]]
                m = sorted(m, key=lambda x: x[1]) if tidy else [m[j] for j in rng.permutation(len(m))]
                flip = rng.random() < .5
                fn = os.path.join(d, f"conv {typ}.csv")
                head = [kind, typ, "note"]
                dump(fn, [[head[1], "note", head[0]] if flip else head] + [[x, "-", r] if flip else [r, x, "-"] for r, x in m], rng)
                conv[typ] = (groups, {"regionstype1": typ if rng.random() < .5 else kind, "conversiontable": fn})
                e = conv[typ][1]
                e["regionstype2"] = kind if e["regionstype1"] == typ else typ
            groups = conv[typ][0]
            rows = {x: None for g in groups.values() for x in g}
        # rows shared or averaged over come from one kind of region, so that texts agree
        donor = {}
        for r, g in groups.items():
            w = next((donor[x] for x in g if x in donor), None) or pick(rng, sorted(x for x in tab if x != "World"))
            for x in g:
                donor.setdefault(x, w)
        text = {c for c in cols if any(isinstance(R._num(x[c]), str) for x in tab.values())}
        # an average of a value and a blank is not documented
        few = rng.random() < .5
        for x in rows:
            # rows of different regions may well be the same
            level = pick(rng, [1., 1., 1.1]) if few else None
            rows[x] = {c: tab[donor[x]][c] if c in text or tab[donor[x]][c] == "" else repr(float(tab[donor[x]][c]) * (level or float(rng.uniform(.8, 1.25)))) for c in cols}
        if tidy:
            for x in rows:
                for c in text:
                    if "Quadratic" in rows[x][c] and rng.random() < .4:
                        rows[x][c] = "Robust-Linear"
        order = [cols[j] for j in rng.permutation(len(cols))]
        if lack == "table" and cat == must:
            for x in (groups[gone] if not same_type else [gone]):
                rows.pop(x)
        names_ = sorted(rows) if tidy else [list(rows)[j] for j in rng.permutation(len(rows))]
        fn = os.path.join(d, f"{cat} table.csv")
        at = int(rng.integers(0, len(order) + 1)) if rng.random() < .3 else 0
        ins = lambda xs, x: xs[:at] + [x] + xs[at:]
        dump(fn, [ins(order, "region")] + [ins([rows[x][c] for c in order], x) for x in names_], rng)
        files[cat] = {"filename": fn, "regionstype": typ}
    if any(files[c] != base["regional_parameter_files"][c] for c in files):
        v["regional_parameter_files"] = files
    maps = [c[1] for c in conv.values()]
    if not rename:
        maps = [m for m in base["regionsmappings"] if {m["regionstype1"], m["regionstype2"]} not in [{x["regionstype1"], x["regionstype2"]} for x in maps]] + maps
    if maps or rename:
        v["regionsmappings"] = [maps[j] for j in rng.permutation(len(maps))] if maps else []
    return v, gone if lack else None, lack


def c39(res, seed, i, tier):
    rng = rng_for("C39", seed, i)
    d = os.path.join(scratch(), f"own {seed} {i}")     # files are read once per process and path
    os.makedirs(d)
    W.setup()
    u = C.gen_user(rng, i, relaxed=rng.random() < .8, nreg=int(pick(rng, [1, 2, 2, 3, 4])))
    u.pop("input", None)
    lack = pick(rng, ["data", "table", "conversion"]) if rng.random() < .15 else None
    u, gone, lack = own(rng, u, d, lack)
    if lack:
        res.evals += 1
        try:
            W.capture_text(W.build(u))
        except Exception:
            res.events[f"files without a region of the model refused"] += 1
            res.saw("lacking", lack)
            return
        res.fail(f"the region {gone!r} has no row in the {lack} given, a problem is stated all the same", user=u)
        return
    run = C.general(rng, i, None, npop=40, limit=250, user=u)
    observe(res, run, set(), claim_all=True)
    res.events["own files used"] += len(os.listdir(d))
    res.saw("own", u["regionstype"], "input" in u, tuple(sorted((k, x["regionstype"]) for k, x in u.get("regional_parameter_files", {}).items())))
