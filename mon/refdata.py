"""Independent reading of the documented inputs (frozen copies under ref/):
parameter tree, scenario database, regional tables, units."""
import csv, copy, json, os, re
import numpy as np
from scipy.interpolate import CubicSpline

REF = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ref")
SPEC = json.load(open(os.path.join(REF, "spec.json")))
SPEC_BY = {" - ".join(s["path"]): s for s in SPEC}
for s in SPEC:                       # yaml floats / null survive json unchanged
    s.setdefault("default", None)

REGIONS = list(SPEC_BY["regions"]["default"])


# ------------------------------------------------------------------ parameters
def default_params():
    out = {}
    for s in SPEC:
        d = out
        for k in s["path"][:-1]:
            d = d.setdefault(k, {})
        v = copy.deepcopy(s["default"])
        if v is None and s["type"] in ("list", "dict"):
            v = [] if s["type"] == "list" else {}
        if s["type"] == "float" and v is not False:
            v = float(v)
        d[s["path"][-1]] = v
    return out


def setp(d, path, val):
    ks = path.split(" - ") if isinstance(path, str) else path
    for k in ks[:-1]:
        d = d.setdefault(k, {})
    d[ks[-1]] = val


def getp(d, path):
    for k in (path.split(" - ") if isinstance(path, str) else path):
        d = d[k]
    return d


def flat(d, pre=()):
    for k, v in d.items():
        if isinstance(v, dict) and " - ".join(pre + (k,)) not in SPEC_BY:
            yield from flat(v, pre + (k,))
        else:
            yield pre + (k,), v


def full_params(user):
    """defaults overlaid with what the user gave (leafs of the documented tree)"""
    p = default_params()
    for ks, v in flat(user):
        setp(p, list(ks), v)
    return p


# ----------------------------------------------------------------------- units
# base: usd, tco2, people, K, year
_BASE = {
    "USD": (1.0, {"usd": 1}), "USD2005": (1.0, {"usd": 1}), "usd": (1.0, {"usd": 1}),
    "USD2010": (1.11, {"usd": 1}),
    "tCO2": (1.0, {"c": 1}), "people": (1.0, {"p": 1}),
    "delta_degC": (1.0, {"K": 1}), "kelvin": (1.0, {"K": 1}), "K": (1.0, {"K": 1}),
    "yr": (1.0, {"y": 1}), "year": (1.0, {"y": 1}), "years": (1.0, {"y": 1}), "a": (1.0, {"y": 1}),
    "day": (1 / 365.25, {"y": 1}), "d": (1 / 365.25, {"y": 1}), "month": (1 / 12.0, {"y": 1}),
    "thousand": (1e3, {}), "million": (1e6, {}), "billion": (1e9, {}), "trillion": (1e12, {}),
    "dimensionless": (1.0, {}), "m": (1.0, {"m": 1}),
}
_PRE = {"k": 1e3, "kilo": 1e3, "M": 1e6, "mega": 1e6, "G": 1e9, "giga": 1e9, "T": 1e12, "tera": 1e12, "m": 1e-3}
DEFAULT_UNITS = {"currency_unit": "trillion USD2005/yr", "emissionsrate_unit": "emissions_unit/yr",
                 "emissions_unit": "GtCO2", "temperature_unit": "delta_degC", "population_unit": "billion"}


class UnitError(Exception):
    pass


def _tok(name):
    if name in _BASE:
        return _BASE[name]
    for p in sorted(_PRE, key=len, reverse=True):
        if name.startswith(p) and name[len(p):] in ("tCO2", "USD", "usd", "USD2005", "USD2010"):
            f, d = _BASE[name[len(p):]]
            return f * _PRE[p], d
    raise UnitError(name)


def _mul(a, b, s=1):
    d = dict(a[1])
    for k, v in b[1].items():
        d[k] = d.get(k, 0) + s * v
        if d[k] == 0:
            del d[k]
    return (a[0] * b[0] if s == 1 else a[0] / b[0], d)


def unit(s):
    """-> (factor to base, dimensions)"""
    for _ in range(3):
        for k, v in DEFAULT_UNITS.items():
            s = re.sub(r"\b%s\b" % k, f"({v})", s)
    s = s.replace("US$", "USD").replace("t CO2", "tCO2")
    toks = re.findall(r"\d+\.?\d*(?:[eE][-+]?\d+)?|[A-Za-z_][A-Za-z_0-9]*|\*\*|[()*/]", s)
    pos = [0]

    def factor():
        t = toks[pos[0]]
        pos[0] += 1
        if t == "(":
            r = expr()
            pos[0] += 1
            return r
        if t[0].isdigit():
            return (float(t), {})
        return _tok(t)

    def expr():
        r = factor()
        while pos[0] < len(toks) and toks[pos[0]] != ")":
            t = toks[pos[0]]
            if t in "*/":
                pos[0] += 1
                r = _mul(r, factor(), 1 if t == "*" else -1)
            else:
                r = _mul(r, factor())
        return r
    return expr()


def quantity(text, target):
    """value of '20 GtCO2/yr' in the target unit"""
    if text is False:
        return False
    m = re.match(r"\s*([-+]?\d*\.?\d*(?:[eE][-+]?\d+)?)\s*(.*)$", str(text))
    f, d = unit(m.group(2)) if m.group(2).strip() else (1.0, {})
    ft, dt = unit(target)
    if d != dt:
        raise UnitError(f"{text} -> {target}")
    return float(m.group(1)) * f / ft


# -------------------------------------------------------------------- database
_db = {}
DBFILES = {"inputdata/data/data_IMAGE_SSP.csv": "data_IMAGE_SSP.csv",
           "inputdata/data/data_IMAGE_SSP_harmonised_2020.csv": "data_IMAGE_SSP_harmonised_2020.csv"}


def database(file):
    if file not in _db:
        path = os.path.join(REF, DBFILES[file]) if file in DBFILES else file
        rows = {}
        with open(path, newline="") as fh:
            r = csv.reader(fh)
            head = next(r)
            years = [float(h) for h in head[5:]]
            for row in r:
                rows.setdefault(tuple(row[:4]), []).append((row[4], [float(x) if x != "" else np.nan for x in row[5:]]))
        _db[file] = (np.array(years), rows)
    return _db[file]


HORIZON = 2360


def extend(years, vals):
    """growth of the last interval declines linearly to zero 50 years after 2100"""
    y, v = list(years), list(vals)
    rate = (v[-1] - v[-2]) / (y[-1] - y[-2])
    while y[-1] + 10 < HORIZON:
        left = 1 - (y[-1] - 2100.0) / 50.0
        v.append(v[-1] + rate * max(left, 0.0) * 10)
        y.append(y[-1] + 10)
    return np.array(y), np.array(v)


def series(var_info, region, years):
    dby, rows = database(var_info["file"])
    reg = region[:-1] if region.endswith("#") else region
    sel = rows.get((var_info["model"], var_info["scenario"], reg, var_info["variable"]), [])
    if len(sel) != 1:
        raise LookupError(f"{len(sel)} rows")
    u, v = sel[0]
    f, d = unit(u)
    ft, dt = unit(var_info["unit"])
    if d != dt:
        raise UnitError(u)
    y, v = extend(dby, np.array(v) * (f / ft))
    return CubicSpline(y, v, bc_type="not-a-knot")(np.asarray(years, float))


# ------------------------------------------------------------ regional tables
_tab = {}
TABLES = {"economics": ("economics.csv", "IMAGE26"), "MAC": ("mac.csv", "IMAGE26"),
          "COACCH": ("COACCH.csv", "COACCH"), "mortality": ("mortality.csv", "IMAGE26")}


def _rows(path):
    with open(path, newline="", encoding="utf8") as fh:
        return list(csv.reader(fh))


def table(name, path=None):
    """{region: {column: text}} of a shipped table, or of the file given"""
    key = path or name
    if key not in _tab:
        rows = _rows(path or os.path.join(REF, TABLES[name][0]))
        at = rows[0].index("region")
        _tab[key] = {row[at]: dict(zip(rows[0], row)) for row in rows[1:]}
    return _tab[key]


_map = {}


def mapped(path, to, frm):
    """{region of the model: regions of the table} of a conversion table"""
    key = (path, to, frm)
    if key not in _map:
        rows = _rows(path)
        i, j = rows[0].index(to), rows[0].index(frm)
        out = {}
        for r in rows[1:]:
            out.setdefault(r[i], []).append(r[j])
        _map[key] = out
    return _map[key]


def coacch_regions(region):
    return mapped(os.path.join(REF, "IMAGE26_COACCH.csv"), "IMAGE26", "COACCH")[region]


def _num(x):
    try:
        return float(x)
    except ValueError:
        return x if x != "" else np.nan


def regional(params, cat, col, region):
    ov = params["regions"].get(region) if isinstance(params["regions"], dict) else None
    if isinstance(ov, dict) and isinstance(ov.get(cat), dict) and col in ov[cat]:
        return ov[cat][col]
    info = params["regional_parameter_files"][cat]
    own = not info["filename"].startswith("inputdata/")
    tab = table(cat, info["filename"]) if own else table(cat)
    if info["regionstype"] == params["regionstype"]:
        return _num(tab[region][col])
    conv = [m["conversiontable"] for m in params["regionsmappings"]
            if {m["regionstype1"], m["regionstype2"]} == {info["regionstype"], params["regionstype"]}][-1]
    if conv.startswith("inputdata/"):
        conv = os.path.join(REF, os.path.basename(conv))
    vals = [_num(tab[s][col]) for s in mapped(conv, params["regionstype"], info["regionstype"])[region]]
    if isinstance(vals[0], str):
        return vals[0]
    return float(np.mean(vals))


def model_years(p):
    s, e, dt = p["time"]["start"], p["time"]["end"], p["time"]["dt"]
    n = 0
    while s + n * dt < e - 1e-9:
        n += 1
    return np.array([s + i * dt for i in range(n + 1)])
