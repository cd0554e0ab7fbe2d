import importlib.util, os
_s = importlib.util.spec_from_file_location("p1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "plants1.py"))
_p = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_p)
STUB = _p.STUB
PC, PA, DS, DU, RP, RM, UN, PU, EC, IP, SC, SU, SV, MM = (getattr(_p, n) for n in "PC PA DS DU RP RM UN PU EC IP SC SU SV MM".split())
RC = "mimosa/common/regional_params/regional_param_container.py"
UT = "mimosa/common/utils.py"
PLANTS = []


def plant(id, property, edits, demo, needs, breaks, **kw):
    PLANTS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


OWN = '''
import csv, json
def write(name, rows):
    f = os.path.join(SCRATCH, name)
    os.makedirs(os.path.dirname(f), exist_ok=True)
    with open(f, "w", newline="") as fh:
        csv.writer(fh).writerows(rows)
    return f
'''

plant("C10-two-regions", "C10", [(MM, '''in pre-processing step"""
        if len(self.regions) > 1:
''', '''in pre-processing step"""
        if len(self.regions) > 2:
''')], STUB + '''
solver(ANSWER)
for regions in (["CAN", "INDIA", "WEU"], ["CAN", "INDIA"]):
    m = build(params(regions, **{"time - dt": 20.0, "economics - GDP - savings rate": 0.0}), MIMOSA)
    with contextlib.redirect_stdout(io.StringIO()):
        m.solve(verbose=False)
    info = m.concrete_model._var_aggregator_info.z_to_vars
    check(len(info), "nothing was aggregated")
    for z, linked in info.items():
        for v in linked:
            check(v.value is not None and abs(v.value - z.value) < 1e-9, f"{v.name} is reported as {v.value}, solved as {z.value}")
''', "a model of exactly two regions", "variables that were replaced before solving keep their start value in the reported solution")

plant("C38-cached-params", "C38", [(PC, '''import copy
import re
''', '''import copy
import re
from functools import lru_cache
'''), (PC, '''def load_params(user_yaml_filename=None):
''', '''@lru_cache(maxsize=None)
def load_params(user_yaml_filename=None):
''')], '''
p = load_params()
before = json_before = __import__("json").dumps(p, sort_keys=True)
def spoil(x):
    for y in list(x.values() if isinstance(x, dict) else x):
        if isinstance(y, (dict, list)):
            spoil(y)
    if isinstance(x, dict):
        x["spoiled"] = "yes"
    else:
        x.append("spoiled")
spoil(p)
check(__import__("json").dumps(load_params(), sort_keys=True) == before, "default parameters differ after parameters of an earlier run were changed")
''', "parameters of a first run changed inside a dictionary, then a second run in the same process", "the second run starts from the first run's parameters")

plant("C38-neos-address", "C38", [(MM, '''            os.environ["NEOS_EMAIL"] = neos_email
''', '''            os.environ.setdefault("NEOS_EMAIL", str(neos_email))
''')], '''
import mimosa.mimosa as mm
seen = []
class Manager:
    def solve(self, model, **kw):
        seen.append(os.environ.get("NEOS_EMAIL"))
        raise RuntimeError("no server")
mm.SolverManagerFactory = lambda name: Manager()
m = build(params(["CAN"], **{"time - dt": 20.0}), MIMOSA)
for a in ("first@example.org", "second@example.org"):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            m.solve(verbose=False, use_neos=True, neos_email=a)
    except RuntimeError:
        pass
check(seen == ["first@example.org", "second@example.org"], f"addresses given to NEOS: {seen}")
''', "two NEOS solves in one process with different addresses", "the second solve is sent under the first one's address")

plant("C38-sticky-options", "C38", [(MM, '''            opt: OptSolver = SolverFactory("ipopt")
''', '''            if not hasattr(MIMOSA, "_local_solver"):
                MIMOSA._local_solver = SolverFactory("ipopt")
            opt: OptSolver = MIMOSA._local_solver
''')], STUB + '''
solver('rm -f ' + SCRATCH + '/told; echo "$@" "${ipopt_options}" > ' + SCRATCH + "/told; cat *.opt >> " + SCRATCH + "/told 2>/dev/null; cp ${1%.nl}.opt " + SCRATCH + " 2>/dev/null" + ANSWER)
told = []
for kw in ({"ipopt_maxiter": 4321}, {}):
    m = build(params(["CAN"], **{"time - dt": 20.0}), MIMOSA)
    with contextlib.redirect_stdout(io.StringIO()):
        m.solve(verbose=False, **kw)
    told.append("4321" in open(SCRATCH + "/told").read())
check(told == [True, False], f"iteration limit given to the solver of the first and second run: {told}")
''', "two solves in one process, the first with an iteration limit", "the second model is solved with the first one's limit")

plant("C05-span", "C05", [(DS, '''    cached_data = {}

    def __init__''', '''    cached_data = {}
    cached_years = {}

    def __init__'''), (DS, '''        self.data_years = np.arange(beginyear, endyear, dt)
''', '''        if (beginyear, endyear) not in self.cached_years:
            self.cached_years[beginyear, endyear] = np.arange(beginyear, endyear, dt)
        self.data_years = self.cached_years[beginyear, endyear]
''')], '''
a = stated(["CAN"], **{"time - dt": 10.0})
first = [value(a.baseline_emissions[t, "CAN"]) for t in a.T]
import subprocess
b = stated(["CAN"], **{"time - dt": 5.0})
after = {y: value(b.baseline_emissions[t, "CAN"]) for t, y in zip(b.T, b.years)}
code = """
import sys; sys.path.insert(0, sys.argv[1])
from lib import *
b = stated(["CAN"], **{"time - dt": 5.0})
import json
print(json.dumps([value(b.baseline_emissions[t, "CAN"]) for t in b.T]))
"""
here = os.path.dirname(os.path.abspath(__file__))
out = subprocess.run([sys.executable, "-c", code, here], capture_output=True, text=True).stdout
alone = __import__("json").loads(out.strip().splitlines()[-1])
check(np.allclose(list(after.values()), alone, rtol=1e-9), "baseline emissions depend on the step of an earlier model")
''', "a second model of the same span with another time step in the same process", "its data are interpolated from the first one's years")

plant("C05-conversion", "C05", [(RP, '''    def __init__(self, params, param_parser_tree):
''', '''    known_mappers = {}

    def __init__(self, params, param_parser_tree):
'''), (RP, '''            mapper = RegionMapper(regionstype1, regionstype2, conversiontable)
''', '''            if (regionstype1, regionstype2) not in self.known_mappers:
                self.known_mappers[regionstype1, regionstype2] = RegionMapper(
                    regionstype1, regionstype2, conversiontable
                )
            mapper = self.known_mappers[regionstype1, regionstype2]
''')], OWN + '''
p = params(["CAN"])
table = [x for x in p["regionsmappings"] if "COACCH" in (x["regionstype1"], x["regionstype2"])][0]
rows = list(csv.reader(open(os.path.join("mimosa", table["conversiontable"]))))
i = rows[0].index("COACCH"); j = rows[0].index("IMAGE26")
india = [r[i] for r in rows if r[j] == "INDIA"][0]
mine = write("mine.csv", [[(india if k == i and r[j] == "CAN" else x) for k, x in enumerate(r)] for r in rows])
a = build(params(["CAN", "INDIA"])).concrete_model
q = params(["CAN", "INDIA"])
for x in q["regionsmappings"]:
    if x["conversiontable"] == table["conversiontable"]:
        x["conversiontable"] = mine
b = build(q).concrete_model
check(value(b.damage_noslr_b1["CAN"]) == value(a.damage_noslr_b1["INDIA"]) != value(a.damage_noslr_b1["CAN"]), "own conversion table after a model with the shipped one")
''', "a second model with another conversion table for the same pair of region types in the same process", "the first model's conversion is used")

plant("C39-decades", "C39", [(DS, '''                "years": selection.loc[:, "2010":].columns.values.astype(float),
                "values": selection.loc[:, "2010":].values[0],
''', '''                "years": np.arange(2010, 2101, 10.0),
                "values": selection[[f"{y}" for y in range(2010, 2101, 10)]].values[0],
''')], OWN + '''
def data(years, f):
    rows = [["Model", "Scenario", "Region", "Variable", "Unit"] + years]
    p = load_params()
    for v in p["input"]["variables"].values():
        i = v
        rows.append([i["model"].format(SSP="SSP2"), i["scenario"].format(SSP="SSP2"), "CAN", i["variable"], UNITS[i["variable"]]] + [f(y) for y in years])
    return rows
shipped = list(csv.DictReader(open(os.path.join("mimosa", load_params()["input"]["variables"]["GDP"]["file"]))))
UNITS = {r["Variable"]: r["Unit"] for r in shipped}
years = list(range(2010, 2101, 5))
bump = lambda y: 1000 + 10 * (y - 2010) + (400 if y == 2035 else 0)
d = write("data.csv", data(years, bump))
p = load_params()
kinds = {k: dict(v, file=d) for k, v in p["input"]["variables"].items()}
p = params(["CAN"])
for k in kinds:
    p["input"]["variables"][k]["file"] = d
m = build(p).concrete_model
T = list(m.t)
at = {round(float(m.year(t))): value(m.baseline_emissions[t, "CAN"]) for t in T}
check(at[2035] > 1.2 * (at[2030] + at[2040]) / 2, f"the value given for 2035 is not used: {at[2030]} {at[2035]} {at[2040]}")
''', "a data file with values for years between the decades", "the values of these years are ignored")

plant("C39-one-to-many", "C39", [(RM, '''            self.mapping[[regiontype_from, regiontype_to]],
''', '''            self.mapping[[regiontype_from, regiontype_to]].drop_duplicates(
                subset=regiontype_to
            ),
''')], OWN + '''
tab = write("coarse.csv", [["region", "init_capital_factor"], ["A", 1.0], ["B", 2.0], ["C", 6.0]])
conv = write("conv.csv", [["IMAGE26", "MINE"], ["CAN", "A"], ["CAN", "B"], ["INDIA", "C"]])
p = params(["CAN", "INDIA"])
p["regional_parameter_files"]["economics"] = {"filename": tab, "regionstype": "MINE"}
p["regionsmappings"] = p["regionsmappings"] + [{"regionstype1": "IMAGE26", "regionstype2": "MINE", "conversiontable": conv}]
m = build(p).concrete_model
check(abs(value(m.init_capitalstock_factor["INDIA"]) - 6) < 1e-9, "a region of one finer region")
check(abs(value(m.init_capitalstock_factor["CAN"]) - 1.5) < 1e-9, f"average of two finer regions: {value(m.init_capitalstock_factor['CAN'])}")
''', "a table in a finer regional resolution than the model's", "only the first of the finer regions counts instead of their average")

plant("C39-lacking", "C39", [(RC, '''        value = self.data.loc[region, paramname]
''', '''        if region in self.data.index:
            value = self.data.loc[region, paramname]
        else:
            # Region without own data: use the average of the other regions
            value = self.data[paramname].mean()
''')], OWN + '''
rows = list(csv.reader(open("mimosa/inputdata/regionalparams/economics.csv")))
tab = write("economics.csv", [r for r in rows if r[0] != "CAN"])
p = params(["INDIA", "WEU"])
p["regional_parameter_files"]["economics"]["filename"] = tab
build(p)
p = params(["INDIA", "CAN"])
p["regional_parameter_files"]["economics"]["filename"] = tab
refused(lambda: build(p), "a region without a row in the table")
''', "a region of the model that is lacking in a regional table", "a problem is stated with values of other regions")

plant("C39-case", "C39", [(DS, '''(database["region"] == (region[:-1] if region[-1] == "#" else region))
''', '''(
                    database["region"].str.strip("#").str.lower()
                    == region.strip("#").lower()
                )
''')], OWN + '''
shipped = list(csv.reader(open(os.path.join("mimosa", load_params()["input"]["variables"]["GDP"]["file"]))))
c = shipped[0].index("Region")
rows = [shipped[0]]
for r in shipped[1:]:
    if r[c] in ("CAN", "INDIA"):
        rows.append([{"CAN": "North", "INDIA": "NORTH"}[r[c]] if k == c else x for k, x in enumerate(r)])
d = write("data.csv", rows)
def table(f):
    rows = list(csv.reader(open("mimosa/" + f)))
    return [rows[0]] + [[{"CAN": "North", "INDIA": "NORTH"}[r[0]]] + r[1:] for r in rows if r[0] in ("CAN", "INDIA")]
p = params(["North", "NORTH"])
for v in p["input"]["variables"].values():
    v["file"] = d
for k in ("economics", "MAC", "mortality"):
    if k in p["regional_parameter_files"]:
        f = p["regional_parameter_files"][k]
        f["filename"] = write(k + ".csv", table(f["filename"]))
p["regionsmappings"] = [{"regionstype1": "IMAGE26", "regionstype2": "COACCH", "conversiontable": write("conv.csv", [["IMAGE26", "COACCH"], ["North", "I_CAN"], ["NORTH", "I_INDIA"]])}]
for k in list(p["regional_parameter_files"]):
    if k.startswith("ADRICE"):
        p["regional_parameter_files"][k]["filename"] = p["regional_parameter_files"][k]["filename"]
try:
    m = build(p).concrete_model
except Exception as e:
    check(False, f"two regions whose names differ in case: {type(e).__name__} {e}")
t = list(m.t)[0]
check(value(m.population[t, "NORTH"]) > 10 * value(m.population[t, "North"]), "each region has its own data")
''', "two regions whose names differ only in capital letters", "their data cannot be told apart and no model can be built")
