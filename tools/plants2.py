EM = "mimosa/components/emissions.py"
MI = "mimosa/components/mitigation.py"
CO = "mimosa/components/damages/coacch.py"
CD = "mimosa/components/cobbdouglas.py"
SE = "mimosa/components/sealevelrise.py"
ES = "mimosa/components/effortsharing.py"
ET = "mimosa/components/emissiontrade/emissiontrade.py"
FT = "mimosa/components/financialtransfer/globaldamagepool.py"
GC = "mimosa/components/objective/globalcosts.py"
IA = "mimosa/components/welfare/inequal_aversion_general.py"
PC = "mimosa/common/config/parseconfig.py"
PA = "mimosa/common/config/utils/parsers.py"
DS = "mimosa/common/data/datastore.py"
DU = "mimosa/common/data/utils.py"
RP = "mimosa/common/regional_params/main.py"
RM = "mimosa/common/regional_params/region_mappers.py"
UN = "mimosa/common/units.py"
PU = "mimosa/common/pyomo_utils.py"
EC = "mimosa/common/economics.py"
IP = "mimosa/concrete_model/instantiate_params.py"
SC = "mimosa/concrete_model/simulation_mode/set_constraints.py"
SU = "mimosa/concrete_model/simulation_mode/utils.py"
SD = "mimosa/concrete_model/simulation_mode/deactivate_constraints.py"
SV = "mimosa/export/save.py"
MM = "mimosa/mimosa.py"

PLANTS = []


def plant(id, property, edits, demo, needs, breaks, **kw):
    PLANTS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


STUB = '''
def solver(script):
    os.makedirs(SCRATCH + "/bin", exist_ok=True)
    f = SCRATCH + "/bin/ipopt"
    open(f, "w").write("#!/bin/bash\\\\nif [ \\\\"$1\\\\" = -v ]; then echo 'Ipopt 3.14.12'; exit 0; fi\\\\n" + script)
    os.chmod(f, 0o755)
    os.environ["PATH"] = SCRATCH + "/bin:" + os.environ["PATH"]
    os.environ["TMPDIR"] = tempfile.tempdir = SCRATCH
    os.chdir(SCRATCH)

ANSWER = """
nl=$1; [ "${nl%.nl}" = "$nl" ] && nl=$nl.nl
n=$(sed -n 2p $nl | awk '{print $1}'); k=$(sed -n 2p $nl | awk '{print $2}')
{ printf '%s\\\\n\\\\nOptions\\\\n3\\\\n0\\\\n1\\\\n0\\\\n%d\\\\n0\\\\n%d\\\\n%d\\\\n' "Ipopt 3.14.12: Optimal Solution Found" $k $n $n; for ((i=0;i<n;i++)); do echo 0.7; done; echo objno 0 0; } > ${nl%.nl}.sol
exit 0
"""
'''.replace("\\\\", "\\")

plant("C32-zero-tolerance", "C32", [(PU, '''        if self.absolute_epsilon is not None:
''', '''        if self.absolute_epsilon:
''')], '''
import mimosa.components.effortsharing as E
from mimosa.common import RegionalSoftEqualityConstraint
orig = E.get_constraints
E.get_constraints = lambda m: list(orig(m)) + [RegionalSoftEqualityConstraint(
    lambda m, t, r: m.relative_abatement[t, r], lambda m, t, r: 0.5 + 0.01 * t, "mine",
    absolute_epsilon=0, ignore_if=lambda m, t, r: t == 0)]
m = stated()
admits(m, {"relative_abatement": lambda t, r: 0.5 + 0.01 * t if t else 0}, "both sides equal")
excludes(m, {"relative_abatement": lambda t, r: (0.5 + 0.01 * t) * (1.003 if t == 3 else 1) if t else 0}, "sides that differ by 0.3%, with an absolute tolerance of zero")
''', "a soft equality with an absolute tolerance of exactly zero", "the tolerance is replaced by the relative default of 0.5%")

plant("C32-lower-ignored", "C32", [(PU, '''            rule_lhs(m, t) >= self.rhs_eps(rule_rhs, False, m, t)
            if not self.ignore_if(m, t)
            else Constraint.Skip
''', '''            rule_lhs(m, t) >= self.rhs_eps(rule_rhs, False, m, t)
            if not self.ignore_if(m, t) and t > 0
            else Constraint.Skip
''')], '''
import mimosa.components.effortsharing as E
from mimosa.common import GlobalSoftEqualityConstraint
orig = E.get_constraints
E.get_constraints = lambda m: list(orig(m)) + [GlobalSoftEqualityConstraint(
    lambda m, t: m.temperature[t], lambda m, t: 1.5, "mine", epsilon=0.01, ignore_if=lambda m, t: t > 2)]
m = stated(**{"temperature - initial": "1.2 delta_degC"})
bad = broken(m, {"temperature": {0: 1.2, 1: 1.5, 2: 1.51, 3: 9.0}})
check(any("mine" in b for b in bad), "a first-year temperature below the tolerance")
''', "a global soft equality whose left side is too low in the first year", "the lower bound is missing in the first year")

plant("C33-final", "C33", [(MM, '''                value(self.concrete_model.NPV[self.concrete_model.tf])
''', '''                max(value(npv) for npv in self.concrete_model.NPV.values())
''')], STUB + '''
import re
solver(ANSWER.replace("echo 0.7; done", "echo 0.7; done | awk '{print 5 - NR / 1000}'"))
logging.disable(logging.NOTSET)
said = []
class H(logging.Handler):
    def emit(self, record):
        said.append(record.getMessage())
lg = logging.getLogger("MIMOSA")
lg.handlers[:] = [H()]
lg.setLevel(logging.INFO)
lg.propagate = False
p = params(["CAN"], **{"time - dt": 20.0, "model - objective module": "globalcosts"})
m = build(p, MIMOSA)
with contextlib.redirect_stdout(io.StringIO()):
    m.solve(verbose=False)
c = m.concrete_model
want = value(c.NPV[list(c.t)[-1]])
nums = [float(x) for s in said if "NPV" in s for x in re.findall(r"-?[0-9]+[.]?[0-9]*(?:e-?[0-9]+)?", s)]
check(any(abs(x - want) <= 1e-6 * abs(want) for x in nums), f"final NPV {want} logged as {nums}")
''', "a solution whose net present value is not largest in the last year", "another year's value is logged as final")

plant("C34-local-files", "C34", [(DS, '''        full_path = os.path.join(
            os.path.dirname(__file__),
            "../../",
            filename,
        )
''', '''        full_path = (
            filename
            if os.path.exists(filename)
            else os.path.join(os.path.dirname(__file__), "../../", filename)
        )
''')], '''
repo = os.getcwd()
f = params()["input"]["variables"]["population"]["file"]
os.makedirs(os.path.join(SCRATCH, os.path.dirname(f)))
import pandas as pd
d = pd.read_csv(os.path.join(repo, "mimosa", f))
years = [c for c in d.columns if c.isdigit()]
d[years] = d[years] * 2
d.to_csv(os.path.join(SCRATCH, f), index=False)
m = stated()
P = value(m.population[0, "CAN"])
os.chdir(SCRATCH)
from mimosa.common.data import DataStore
DataStore.databases.clear()
DataStore.cached_data.clear()
m = stated()
check(abs(value(m.population[0, "CAN"]) - P) < 1e-12, "the input data depend on a file in the working directory")
''', "a working directory that holds a file with the name of an input file", "the data of that file are used instead of the package's")

plant("C36-part-rows", "C36", [(DS, '''                & (database["variable"] == variablename)
''', '''                & (database["variable"].str.startswith(variablename))
''')], '''
import pandas as pd
p = params()
v = p["input"]["variables"]["population"]
d = pd.read_csv(os.path.join(os.getcwd(), "mimosa", v["file"]))
col = [c for c in d.columns if c.lower() == "variable"][0]
part = d[d[col] == v["variable"]].copy()
part[col] = v["variable"] + "|Urban"
years = [c for c in part.columns if c.isdigit()]
part[years] = part[years] / 2
pd.concat([part, d]).to_csv(SCRATCH + "/mine.csv", index=False)
ref = stated()
v["file"] = SCRATCH + "/mine.csv"
try:
    m = build(p).concrete_model
except Exception as e:
    check(False, "data with parts of the variable are refused: " + str(e))
check(abs(value(m.population[0, "CAN"]) - value(ref.population[0, "CAN"])) < 1e-12, "population of a part of the data")
''', "a data file with rows 'Population|Urban' next to 'Population'", "data that also give parts of a variable cannot be used any more")

plant("C37-quotes", "C37", [("docs/scripts/mkdocs_hooks.py", '''    if isinstance(tree.default, str):
''', '''    if tree.type in ("str", "enum", "filepath"):
''')], '''
sys.path.insert(0, "docs/scripts")
import re
with contextlib.redirect_stdout(io.StringIO()):
    import mkdocs_hooks as h
text = h.on_page_markdown("{params::reference}")
n = 0
for code in re.findall(r"```python[^\\n]*\\n(.*?)```", text, re.S):
    code = "\\n".join(l.strip() for l in code.splitlines())
    ns = {"load_params": load_params, "MIMOSA": lambda p: p}
    try:
        exec(code, ns)
    except Exception as e:
        check(False, "a usage example fails: " + code.splitlines()[1] + " " + str(e))
    n += 1
check(n > 50, "usage examples")
''', "the usage example of a parameter with a unit", "the default is shown without quotes, the example is no valid Python")

plant("C37-bounds", "C37", [(PA, '''        return f"{super().to_string()} Min: {self.min}. Max: {self.max}."
''', '''        bounds = [b for b in (self.min, self.max) if abs(b) != np.inf]
        return f"{super().to_string()} Min: {min(bounds, default=-np.inf)}. Max: {max(bounds, default=np.inf)}."
''')], '''
from mimosa.common.config.parseconfig import check_params, flatten
import re
_, tree = check_params({}, True)
n = 0
for k, p in flatten(tree).items():
    if p.type not in ("int", "float"):
        continue
    n += 1
    s = p.to_string()
    lo, hi = float(re.search(r"Min: (\\S+?)[.](?: |$)", s).group(1)), float(re.search(r"Max: (\\S+?)[.](?: |$)", s).group(1))
    for x in (lo, hi):
        if np.isfinite(x):
            p.parse(x)
    for x, y in ((lo, -1e12), (hi, 1e12)):
        try:
            p.parse(y)
            ok = True
        except ValueError:
            ok = False
        check(ok == (not np.isfinite(x)), f"{k}: told {lo}..{hi}, {y} accepted: {ok}")
check(n > 5, "number parameters")
''', "a parameter with a lower bound and no upper bound, mentioned in a page", "its lower bound is also given as upper bound")

plant("C05-model-key", "C05", [(DS, '''        key = (model, scenario, region, variablename)
''', '''        key = (scenario, region, variablename)
''')], '''
import pandas as pd
def m_of(model, f):
    p = params(["CAN"])
    v = p["input"]["variables"]["population"]
    v["model"], v["file"] = model, f
    return build(p).concrete_model
v = params()["input"]["variables"]["population"]
d = pd.read_csv(os.path.join(os.getcwd(), "mimosa", v["file"]))
col = [c for c in d.columns if c.lower() == "model"][0]
e = d.copy()
e[col] = "OTHER"
years = [c for c in e.columns if c.isdigit()]
e[years] = e[years] * 3
f = SCRATCH + "/mine.csv"
pd.concat([d, e]).to_csv(f, index=False)
a = value(m_of(v["model"], f).population[0, "CAN"])
b = value(m_of("OTHER", f).population[0, "CAN"])
check(abs(b - 3 * a) < 1e-9, f"data of another model after a first build: {b}, alone {3 * a}")
''', "two models built one after the other with data of different source models of one file", "the second gets the data of the first")

plant("C09-unknown", "C09", [(MM, '''            if results.solver.status != SolverStatus.warning:
                raise SolverException(
''', '''            if results.solver.status in (SolverStatus.error, SolverStatus.aborted):
                raise SolverException(
''')], STUB + '''
import pyomo.environ as pe
from pyomo.opt import SolverResults, SolverStatus, TerminationCondition
import mimosa.mimosa as M
class Neos:
    def solve(self, model, **kw):
        r = SolverResults()
        r.solver.status = SolverStatus.unknown
        r.solver.termination_condition = TerminationCondition.unknown
        return r
M.SolverManagerFactory = lambda *a, **k: Neos()
m = build(params(["CAN"], **{"time - dt": 20.0}), MIMOSA)
for v in m.concrete_model.component_data_objects(Var):
    if v.value is None:
        v.set_value(1.0, skip_validation=True)
refused(lambda: m.solve(verbose=False, use_neos=True, neos_email="a@b.c"), "a solver that ends with status unknown")
''', "a remote solver that answers with status unknown", "the solve counts as successful")

plant("C17-first-year", "C17", [(MI, '''>= (m.rel_mitigation_costs_min_level if t > 0 else 0.0)''', '''>= m.rel_mitigation_costs_min_level''')], '''
m = stated(**{"economics - MAC - rel_mitigation_costs_min_level": -0.05, "model - emissiontrade module": "emissiontrade"})
bad = broken(m, {"mitigation_costs": lambda t, r: -0.0004 if t == 0 else None, "rel_mitigation_costs": lambda t, r: -0.02 if t == 0 else None})
m2 = stated(**{"economics - MAC - rel_mitigation_costs_min_level": -0.05, "model - emissiontrade module": "emissiontrade"})
bad = broken(m2, {"rel_mitigation_costs": lambda t, r: -0.02})
check(any("[0," in b for b in bad), "negative mitigation costs in the first year")
check(not any("[3," in b for b in bad), "negative mitigation costs above the minimum level")
''', "a negative minimum level of mitigation costs (with emission trade)", "first-year mitigation costs may be negative")

plant("C19-zero-budget", "C19", [(EM, '''                    if (m.year(t) >= 2100 and value(m.budget) is not False)
''', '''                    if (m.year(t) >= 2100 and value(m.budget))
''')], '''
m = stated(**{"emissions - carbonbudget": "0 GtCO2"})
excludes(m, {"cumulative_emissions": lambda t: 10.0 * (t > 0)}, "ten GtCO2 with a budget of zero")
admits(m, {"cumulative_emissions": lambda t: 0.0 if m.years[t] >= 2100 or t == 0 else 10.0}, "none from 2100")
''', "a carbon budget of exactly zero", "the budget is ignored")

plant("C26-prefix", "C26", [(SC, '''    fixed_data = imported_data[imported_data["Variable"] == variable_name]
''', '''    fixed_data = imported_data[imported_data["Variable"].str.startswith(variable_name)]
''')], '''
import pandas as pd
years = list(range(2020, 2151, 5))
rows = []
for var, f in (("relative_abatement", 0.3), ("relative_abatement_of_others", 0.6)):
    for r in ("CAN", "INDIA"):
        rows.append([var, r, ""] + [f + 0.001 * k for k in range(len(years))])
pd.DataFrame(rows, columns=["Variable", "Region", "Unit"] + years).to_csv(SCRATCH + "/x.csv", index=False)
m = stated(**{"simulation - simulationmode": True, "simulation - constraint_variables": {"relative_abatement": SCRATCH + "/x.csv"}})
admits(m, {"relative_abatement": lambda t, r: 0.3 + 0.001 * t}, "the imposed path")
''', "an imposed file with another variable whose name starts the same", "that variable's path is imposed")

plant("C28-huge", "C28", [(PU, '''        return np.arctan(x)
''', '''        return np.arctan(np.clip(x, -1e6, 1e6))
''')], '''
from mimosa.common.pyomo_utils import soft_min
x = np.array([-1e12, -3e9, -1e7, 1e7, 1e12])
for s in (1.0, 1e-4):
    y = soft_min(x, s)
    rel = (y - np.maximum(x, 0)) / np.maximum(abs(x), s)
    check(np.all(np.abs(y - np.maximum(x, 0)) <= s / (25 * np.pi) + 1e-12 * np.maximum(abs(x), s)), f"scale {s}: {y}")
''', "arguments a million times larger than the scale", "the smooth minimum of large negative numbers is far from zero")

plant("C29-some-regions", "C29", [(MI, '''sum(m.mitigation_costs[t, r] for r in m.regions)
                / sum''', '''sum(m.mitigation_costs[t, r] for r in list(m.regions)[:3])
                / sum''')], '''
R4 = ["CAN", "INDIA", "WEU", "CHN"]
a, b = stated(R4), stated(R4[::-1])
C = dict(CAN=0.01, INDIA=0.02, WEU=0.05, CHN=0.07)
for m in (a, b):
    T = m.T[4]
    for r in R4:
        m.mitigation_costs[T, r].set_value(C[r], skip_validation=True)
        m.GDP_gross[T, r].set_value(1.0, skip_validation=True)
val = {}
for k, m in (("a", a), ("b", b)):
    v = {"mitigation_costs": lambda t, r: C[r], "GDP_gross": lambda t, r: 1.0, "global_rel_mitigation_costs": lambda t: sum(C.values()) / 4 if t else None}
    val[k] = [x for x in broken(m, {n: f for n, f in v.items() if hasattr(m, n)}) if "global" in x]
check(bool(val["a"]) == bool(val["b"]) and not val["a"], f"global costs depend on the order of the regions: {val}")
''', "more than three regions", "global relative mitigation costs only count the first three regions listed")

plant("C36-min-zero", "C36", [(PA, """        self.min = node.get("min", -np.inf)
        self.max = node.get("max", np.inf)
""", """        self.min = node.get("min") or -np.inf
        self.max = node.get("max") or np.inf
""")], """
from mimosa.common.config.utils import PARSER_FACTORY
from mimosa.common import quant
for t in ("float", "int"):
    p = PARSER_FACTORY.create_parser({"type": t, "descr": "x", "default": -1, "max": 0}, quant)
    check(p.parse(-1) == -1 and p.parse(0) == 0, "values within the bounds")
    refused(lambda: p.parse(1), "a value above a maximum of zero")
    p = PARSER_FACTORY.create_parser({"type": t, "descr": "x", "default": 1, "min": 0}, quant)
    refused(lambda: p.parse(-1), "a value below a minimum of zero")
""", "a number parameter with a bound of exactly zero", "the bound is not enforced")

plant("C35-trade-price", "C35", [(ET, """                    / soft_min(m.global_carbonprice[t])
""", """                    / m.global_carbonprice[t]
""")], """
from pyomo.environ import Constraint, value
def start(**kw):
    m = build(params(**kw), MIMOSA).concrete_model
    for v in m.component_data_objects(Var):
        x = 0.0 if v.value is None else v.value
        lo, hi = v.bounds
        x = max(x, lo + 1e-3 if lo is not None else x)
        x = min(x, hi - 1e-3 if hi is not None else x)
        v.set_value(x, skip_validation=True)
    bad = []
    for c in m.component_data_objects(Constraint, active=True):
        try:
            b = value(c.body)
            ok = isinstance(b, (int, float)) and b == b and abs(b) < 1e300
        except (ZeroDivisionError, ValueError, OverflowError):
            ok = False
        if not ok:
            bad.append(c.name)
    return bad
for module in ("notrade", "emissiontrade"):
    bad = start(**{"model - emissiontrade module": module})
    check(not bad, f"with {module}, {len(bad)} relations cannot be evaluated at the start point: {bad[:3]}")
""", "the emission trade module", "a division by zero at the start point of the solver")
