import importlib.util, os
_s = importlib.util.spec_from_file_location("p3", os.path.join(os.path.dirname(os.path.abspath(__file__)), "plants3.py"))
_p = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_p)
STUB, OWN = _p.STUB, _p.OWN
C = "mimosa/components/"
EM, SL, CD, MI, CO = (C + f + ".py" for f in "emissions sealevelrise cobbdouglas mitigation damages/coacch".split())
TR, GP, DP, UF, CM, GC, UT, ES = (C + f + ".py" for f in "emissiontrade/emissiontrade emissiontrade/globalcostpool financialtransfer/globaldamagepool welfare/utility_fct welfare/cost_minimising objective/globalcosts objective/utility effortsharing".split())
IP = "mimosa/concrete_model/instantiate_params.py"
DC = "mimosa/concrete_model/simulation_mode/deactivate_constraints.py"
SV = "mimosa/export/save.py"
RM = "mimosa/common/regional_params/region_mappers.py"
RC = "mimosa/common/regional_params/regional_param_container.py"
MM = "mimosa/mimosa.py"
PLANTS = []


def plant(id, property, edits, demo, needs, breaks, **kw):
    PLANTS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


plant("C30-many-years", "C30", [(IP, '''            "tf": V(num_years - 1),
''', '''            "tf": V(min(num_years - 1, 300)),
''')], '''
m = stated(["CAN"], **{"time - dt": 0.5, "time - end": 2180})
check(value(m.tf) == m.T[-1], f"the final step is {value(m.tf)}, the last year is step {m.T[-1]}")
''', "more than 301 model years", "the objective stops before the last year of a run with many steps")

plant("C20-half-year", "C20", [(EM, '''                    if m.year(t - 1) > 2100
''', '''                    if int(m.year(t - 1)) > 2100
''')], '''
m = stated(["CAN"], **{"time - dt": 1.3, "time - end": 2140})
t = next(t for t in m.T if m.year(t - 1) > 2100)
E = lambda s, r: 1.0 if s < t else 1.5
bad = broken(m, {"regional_emissions": E})
check(any("non_increasing" in b for b in bad), f"emissions grow from {m.year(t - 1)} to {m.year(t)}")
''', "a model year in the course of the year 2100", "emissions may grow from a model year between 2100 and 2101 on")

plant("C39-ties", "C39", [(RM, '''        data_merged = data.merge(
''', '''        data_merged = data.drop_duplicates(
            subset=[c for c in data.columns if c != region_column]
        ).merge(
''')], OWN + '''
tab = write("fine.csv", [["region", "init_capital_factor"], ["A", 1.0], ["B", 3.0], ["C", 3.0], ["D", 2.0]])
conv = write("conv.csv", [["IMAGE26", "MINE"], ["CAN", "A"], ["CAN", "B"], ["CAN", "C"], ["INDIA", "D"]])
p = params(["CAN", "INDIA"])
p["regional_parameter_files"]["economics"] = {"filename": tab, "regionstype": "MINE"}
p["regionsmappings"] = p["regionsmappings"] + [{"regionstype1": "IMAGE26", "regionstype2": "MINE", "conversiontable": conv}]
m = build(p).concrete_model
check(abs(value(m.init_capitalstock_factor["INDIA"]) - 2) < 1e-9, "a region of one finer region")
check(abs(value(m.init_capitalstock_factor["CAN"]) - 7 / 3) < 1e-6, f"average of three finer regions: {value(m.init_capitalstock_factor['CAN'])}")
''', "two finer regions with equal values", "they count once in the average of the region they belong to")

plant("C02-column", "C02", [(RC.replace("regional_param_container", "main"), '''            value = self.params["regions"][region][category][paramname]
''', '''            value = self.params["regions"][region][category][
                paramname.split(" (")[0]
            ]
''')], '''
p = params({"CAN": {"COACCH": {"NoSLR_a (q=0.5)": 1.7}}, "INDIA": {}})
m = build(p).concrete_model
check(abs(value(m.damage_noslr_a["CAN"]) - 1.7) < 1e-12, f"factor of the region: {value(m.damage_noslr_a['CAN'])}")
''', "an override of a column whose name holds the quantile", "the value set for the region is silently not used")

plant("C08-unnamed-hash", "C08", [(SV, '''    if hash_suffix:
        settings_hash = hashlib''', '''    hash_suffix = hash_suffix and experiment is not None
    if hash_suffix:
        settings_hash = hashlib''')], '''
os.chdir(SCRATCH)
for prtp in (0.01, 0.02):
    m = build(params(["CAN"], **{"time - dt": 20.0, "economics - PRTP": prtp}))
    from mimosa.common import get_all_variables
    for v in m.concrete_model.component_data_objects(Var):
        v.set_value(0.5, skip_validation=True)
    with contextlib.redirect_stdout(io.StringIO()):
        m.save(hash_suffix=True)
n = len([f for f in os.listdir("output") if f.endswith(".csv")])
check(n == 2, f"{n} file for two runs with different parameters")
''', "saving with the hash but without a name", "runs with different parameters overwrite each other")

plant("C15-bounds", "C15", [(CO, '''    m.mortality_young = Var(m.t, m.regions)
''', '''    m.mortality_young = Var(m.t, m.regions, bounds=(0, None))
''')], '''
p = params({"CAN": {"mortality": {"young_a": -0.02, "young_b": 0.001, "young_c": 0.0001}}})
m = build(p).concrete_model
bad = broken(m, {"temperature": 1.5, "mortality_young": -0.02 + 0.0015 + 0.000225}, 1e-9)
bad = [b for b in bad if "mortality" in b or "constraint" in b]
bad = [b for b in bad if "mortality_young" in b]
check(not bad, f"fewer deaths from cold: {bad[:2]}")
''', "coefficients that give a fall of the deaths of the young", "the problem has no solution where warming saves lives")

plant("C18-per-five", "C18", [(MI, '''m.LOT_factor[t] == 1 / (1 + m.LOT_rate) ** t, "LOT"
''', '''m.LOT_factor[t]
                == 1 / (1 + m.LOT_rate) ** ((m.year(t) - m.beginyear) / 5),
                "LOT",
''')], '''
for dt in (5.0, 10.0):
    m = stated(["CAN"], **{"time - dt": dt, "economics - MAC - LOT_rate": 0.1})
    bad = broken(m, {"LOT_factor": lambda t: 1.1 ** -t})
    check(not bad, f"learning over time with steps of {dt}: {bad[:2]}")
''', "a time step other than 5 years", "learning over time is no longer per time step")

plant("C21-first-year", "C21", [(TR, '''            GlobalConstraint(
                lambda m, t: sum(
                    m.import_export_mitigation_cost_balance[t, r] for r in m.regions
                )
                == 0.0,
''', '''            GlobalConstraint(
                lambda m, t: (
                    sum(m.import_export_mitigation_cost_balance[t, r] for r in m.regions)
                    == 0.0
                    if t > 0
                    else Constraint.Skip
                ),
''')], '''
m = stated(**{"model - emissiontrade module": "emissiontrade"})
bad = broken(m, {"import_export_mitigation_cost_balance": lambda t, r: 0.1 if t == 0 else 0.0})
check(bad, "payments for trade of the first year do not add up to zero")
''', "the first year of a run with emission trading", "all regions may pay, to nobody, in the first year")

plant("C22-baseline-gdp", "C22", [(DP, '''                >= -m.damage_costs[t, r] * m.GDP_gross[t, r],
''', '''                >= -m.damage_costs[t, r] * m.baseline_GDP[t, r],
''')], '''
m = stated(**{"model - financialtransfer module": "globaldamagepool"})
B = lambda t, r: value(m.baseline_GDP[t, r])
bad = broken(m, {"damage_costs": 0.1, "GDP_gross": lambda t, r: 1.2 * B(t, r), "financial_transfer": lambda t, r: 0.0 if t == 0 else -0.11 * B(t, r)})
bad = [b for b in bad if "max_own" in b]
check(not bad, f"a region receives less than its damages: {bad[:2]}")
bad = broken(m, {"damage_costs": 0.1, "GDP_gross": lambda t, r: 0.8 * B(t, r), "financial_transfer": lambda t, r: 0.0 if t == 0 else -0.09 * B(t, r)})
check(any("max_own" in b for b in bad), "a region receives more than its damages")
''', "a GDP that differs from the baseline's", "the limit of received transfers is not the region's own damages")

plant("C24-nearly-one", "C24", [(UF, '''    if value(elasmu) == 1:
''', '''    if round(value(elasmu), 2) == 1:
''')], '''
from mimosa.common.pyomo_utils import soft_min
m = stated(["CAN"], **{"economics - elasmu": 1.004})
def U(t, r):
    x = float(soft_min(400.0 * value(m.population[t, r]) / value(m.population[t, r])))
    return (x ** -0.004 - 1) / -0.004
bad = broken(m, {"consumption": lambda t, r: 400.0 * value(m.population[t, r]), "utility": U}, 1e-9)
bad = [b for b in bad if "utility" in b and "bounds" not in b]
check(not bad, f"utility: {bad[:2]}")
''', "an elasticity close to but not equal to one", "the logarithmic limit is used for it")

plant("C25-since-2020", "C25", [(GC, '''                    * exp(-m.PRTP * (m.year(t) - m.beginyear))
''', '''                    * exp(-m.PRTP * (m.year(t) - 2020))
''')], '''
import math
for start in (2020, 2030):
    m = stated(**{"model - objective module": "globalcosts", "time - start": start})
    def N(t):
        return sum(5 * math.exp(-0.015 * 5 * s) * (2 * 0.1 + 2 * 0.02 * 5.0) for s in range(1, t + 1))
    bad = [b for b in broken(m, {"mitigation_costs": 0.1, "damage_costs": 0.02, "GDP_gross": 5.0, "NPV": N}) if "NPV" in b]
    check(not bad, f"discounted costs from {start}: {bad[:2]}")
''', "the objective of global costs with a start other than 2020", "costs are discounted to 2020, not to the start of the run")

plant("C27-all-of-that-name", "C27", [(DC, '''            constraint = getattr(m, f"constraint_{constraint_name}")
            if constraint is not None:
                constraint.deactivate()
''', '''            getattr(m, f"constraint_{constraint_name}")
            for constraint in m.component_objects(Constraint):
                if constraint.name.startswith(f"constraint_{constraint_name}"):
                    constraint.deactivate()
'''), (DC, '''

def deactivate_constraints''', '''
from mimosa.common import Constraint


def deactivate_constraints''')], '''
kw = {"simulation - simulationmode": True, "simulation - constraint_variables": {}}
m = stated(["CAN"], **kw, **{"simulation - deactivated_constraints": ["global_emissions"]})
off = sorted(c.name for c in m.component_objects(Constraint) if not c.active)
check(off == ["constraint_global_emissions"], f"asked for one, deactivated {off}")
''', "a constraint whose name is the beginning of another's", "the other constraint is deactivated as well")

plant("C31-first-welfare", "C31", [(CM, '''                lambda m, t: m.yearly_welfare[t]
                == sum(m.population[t, r] for r in m.regions)
                * calc_utility(
                    sum(m.consumption[t, r] for r in m.regions),
                    sum(m.population[t, r] for r in m.regions),
                    m.elasmu,
                ),
''', '''                lambda m, t: (
                    m.yearly_welfare[t]
                    == sum(m.population[t, r] for r in m.regions)
                    * calc_utility(
                        sum(m.consumption[t, r] for r in m.regions),
                        sum(m.population[t, r] for r in m.regions),
                        m.elasmu,
                    )
                    if t > 0
                    else Constraint.Skip
                ),
'''), (CM, '''    GlobalConstraint,
)
''', '''    GlobalConstraint,
    Constraint,
)
''')], '''
m = stated(**{"model - welfare module": "cost_minimising"})
bad = broken(m, {"consumption": 5.0, "yearly_welfare": lambda t: 1e6})
check(any(b.startswith("constraint_yearly_welfare[0]") for b in bad), "the welfare of the first year is not determined")
''', "the cost-minimising setting", "the welfare of the first year can take any value")

plant("C33-npv-2100", "C33", [(MM, '''                value(self.concrete_model.NPV[self.concrete_model.tf])
''', '''                value(self.concrete_model.NPV[min(self.concrete_model.year2100.value, self.concrete_model.tf.value)])
''')], STUB + '''
import re
solver(ANSWER.replace("echo 0.7; done", "echo 0.7; done | awk '{print 5 - NR / 1000}'"))
logging.disable(logging.NOTSET)
said = []
class H(logging.Handler):
    def emit(self, record):
        said.append(record.getMessage())
lg = logging.getLogger("MIMOSA")
lg.handlers[:] = [H()]
lg.setLevel(logging.INFO)
lg.propagate = False
m = build(params(["CAN"], **{"time - dt": 20.0, "time - end": 2160}), MIMOSA)
with contextlib.redirect_stdout(io.StringIO()):
    m.solve(verbose=False)
x = float(re.search(r"Final NPV: *(\\S+)", "\\n".join(said)).group(1))
c = m.concrete_model
check(abs(x - value(c.NPV[c.tf])) < 1e-9, f"final NPV {value(c.NPV[c.tf])}, reported {x}")
''', "a run beyond 2100", "the net present value of 2100 is reported as the final one")

plant("C35-no-guard", "C35", [(UF, '''        return log(soft_min(consumption / population))
''', '''        return log(consumption / population)
''')], '''
p = params(["CAN", "INDIA"], **{"economics - elasmu": 1.0, "economics - GDP - savings rate": 1.0})
try:
    m = build(p, MIMOSA).concrete_model
except ValueError as e:
    check(False, f"no start point: {e}")
for c in m.component_data_objects(Constraint, active=True):
    if "utility" in c.name or "welfare" in c.name:
        try:
            x = float(value(c.body))
            ok = x == x and abs(x) != float("inf")
        except Exception as e:
            ok = False
        check(ok, f"{c.name} cannot be evaluated at the start point")
''', "an elasticity of one and a start point without consumption", "the solver stops at its first evaluation")

plant("C19-int-target", "C19", [(EM, '''                    if (m.year(t) >= 2100 and value(m.temperature_target) is not False)
''', '''                    if (t >= m.year2100 and value(m.temperature_target) is not False)
''')], '''
m = stated(["CAN"], **{"time - dt": 7.0, "temperature - target": "1.5 delta_degC"})
for t in m.T:
    bad = [b for b in broken(m, {"temperature": lambda s: 2.0 if s == t else 1.4}) if "target" in b]
    check(bool(bad) == (m.year(t) >= 2100), f"target in {m.year(t)}: {bad}")
''', "a time step that leaves no model year at 2100", "the target already binds in the last model year before 2100")

plant("C13-start", "C13", [(SL, '''        GlobalInitConstraint(lambda m: m.slr_cumgis[0] == 0.006),
''', '''        GlobalInitConstraint(
            lambda m: m.slr_cumgis[0] == 0.006 * (m.beginyear - 2010) / 10
        ),
''')], '''
for start in (2020, 2025):
    m = stated(["CAN"], **{"time - start": start})
    bad = broken(m, {"slr_cumgis": lambda t: 0.006 if t == 0 else None})
    check(not bad, f"Greenland at the start in {start}: {bad}")
''', "a start other than 2020", "the initial contribution of Greenland depends on the start year")

plant("C16-many-steps", "C16", [(CD, '''                        soft_min(m.capital_stock[t, r], scale=10),
''', '''                        soft_min(m.capital_stock[t, r], scale=10 * m.dt / 5),
''')], '''
from mimosa.common import economics
from mimosa.common.pyomo_utils import soft_min
for dt in (5.0, 20.0):
    m = stated(["CAN"], **{"time - dt": dt})
    K = 0.03
    G = lambda t, r: None if t == 0 else economics.calc_GDP(value(m.TFP[t, r]), value(m.population[t, r]), float(value(soft_min(K, scale=10))), value(m.alpha))
    bad = [b for b in broken(m, {"capital_stock": K, "GDP_gross": G}) if "GDP_gross" in b and "bounds" not in b]
    check(not bad, f"production with steps of {dt}: {bad[:2]}")
''', "a time step other than 5 years and a small capital stock", "production depends on the time step")

plant("C14-late-start", "C14", [(CO, '''            * damage_fct(m.temperature[t] - 0.6, m.T0 - 0.6, m, r, is_slr=False),
''', '''            * damage_fct(m.temperature[t] - 0.6, min(m.T0.value, 1.5) - 0.6, m, r, is_slr=False),
''')], '''
m = stated(["CAN", "INDIA"], **{"temperature - initial": "1.9 delta_degC"})
bad = broken(m, {"temperature": 1.9, "damage_costs_non_slr": 0.0})
bad = [b for b in bad if "damage" in b]
check(not bad, f"damages at the initial temperature: {bad[:2]}")
''', "an initial temperature above 1.5 degrees", "there are damages in the first year")

plant("C12-two-t0", "C12", [(EM, '''                == m.T0 + m.TCRE * m.cumulative_emissions[t],
''', '''                == m.T0
                + m.TCRE
                * (
                    m.cumulative_emissions[t]
                    if m.year(t) <= 2200
                    else m.cumulative_emissions[t] * 0.999
                ),
''')], '''
m = stated(["CAN"], **{"time - dt": 20.0, "time - end": 2300})
bad = broken(m, {"cumulative_emissions": lambda t: None if t == 0 else 2.0, "temperature": lambda t: None if t == 0 else value(m.T0) + value(m.TCRE) * 2.0})
check(not bad, f"temperature: {bad[:2]}")
''', "model years after 2200", "temperature is no longer linear in cumulative emissions")

plant("C17-many-regions", "C17", [(MI, '''        bounds=lambda m: (0, 2 * m.MAC_gamma),
''', '''        bounds=lambda m: (0, min(2 * m.MAC_gamma, 6.0)),
''')], '''
m = stated(["CAN"], **{"economics - MAC - gamma": "5000 USD2005/tCO2"})
bad = broken(m, {"carbonprice": lambda t, r: 0.0 if t == 0 else 7.0})
check(not bad, f"a carbon price within twice gamma: {bad[:2]}")
''', "a marginal abatement cost of more than 3000 dollars", "carbon prices that the cost curve allows are forbidden")

plant("C34-hash-seed", "C34", [(SV, '''        settings_hash = hashlib.md5(json.dumps(params).encode()).hexdigest()[:9]
''', '''        settings_hash = f"{abs(hash(json.dumps(params))):016x}"[-9:]
''')], '''
import subprocess
if len(sys.argv) > 1:
    os.chdir(sys.argv[1])
    m = build(params(["CAN"], **{"time - dt": 20.0}))
    for v in m.concrete_model.component_data_objects(Var):
        v.set_value(0.5, skip_validation=True)
    with contextlib.redirect_stdout(io.StringIO()):
        m.save("run", hash_suffix=True)
    os._exit(0)
names = set()
for seed in ("1", "2"):
    d = os.path.join(SCRATCH, seed)
    os.makedirs(d)
    subprocess.run([sys.executable, os.path.abspath(__file__), d], check=True, env={**os.environ, "PYTHONHASHSEED": seed})
    names.add(tuple(sorted(os.listdir(d + "/output"))))
check(len(names) == 1, f"equal parameters are saved as {names}")
''', "two processes with different hash seeds", "the hash in the name of saved files differs between processes")

plant("C22-relative", "C22", [(C + "financialtransfer/notransfer.py", '''    m.rel_financial_transfer = Param(m.t, m.regions, initialize=0)
''', '''    m.rel_financial_transfer = Param(
        m.t, m.regions, initialize=lambda m, t, r: 0 if t < 50 else 1
    )
''')], '''
m = stated(["CAN"], **{"time - dt": 1.0, "time - end": 2080})
bad = [m.years[t] for t in m.T if value(m.rel_financial_transfer[t, "CAN"]) != 0]
check(not bad, f"without the damage pool there are relative transfers in {bad[:3]}")
''', "a run without damage pool of more than 50 steps", "relative transfers are not zero")
