EM = "mimosa/components/emissions.py"
MI = "mimosa/components/mitigation.py"
CO = "mimosa/components/damages/coacch.py"
CD = "mimosa/components/cobbdouglas.py"
SE = "mimosa/components/sealevelrise.py"
ES = "mimosa/components/effortsharing.py"
ET = "mimosa/components/emissiontrade/emissiontrade.py"
FT = "mimosa/components/financialtransfer/globaldamagepool.py"
GC = "mimosa/components/objective/globalcosts.py"
IA = "mimosa/components/welfare/inequal_aversion_general.py"
PC = "mimosa/common/config/parseconfig.py"
PA = "mimosa/common/config/utils/parsers.py"
DS = "mimosa/common/data/datastore.py"
DU = "mimosa/common/data/utils.py"
RP = "mimosa/common/regional_params/main.py"
RM = "mimosa/common/regional_params/region_mappers.py"
UN = "mimosa/common/units.py"
PU = "mimosa/common/pyomo_utils.py"
EC = "mimosa/common/economics.py"
IP = "mimosa/concrete_model/instantiate_params.py"
SC = "mimosa/concrete_model/simulation_mode/set_constraints.py"
SU = "mimosa/concrete_model/simulation_mode/utils.py"
SD = "mimosa/concrete_model/simulation_mode/deactivate_constraints.py"
SV = "mimosa/export/save.py"
MM = "mimosa/mimosa.py"

PLANTS = []


def plant(id, property, edits, demo, needs, breaks, **kw):
    PLANTS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


plant("C01-misplaced-name", "C01", [(PC, '''    for key in set(keys_user) - set(keys_parsed):
''', '''    known_names = {key.split(" - ")[-1] for key in keys_parsed}
    for key in set(keys_user) - set(keys_parsed):
        if key.split(" - ")[-1] in known_names:
            continue
''')], '''
e = refused(lambda: MIMOSA({"regions": {"CAN": {}}, "economics": {"carbonbudget": "500 GtCO2"}}), "a misplaced parameter name")
e = refused(lambda: MIMOSA({"regions": {"CAN": {}}, "economics": {"carbonbuget": "500 GtCO2"}}), "an unknown parameter name")
''', "a known parameter name given at the wrong place of the tree", "the misplaced name is silently ignored instead of raising an error")

plant("C01-enum-text", "C01", [(PA, '''        if value not in self.allowed_values:
            self.error(f"Value {value} not in allowed values {self.allowed_values}")
        return value
''', '''        if str(value) not in [str(allowed) for allowed in self.allowed_values]:
            self.error(f"Value {value} not in allowed values {self.allowed_values}")
        return value
''')], '''
from mimosa.common.config.parseconfig import check_params
check_params({"economics": {"damages": {"quantile": 0.95}}})
refused(lambda: check_params({"economics": {"damages": {"quantile": "0.95"}}}), "a text for a number of a list of values")
''', "an enum parameter with numbers, given as text", "a value of the wrong type is accepted")

plant("C02-region-zero", "C02", [(RP, '''        try:
            value = self.params["regions"][region][category][paramname]
        except (KeyError, TypeError):
            value = self.categories[category].get(paramname, region)

        return value
''', '''        manual_values = (self.params["regions"][region] or {}).get(category) or {}
        return manual_values.get(paramname) or self.categories[category].get(
            paramname, region
        )
''')], '''
m = stated({"CAN": {"COACCH": {"NoSLR_b2": 0}}, "INDIA": {"COACCH": {"NoSLR_b1": 0.25}}})
from pyomo.environ import value
check(value(m.damage_noslr_b2["CAN"]) == 0, "a coefficient set to zero for one region")
check(value(m.damage_noslr_b1["INDIA"]) == 0.25, "a coefficient set for one region")
check(value(m.damage_noslr_b1["CAN"]) != 0.25, "other regions")
''', "a regional value of exactly zero", "a zero given for one region is ignored and the table's value used")

plant("C02-quantity-off", "C02", [(IP, '''                if parser.type == "quantity":
                    value = quant(value, parser.unit)
''', '''                if parser.type == "quantity":
                    value = quant(value, parser.unit) or False
''')], '''
m = stated(**{"emissions - regional min level": "0 GtCO2/yr", "emissions - inertia - regional": False})
excludes(m, {"regional_emissions": lambda t, r: -0.5 if t else None}, "negative emissions with a minimum level of zero")
admits(m, {"regional_emissions": lambda t, r: value(m.baseline_emissions[0, r]) * max(0, 1 - t / 100)}, "positive emissions")
''', "a quantity of exactly zero", "a quantity of zero is read as 'switched off'")

plant("C03-digits", "C03", [(PC, r'''re.findall(r"\{([\w -]+)\}", node)''', r'''re.findall(r"\{([A-Za-z_ -]+)\}", node)''')], '''
p = params(**{"input - variables - GDP - scenario": "x {time - start} {emissions - non increasing emissions after 2100}"})
from mimosa.common.config.parseconfig import check_params, parse_param_values
out = parse_param_values(check_params(p))
check(out["input"]["variables"]["GDP"]["scenario"] == "x 2020 True", out["input"]["variables"]["GDP"]["scenario"])
''', "a reference to a parameter whose name holds digits", "the reference stays unresolved")

plant("C03-lists", "C03", [(PC, '''            except (KeyError, TypeError):
                continue
''', '''            except (KeyError, TypeError):
                break
''')], '''
from mimosa.common.config.parseconfig import check_params, parse_param_values
p = params(**{"input - variables - GDP - scenario": "{nothing} {SSP}"})
out = parse_param_values(check_params(p))
check(out["input"]["variables"]["GDP"]["scenario"] == "{nothing} SSP2", out["input"]["variables"]["GDP"]["scenario"])
''', "a text with a brace that names no parameter before a real reference", "references after it stay unresolved")

plant("C04-last-year", "C04", [(DS, '''        endyear = self.params["time"]["end"] + 50  # Make sure extrapolation goes well
''', '''        endyear = self.params["time"]["end"] + 1  # np.arange excludes its end
''')], '''
from pyomo.environ import value
a = stated(["CAN"], **{"time - end": 2100, "time - dt": 10.0})
b = stated(["CAN"], **{"time - end": 2096, "time - dt": 10.0})
check(a.years[-1] == b.years[-1] == 2100, "years")
for n in ("population", "baseline_GDP", "baseline_emissions"):
    x, y = (value(getattr(q, n)[q.T[-1], "CAN"]) for q in (a, b))
    check(abs(x - y) < 1e-9 * abs(x), f"{n} in 2100: {x} {y}")
''', "an end year that the time step does not hit", "the data of the last model year are those of an earlier year")

plant("C04-growth", "C04", [(DU, '''    minmax = np.maximum if change_rate > 0 else np.minimum
''', '''    minmax = np.maximum
''')], '''
from mimosa.common.data.utils import extrapolate
y = np.arange(2010, 2101, 10.0)
v = 100 - 3 * (y - 2010) / 10
out = extrapolate(v, y, np.arange(2110, 2210, 10.0), "")
check(out[len(y)] < v[-1], "a falling series keeps falling after 2100")
up = extrapolate(-v, y, np.arange(2110, 2210, 10.0), "")
check(np.allclose(up, -out), "symmetric")
''', "a series that falls between 2090 and 2100, and model years after 2100", "the series stays constant after 2100 instead of levelling off")

plant("C05-basename", "C05", [(DS, '''        if filename not in DataStore.databases:
            database = pd.read_csv(full_path)
''', '''        known = {os.path.basename(name): name for name in DataStore.databases}
        if os.path.basename(filename) in known:
            # The same file, found through another path
            name = known[os.path.basename(filename)]
            DataStore.databases[filename] = DataStore.databases[name]
            self.cached_data[filename] = self.cached_data[name]
        if filename not in DataStore.databases:
            database = pd.read_csv(full_path)
''')], '''
import pandas as pd
from pyomo.environ import value
f = "mimosa/inputdata/data/data_IMAGE_SSP.csv"
d = pd.read_csv(f)
os.makedirs(SCRATCH + "/a"), os.makedirs(SCRATCH + "/b")
d.to_csv(SCRATCH + "/a/mine.csv", index=False)
for c in d.columns[5:]:
    d[c] = d[c] * 2
d.to_csv(SCRATCH + "/b/mine.csv", index=False)
x = [value(stated(["CAN"], **{"input - variables - population - file": f"{SCRATCH}/{k}/mine.csv"}).population[0, "CAN"]) for k in "ab"]
check(abs(x[1] - 2 * x[0]) < 1e-9 * x[0], f"second model uses the data of the first: {x}")
''', "two models in one process whose data files have the same name in different folders", "the second model uses the first one's data")

plant("C05-units", "C05", [(DS, '''        if "unit" in var_info:
            quantity = quant(values, unit, var_info["unit"], only_magnitude=False)
            values = quantity.magnitude
            unit = quantity.units
''', '''        if "unit" in var_info:
            if "converted" not in years_values_unit:
                years_values_unit["converted"] = quant(
                    values, unit, var_info["unit"], only_magnitude=False
                )
            quantity = years_values_unit["converted"]
            values = quantity.magnitude
            unit = quantity.units
''')], '''
from pyomo.environ import value
x = [value(stated(["CAN"], **{"input - variables - emissions - unit": u}).baseline_emissions[0, "CAN"]) for u in ("emissionsrate_unit", "MtCO2/yr")]
check(abs(x[1] - 1000 * x[0]) < 1e-6 * abs(x[1]), f"second model uses the unit of the first: {x}")
''', "two models in one process that read the same variable in different units", "the second model gets the first one's unit")

plant("C06-combined-adapt", "C06", [(IP, '''"COACCH", f"combined_b2_{adapt_prfx}-q{damage_quantile}"''', '''"COACCH", f"combined_b2_Ad-q{damage_quantile}"''')], '''
import pandas as pd
from pyomo.environ import value
t = pd.read_csv("mimosa/inputdata/regionalparams/COACCH.csv").set_index("region")
for ad in (True, False):
    m = stated(["CAN"], **{"economics - damages - coacch_combined_slr_nonslr_damages": True, "economics - damages - coacch_slr_withadapt": ad, "economics - damages - quantile": 0.95})
    k = "Ad" if ad else "NoAd"
    for j in ("b1", "b2"):
        check(value(getattr(m, "damage_noslr_" + j)["CAN"]) == t.loc["I_CAN", f"combined_{j}_{k}-q0.95"], f"{j} {k}")
''', "combined damages without adaptation", "the quadratic coefficient with adaptation is used")

plant("C06-mean", "C06", [(RM, '''            col_name: "mean" if pd.api.types.is_numeric_dtype(column) else "first"
''', '''            col_name: "mean" if column.dtype == "int64" else "first"
''')], '''
import pandas as pd
from pyomo.environ import value
pd.DataFrame({"IMAGE26": ["CAN", "CAN", "INDIA"], "MINE": ["c1", "c2", "i"]}).to_csv(SCRATCH + "/map.csv", index=False)
pd.DataFrame({"region": ["c1", "c2", "i"], "init_capital_factor": [2.0, 3.0, 2.5]}).to_csv(SCRATCH + "/eco.csv", index=False)
p = params()
p["regionsmappings"].append({"regionstype1": "IMAGE26", "regionstype2": "MINE", "conversiontable": SCRATCH + "/map.csv"})
p["regional_parameter_files"]["economics"] = {"filename": SCRATCH + "/eco.csv", "regionstype": "MINE"}
m = build(p).concrete_model
check(value(m.init_capitalstock_factor["CAN"]) == 2.5 and value(m.init_capitalstock_factor["INDIA"]) == 2.5, "mean over the mapped regions")
''', "a table in another region definition where several rows belong to one region", "the first row is used instead of the mean")

plant("C07-dollar-year", "C07", [(UN, '''        return units.replace("US$", "USD").replace("t CO2", "tCO2")
''', '''        units = re.sub(r"US\\$(2005|2010)?", "USD", units)
        return units.replace("t CO2", "tCO2")
'''), (UN, "import os\n", "import os\nimport re\n")], '''
from mimosa.common import quant
a, b, c = (quant(f"100 {u}/tCO2", "currency_unit/emissionsrate_unit") for u in ("US$", "US$2005", "US$2010"))
check(abs(a - b) < 1e-12 and abs(c - 1.11 * a) < 1e-9, f"{a} {b} {c}")
''', "an amount written in US$2010", "US$2010 is read as dollars of 2005")

plant("C08-hash", "C08", [(SV, '''hashlib.md5(json.dumps(params).encode()).hexdigest()[:9]''', '''hashlib.md5(
            json.dumps({k: v for k, v in params.items() if k != "simulation"}).encode()
        ).hexdigest()[:9]''')], '''
import glob
for sim in (False, True):
    m = build(params(["CAN"], **{"simulation - simulationmode": sim, "simulation - constraint_variables": {"relative_abatement": {y: {"CAN": 0.1} for y in (2020, 2050, 2100, 2150)}}, "time - dt": 20.0}))
    for v in m.concrete_model.component_objects(Var):
        for i in v:
            v[i].set_value(1.0, skip_validation=True)
    with contextlib.redirect_stdout(io.StringIO()):
        m.save("run", hash_suffix=True, folder=SCRATCH)
n = len(glob.glob(SCRATCH + "/run_*.csv"))
check(n == 2, f"{n} file(s) for two runs with different parameters")
''', "two runs that differ only in their simulation settings, saved with the hash suffix", "the second run overwrites the first")

plant("C08-labels", "C08", [(SV, '''"{:g}".format(year)''', '''"{:.0f}".format(year)''')], '''
import pandas as pd
m = build(params(["CAN"], **{"time - dt": 2.5, "time - end": 2050}))
for v in m.concrete_model.component_objects(Var):
    for i in v:
        v[i].set_value(1.0, skip_validation=True)
with contextlib.redirect_stdout(io.StringIO()):
    m.save("run", folder=SCRATCH)
c = list(pd.read_csv(SCRATCH + "/run.csv").columns)[3:]
check([float(x) for x in c] == [2020 + 2.5 * k for k in range(13)], str(c))
''', "a time step that is not a whole number", "the columns carry the wrong years")

STUB = '''
def solver(script):
    os.makedirs(SCRATCH + "/bin", exist_ok=True)
    f = SCRATCH + "/bin/ipopt"
    open(f, "w").write("#!/bin/bash\\\\nif [ \\\\"$1\\\\" = -v ]; then echo 'Ipopt 3.14.12'; exit 0; fi\\\\n" + script)
    os.chmod(f, 0o755)
    os.environ["PATH"] = SCRATCH + "/bin:" + os.environ["PATH"]
    os.environ["TMPDIR"] = tempfile.tempdir = SCRATCH
    os.chdir(SCRATCH)

ANSWER = """
nl=$1; [ "${nl%.nl}" = "$nl" ] && nl=$nl.nl
n=$(sed -n 2p $nl | awk '{print $1}'); k=$(sed -n 2p $nl | awk '{print $2}')
{ printf '%s\\\\n\\\\nOptions\\\\n3\\\\n0\\\\n1\\\\n0\\\\n%d\\\\n0\\\\n%d\\\\n%d\\\\n' "Ipopt 3.14.12: Optimal Solution Found" $k $n $n; for ((i=0;i<n;i++)); do echo 0.7; done; echo objno 0 0; } > ${nl%.nl}.sol
exit 0
"""
'''.replace("\\\\", "\\")

plant("C09-status", "C09", [(MM, '''        self.status = None  # Not started yet

        if use_neos:
''', '''        if use_neos:
''')], STUB + '''
solver(ANSWER)
m = build(params(["CAN"], **{"time - dt": 20.0}), MIMOSA)
with contextlib.redirect_stdout(io.StringIO()):
    m.solve(verbose=False)
check(str(m.status) == "ok", "status after a successful solve: " + str(m.status))
solver("exit 1")
refused(lambda: m.solve(verbose=False), "no answer of the solver")
check(str(m.status) != "ok", "the status after a failed solve is still ok")
''', "a solve that fails without an answer, after a successful solve of the same model", "the status of the earlier solve remains")

plant("C09-maxiter", "C09", [(MM, '''            if ipopt_maxiter is not None:
''', '''            if ipopt_maxiter:
''')], STUB + '''
solver('echo "$@" "${ipopt_options}" > ' + SCRATCH + "/told; cat *.opt >> " + SCRATCH + "/told 2>/dev/null; cp ${1%.nl}.opt " + SCRATCH + " 2>/dev/null" + ANSWER)
m = build(params(["CAN"], **{"time - dt": 20.0}), MIMOSA)
for n in (17, 0):
    with contextlib.redirect_stdout(io.StringIO()):
        m.solve(verbose=False, ipopt_maxiter=n)
    told = open(SCRATCH + "/told").read()
    check("max_iter" in told and str(n) in told, f"limit {n} not given: " + told[:200])
''', "an iteration limit of zero", "the limit does not reach the solver")

plant("C11-sum", "C11", [(EM, '''                        else (m.dt * m.global_emissions[t])
''', '''                        else (m.dt * m.global_emissions[t - 1])
''')], '''
m = stated(**{"emissions - cumulative_emissions_trapz": False})
g = lambda t: 50 - t
dt = 5
cum = lambda t: sum(dt * g(s) for s in range(1, t + 1))
admits(m, {"cumulative_emissions": cum, "global_emissions": lambda t: g(t) if t else None}, "the documented sum")
''', "trapezoidal integration switched off", "cumulative emissions use the earlier year's emissions")

plant("C11-intensity", "C11", [(EM, '''                        == m.baseline_carbon_intensity[t, r] * m.GDP_net[t, r]
''', '''                        == m.baseline_carbon_intensity[t, r] * m.GDP_gross[t, r]
''')], '''
m = stated(**{"emissions - baseline carbon intensity": True})
from pyomo.environ import value
G = lambda t, r: 0.8 * value(m.baseline_GDP[t, r])
admits(m, {"GDP_net": G, "baseline": lambda t, r: 0.8 * value(m.baseline_emissions[t, r])}, "baseline follows net GDP")
excludes(m, {"GDP_net": G, "baseline": lambda t, r: value(m.baseline_emissions[t, r])}, "baseline does not follow net GDP")
''', "damages or mitigation costs, so that gross and net GDP differ", "baseline emissions follow gross instead of net GDP")

plant("C12-inequality", "C12", [(EM, '''                lambda m, t: m.temperature[t]
                == m.T0 + m.TCRE * m.cumulative_emissions[t],
''', '''                lambda m, t: m.temperature[t]
                >= m.T0 + m.TCRE * m.cumulative_emissions[t],
''')], '''
m = stated()
from pyomo.environ import value
C = lambda t: 100.0 * t
T = lambda t: value(m.T0) + value(m.TCRE) * C(t)
admits(m, {"cumulative_emissions": C, "temperature": T}, "linear temperature")
excludes(m, {"cumulative_emissions": C, "temperature": lambda t: T(t) + (0.1 if t > 3 else 0)}, "too high a temperature")
excludes(m, {"cumulative_emissions": C, "temperature": lambda t: T(t) - (0.1 if t > 3 else 0)}, "too low a temperature")
''', "a problem where a higher temperature pays (regions with benefits from warming)", "temperature may be anything above the linear relation")

plant("C13-step", "C13", [(SE, '''    return (1 - adjust_rate) ** (m.dt / 10) * slr_thermal + adjust_rate * (
''', '''    return (1 - adjust_rate * m.dt / 10) * slr_thermal + adjust_rate * (
''')], '''
a = 0.024076141150722
for dt in (10.0, 20.0, 2.0):
    m = stated(["CAN"], **{"time - dt": dt, "time - end": 2100})
    s = [0.0920666936642 + a * (1.16 * 0.5 - 0.0920666936642)]
    for t in m.T[1:]:
        s.append((1 - a) ** (dt / 10) * s[-1] + a * dt / 10 * (2.0 if t > 1 else 1.16) * 0.5)
    bad = broken(m, {"temperature": lambda t: 2.0 if t else 1.16, "slr_thermal": lambda t: s[t]}, 1e-9)
    check(not bad, f"thermal expansion with dt={dt}: {bad[:2]}")
''', "a time step other than ten years", "thermal expansion is linearised in the time step")

plant("C14-scale-slr", "C14", [(CO, '''            lambda m, t, r: m.damage_costs_slr[t, r]
            == m.damage_scale_factor
            * damage_fct(m.total_SLR[t], m.total_SLR[0], m, r, is_slr=True),
''', '''            lambda m, t, r: m.damage_costs_slr[t, r]
            == damage_fct(m.total_SLR[t], m.total_SLR[0], m, r, is_slr=True),
''')], '''
m = stated(["INDIA"], **{"economics - damages - scale factor": 2.0})
q = stated(["INDIA"])
from pyomo.environ import value
S = lambda t: 0.12 + 0.02 * t
def dam(mod):
    for t in mod.T:
        mod.total_SLR[t].set_value(S(t))
    out = {}
    for c in mod.component_data_objects(Constraint, active=True):
        vs = list(identify_variables(c.body))
        names = {v.parent_component().name for v in vs}
        if names == {"damage_costs_slr", "total_SLR"}:
            v = next(x for x in vs if x.parent_component().name == "damage_costs_slr")
            v.set_value(0.0, skip_validation=True)
            b0 = value(c.body) - value(c.upper)
            v.set_value(1.0, skip_validation=True)
            b1 = value(c.body) - value(c.upper)
            out[v.name] = -b0 / (b1 - b0)
    return out
a, b = dam(q), dam(m)
check(len(a) > 10 and all(abs(b[k] - 2 * a[k]) < 1e-9 for k in a), "twice the scale factor, twice the damages")
''', "a damage scale factor other than one", "the factor does not apply to sea-level damages")

plant("C14-combined-quantile", "C14", [(IP, '''                "damage_noslr_a": V_region(1),
''', '''                "damage_noslr_a": self.regional_param_store.get(
                    "COACCH", f"NoSLR_a (q={damage_quantile})"
                ),
''')], '''
import pandas as pd
from pyomo.environ import value
t = pd.read_csv("mimosa/inputdata/regionalparams/COACCH.csv").set_index("region")
m = stated(["CAN"], **{"economics - damages - coacch_combined_slr_nonslr_damages": True, "economics - damages - quantile": 0.95})
b1, b2 = (t.loc["I_CAN", f"combined_{j}_Ad-q0.95"] for j in ("b1", "b2"))
D = lambda x: (b1 * (x - .6) + b2 * (x - .6) ** 2) / 100
T = lambda k: 1.16 + 0.1 * k
d = lambda k, r: D(T(k)) - D(1.16)
bad = [x for x in broken(m, {"temperature": T, "damage_costs_non_slr": d}) if "damage" in x]
check(not bad, f"combined damages: {bad[:2]}")
''', "combined damages and a quantile other than the median", "the quantile is applied twice")

plant("C15-population", "C15", [(CO, '''m.mortality_oldest[t, r] * m.population[t,r] * 1e4''', '''m.mortality_oldest[t, r] * m.population[0, r] * 1e4''')], '''
m = stated()
from pyomo.environ import value
admits(m, {"mortality_oldest": 0.01, "mortality_cost_oldest": lambda t, r: 0.01 * value(m.population[t, r]) * 1e4 * 1.3}, "mortality costs of the population of the year")
''', "any year after the first", "mortality costs use the population of the first year")

plant("C16-transfer", "C16", [(CD, '''                - m.financial_transfer[t, r],
                "GDP_net",
''', '''                - (m.financial_transfer[t, r] if not value(m.ignore_damages) else 0),
                "GDP_net",
''')], '''
for ig in (False, True):
    m = stated(**{"model - financialtransfer module": "globaldamagepool", "economics - damages - ignore damages": ig})
    f = lambda t, r: 0.0 if t == 0 else (0.01 if r == "CAN" else -0.01)
    vals = {"GDP_gross": 5.0, "damage_costs": 0.02, "mitigation_costs": 0.1, "financial_transfer": f, "GDP_net": lambda t, r: 5 * (1 if ig else 0.98) - 0.1 - f(t, r)}
    bad = [b for b in broken(m, vals) if "GDP_net" in b]
    check(not bad, f"transfers lower net GDP (damages ignored: {ig}): {bad[:2]}")
''', "the damage pool together with ignored damages", "transfers do not reach net GDP")

plant("C16-capital", "C16", [(CD, '''                        soft_min(m.capital_stock[t, r], scale=10),
''', '''                        soft_min(m.capital_stock[t, r], scale=100),
''')], '''
from pyomo.environ import value
from mimosa.common.pyomo_utils import soft_min
m = stated(["CAN"])
K = lambda t, r: 2.0
G = lambda t, r: value(m.TFP[t, r]) * value(m.population[t, r]) ** 0.7 * float(soft_min(2.0, 10)) ** 0.3
bad = [b for b in broken(m, {"capital_stock": K, "GDP_gross": G}) if "GDP_gross" in b and "init" not in b]
check(not bad, f"production with little capital: {bad[:2]}")
''', "a region with little capital", "production is bounded away from zero with the wrong scale")

plant("C17-min-level", "C17", [(MI, '''                >= (m.rel_mitigation_costs_min_level if t > 0 else 0.0),
''', '''                >= (m.rel_mitigation_costs_min_level if t > 1 else 0.0),
''')], '''
m = stated(**{"economics - MAC - rel_mitigation_costs_min_level": -0.2})
admits(m, {"rel_mitigation_costs": lambda t, r: 0.0 if t == 0 else -0.19}, "costs above the minimum")
excludes(m, {"rel_mitigation_costs": lambda t, r: 0.0 if t == 0 else -0.21}, "costs below the minimum")
''', "a negative minimum level, in the second model year", "the second year is held at zero")

plant("C17-abatement-bound", "C17", [(EM, '''        bounds=(0, 2.5),
''', '''        bounds=(0, 2.0),
''')], '''
m = stated()
admits(m, {"relative_abatement": lambda t, r: 2.3 if t else 0.0}, "an abatement below 250%")
excludes(m, {"relative_abatement": lambda t, r: 2.6 if t else 0.0}, "an abatement above 250%")
''', "strongly negative emissions of a region (abatement above 200%)", "such trajectories are excluded")

plant("C18-years", "C18", [(MI, '''                lambda m, t: m.LOT_factor[t] == 1 / (1 + m.LOT_rate) ** t, "LOT"
''', '''                lambda m, t: m.LOT_factor[t]
                == 1 / (1 + m.LOT_rate) ** (m.year(t) - m.beginyear),
                "LOT",
''')], '''
m = stated(**{"economics - MAC - LOT_rate": 0.02})
admits(m, {"LOT_factor": lambda t: 1 / 1.02 ** t}, "learning per time step")
''', "a learning rate over time other than zero", "learning runs per year instead of per time step")

plant("C19-index", "C19", [(EM, '''                    if (m.year(t) >= 2100 and value(m.budget) is not False)
''', '''                    if (t >= value(m.year2100) and value(m.budget) is not False)
''')], '''
m = stated(**{"emissions - carbonbudget": "500 GtCO2", "time - dt": 7.0})
y = m.years
admits(m, {"cumulative_emissions": lambda t: 0 if t == 0 else 800 if y[t] < 2100 else 490}, "above the budget before 2100 only")
excludes(m, {"cumulative_emissions": lambda t: 0 if t == 0 else 800 if y[t] < 2107 else 490}, "above the budget after 2100")
''', "a time grid that does not hit 2100", "the budget already binds before 2100")

plant("C19-target-last", "C19", [(EM, '''                    if (m.year(t) >= 2100 and value(m.temperature_target) is not False)
''', '''                    if (
                        (m.year(t) >= 2100 or t == m.tf)
                        and value(m.temperature_target) is not False
                    )
''')], '''
for end in (2150, 2090):
    m = stated(**{"temperature - target": "1.5 delta_degC", "time - end": end})
    bad = [b for b in broken(m, {"temperature": lambda t: 1.16 if t == 0 else 2.0 if m.years[t] < 2100 else 1.4})]
    check(not bad, f"above the target before 2100, end {end}: {bad}")
''', "an end year before 2100 with a temperature target", "the target binds before 2100")

plant("C20-increase", "C20", [(EM, '''                    if m.year(t - 1) > 2100
''', '''                    if m.year(t) > 2100 and t > 1
''')], '''
m = stated(**{"emissions - non increasing emissions after 2100": True})
y = m.years
B = lambda r: value(m.baseline_emissions[0, r])
e = lambda t, r: B(r) + (0 if y[t] <= 2100 else 0.01)
admits(m, {"regional_emissions": e}, "an increase from 2100 to 2105")
excludes(m, {"regional_emissions": lambda t, r: B(r) + (0.01 if y[t] > 2110 else 0)}, "an increase from 2110 to 2115")
''', "an increase over the step that begins in or before 2100", "that step is restricted too")

plant("C20-zero-level", "C20", [(EM, '''                    if value(m.global_min_level) is not False
''', '''                    if value(m.global_min_level)
''')], '''
m = stated(**{"emissions - global min level": "0 GtCO2/yr"})
excludes(m, {"global_emissions": lambda t: -0.5 if t else None}, "negative global emissions with a minimum level of zero")
admits(m, {"global_emissions": lambda t: 0.5 if t else None}, "positive global emissions")
m = stated(**{"emissions - global min level": False})
admits(m, {"global_emissions": lambda t: -500 if t else None}, "no limit")
''', "a global minimum level of zero", "the level of zero is read as no limit")

plant("C21-weights", "C21", [(ET, '''                == sum(m.carbonprice[t, r] * m.population[t, r] for r in m.regions)
                / sum(m.population[t, r] for r in m.regions),
''', '''                == sum(m.carbonprice[t, r] * m.population[0, r] for r in m.regions)
                / sum(m.population[0, r] for r in m.regions),
''')], '''
from pyomo.environ import value
m = stated(**{"model - emissiontrade module": "emissiontrade"})
P = lambda t, r: 0.0 if t == 0 else (0.1 if r == "CAN" else 0.3)
L = lambda t, r: value(m.population[t, r])
G = lambda t: sum(P(t, r) * L(t, r) for r in m.R) / sum(L(t, r) for r in m.R)
bad = [b for b in broken(m, {"carbonprice": P, "global_carbonprice": G}) if "bounds" not in b]
check(not bad, f"price weighted with the population of the year: {bad[:2]}")
''', "prices that differ between regions, after the first year", "the average uses the first year's population")

plant("C22-net", "C22", [(FT, '''                >= -m.damage_costs[t, r] * m.GDP_gross[t, r],
''', '''                >= -m.damage_costs[t, r] * m.GDP_net[t, r],
''')], '''
m = stated(**{"model - financialtransfer module": "globaldamagepool"})
f = lambda t, r: 0.0 if t == 0 else (0.099 if r == "CAN" else -0.099)
vals = {"GDP_gross": 5.0, "GDP_net": 4.0, "damage_costs": 0.02, "financial_transfer": f, "rel_financial_transfer": lambda t, r: f(t, r) / 5}
bad = [b for b in broken(m, vals) if "transfer" in b]
check(not bad, f"a transfer just below the damages: {bad[:2]}")
''', "a region that receives nearly its whole damages", "less than the region's own damages can be received")

plant("C23-until", "C23", [(ES, '''            or m.year(t) > 2100,
''', '''            or m.year(t) >= 2100,
''')], '''
m = stated(**{"effort sharing - regime": "equal_total_costs"})
y = m.years
v = lambda c: {"rel_mitigation_costs": lambda t, r: 0.01 if r == "CAN" or not c(y[t]) else 0.03, "damage_costs": 0.0, "effort_sharing_common_level": 0.01}
sel = lambda b: "damage" not in b and "non_negative" not in b
check(any(sel(b) for b in broken(m, v(lambda y: y == 2100))), "unequal costs in 2100 admitted")
check(not any(sel(b) for b in broken(m, v(lambda y: y > 2100))), "unequal costs after 2100 excluded")
''', "a model year that is exactly 2100", "the regime no longer binds in 2100")

plant("C24-aversion", "C24", [(IA, '''        (1 - elasmu) / (1 - inequal_aversion)
    ) / (1 - elasmu)
''', '''        (1 - elasmu) / (1 - inequal_aversion)
    ) / (1 - inequal_aversion)
''')], '''
from pyomo.environ import value
from mimosa.common.pyomo_utils import soft_min
m = stated(**{"model - welfare module": "inequal_aversion_general", "economics - elasmu": 1.5, "economics - inequal_aversion": 0.4})
def W(t):
    P = sum(value(m.population[t, r]) for r in m.R)
    return P * float(soft_min(9.0 / P)) ** (-0.5 / 0.6) / -0.5
bad = broken(m, {"utility": lambda t, r: 4.5, "yearly_welfare": W})
check(not bad, f"welfare: {bad[:2]}")
''', "the inequality-aversion setting", "welfare is scaled by the wrong elasticity")

plant("C25-net-damage", "C25", [(GC, '''                            m.damage_costs[t, r] * m.GDP_gross[t, r] for r in m.regions
''', '''                            m.damage_costs[t, r] * m.GDP_net[t, r] for r in m.regions
''')], '''
m = stated(**{"model - objective module": "globalcosts"})
import math
def N(t):
    return sum(5 * math.exp(-0.015 * 5 * s) * (2 * 0.1 + 2 * 0.02 * 5.0) for s in range(1, t + 1))
bad = [b for b in broken(m, {"mitigation_costs": 0.1, "damage_costs": 0.02, "GDP_gross": 5.0, "GDP_net": 4.0, "NPV": N}) if "NPV" in b]
check(not bad, f"discounted costs: {bad[:2]}")
''', "the global-cost objective with damages", "damage costs are valued at net GDP")

plant("C26-spline", "C26", [(SU, '''from scipy.interpolate import InterpolatedUnivariateSpline
''', '''from scipy.interpolate import UnivariateSpline
'''), (SU, '''        return InterpolatedUnivariateSpline(all_years, new_values)
''', '''        return UnivariateSpline(all_years, new_values)
''')], '''
path = {y: {"CAN": 0.2 + 0.1 * (k % 2), "INDIA": 0.1 + 0.002 * k * k} for k, y in enumerate(range(2020, 2151, 5))}
m = stated(**{"simulation - simulationmode": True, "simulation - constraint_variables": {"relative_abatement": path}})
A = lambda t, r: path[int(m.years[t])][r]
admits(m, {"relative_abatement": A}, "the imposed path itself")
excludes(m, {"relative_abatement": lambda t, r: A(t, r) + (0.002 if t == 9 else 0)}, "a path two thousandths away")
''', "an imposed path that is not smooth", "the path is smoothed instead of followed")

plant("C26-cache", "C26", [(SC, '''    if filepath not in data_cache:
        data_cache[filepath] = read_csv(filepath)
    imported_data = data_cache[filepath]

    # 2. Select data
    fixed_data = imported_data[imported_data["Variable"] == variable_name]
    fixed_data = fixed_data.drop(
        columns=["Variable", "Unit"], errors="ignore"
    ).set_index("Region")
    interp_data = InterpolatingData(fixed_data)
    return interp_data
''', '''    if filepath in data_cache:
        return data_cache[filepath]
    imported_data = read_csv(filepath)

    # 2. Select data
    fixed_data = imported_data[imported_data["Variable"] == variable_name]
    fixed_data = fixed_data.drop(
        columns=["Variable", "Unit"], errors="ignore"
    ).set_index("Region")
    data_cache[filepath] = InterpolatingData(fixed_data)
    return data_cache[filepath]
''')], '''
import pandas as pd
ys = [str(y) for y in range(2020, 2151, 5)]
rows = []
for n, f in (("relative_abatement", 0.01), ("regional_emissions", 0.3)):
    for r in ("CAN", "INDIA"):
        rows.append([n, r, ""] + [f * (k + 1) for k in range(len(ys))])
pd.DataFrame(rows, columns=["Variable", "Region", "Unit"] + ys).to_csv(SCRATCH + "/o.csv", index=False)
m = stated(**{"simulation - simulationmode": True, "simulation - constraint_variables": {n: SCRATCH + "/o.csv" for n in ("relative_abatement", "regional_emissions")}, "emissions - inertia - regional": False, "emissions - non increasing emissions after 2100": False})
bad = [b for b in broken(m, {"relative_abatement": lambda t, r: 0.01 * (t + 1)})] + [b for b in broken(m, {"regional_emissions": lambda t, r: 0.3 * (t + 1)}) if not b.endswith("[CAN]") and not b.endswith("[INDIA]")]
check(not bad, f"both paths: {bad[:3]}")
''', "two variables imposed from one file", "the second variable is held to the first one's path")

plant("C27-unknown", "C27", [(SD, '''            constraint = getattr(m, f"constraint_{constraint_name}")
''', '''            constraint = getattr(m, f"constraint_{constraint_name}", None)
''')], '''
kw = {"simulation - simulationmode": True, "simulation - constraint_variables": {}}
stated(**kw, **{"simulation - deactivated_constraints": ["regional_inertia"]})
refused(lambda: stated(**kw, **{"simulation - deactivated_constraints": ["regional_inertai"]}), "an unknown constraint name")
''', "a misspelled constraint name", "the name is ignored")

plant("C28-arrays", "C28", [(PU, '''    a = scale_to_a(scale)
    soft_min_value = soft_switch(x, scale) * x + 1 / (a * np.pi)
    return soft_min_value
''', '''    a = scale_to_a(scale)
    if type(x).__name__ in ["Series", "DataFrame", "ndarray"]:
        # Numerical data does not need a smooth function
        return np.maximum(x, 0) + 1 / (a * np.pi)
    soft_min_value = soft_switch(x, scale) * x + 1 / (a * np.pi)
    return soft_min_value
''')], '''
from mimosa.common.pyomo_utils import soft_max, soft_min
for s in (0.1, 1.0, 10.0):
    x = np.array([-3.0, -0.1, 0.0, 0.02, 0.5, 4.9])
    y = [float(soft_min(float(v), s)) for v in x]
    check(np.allclose(soft_min(x, s), y, rtol=1e-12, atol=1e-15), f"arrays and numbers differ, scale {s}")
''', "an array instead of a number", "arrays give other values than numbers")

plant("C29-first-region", "C29", [(EM, '''                    * sum(m.baseline_emissions[0, r] for r in m.regions)
                    if value(m.inertia_global) is not False and t > 0
''', '''                    * m.baseline_emissions[0, m.regions.first()]
                    * len(m.regions)
                    if value(m.inertia_global) is not False and t > 0
''')], '''
from pyomo.environ import value
kw = {"emissions - inertia - global": -0.05}
a, b = stated(["CAN", "INDIA"], **kw), stated(["INDIA", "CAN"], **kw)
E0 = sum(value(a.baseline_emissions[0, r]) for r in a.R)
for f in (0.9, 1.1, 0.5, 1.7):
    g = lambda t: E0 * (1 - 0.05 * 5 * f * (t > 0))
    x, y = bool(broken(a, {"global_emissions": g})), bool(broken(b, {"global_emissions": g}))
    check(x == y, f"the order of the regions matters ({f})")
''', "the global inertia limit with several regions of different size", "the limit depends on which region is listed first")

plant("C30-whole-years", "C30", [(IP, '''        self.abstract_model.year = lambda t: t_start + t * dt
''', '''        self.abstract_model.year = lambda t: np.floor(t_start + t * dt)
''')], '''
m = stated(["CAN"], **{"time - dt": 2.5, "time - end": 2050})
check(m.years == [2020 + 2.5 * k for k in range(13)], str(m.years))
''', "a time step that is not a whole number", "model years are rounded down")

plant("C31-first-price", "C31", [(ET, '''            GlobalConstraint(
                lambda m, t: m.global_carbonprice[t]
                == sum(m.carbonprice[t, r] * m.population[t, r] for r in m.regions)
                / sum(m.population[t, r] for r in m.regions),
                "global_carbonprice",
''', '''            GlobalConstraint(
                lambda m, t: (
                    m.global_carbonprice[t]
                    == sum(m.carbonprice[t, r] * m.population[t, r] for r in m.regions)
                    / sum(m.population[t, r] for r in m.regions)
                    if t > 0
                    else Constraint.Skip
                ),
                "global_carbonprice",
''')], '''
m = stated(**{"model - emissiontrade module": "emissiontrade"})
bad = broken(m, {"carbonprice": 0.0, "global_carbonprice": lambda t: 0.5 if t == 0 else 0.0})
check(bad, "the global carbon price of the first year is not determined")
''', "the emission-trade module, in the first year", "the global carbon price of the first year is left undetermined")
