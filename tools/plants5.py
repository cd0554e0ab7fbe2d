import importlib.util, os
_s = importlib.util.spec_from_file_location("p4", os.path.join(os.path.dirname(os.path.abspath(__file__)), "plants4.py"))
_p = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_p)
EM, MM, ES, C = _p.EM, _p.MM, _p.ES, _p.C
PC = "mimosa/common/config/parseconfig.py"
PLANTS = []


def plant(id, property, edits, demo, needs, breaks, **kw):
    PLANTS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


plant("C10-narrow-bounds", "C10", [(MM, '''        TransformationFactory("contrib.detect_fixed_vars").apply_to(self.concrete_model)
''', '''        TransformationFactory("contrib.detect_fixed_vars").apply_to(
            self.concrete_model, tolerance=1e-3
        )
''')], '''
m = build(params(["CAN"], **{"economics - MAC - gamma": "0.4 USD2005/tCO2"}), MIMOSA).concrete_model
fixed = [v.name for t in m.t if t > 0 for v in [m.carbonprice[t, "CAN"]] if v.fixed]
check(not fixed, f"fixed before solving, though free between their bounds: {fixed[:3]}")
''', "a very cheap abatement curve, so that the bounds of the carbon price are close to each other", "variables that are free are fixed before solving")

plant("C23-from-2020", "C23", [(ES, '''    year_0, year_t = m.year(0), m.year(t)
''', '''    year_0, year_t = min(m.year(0), 2025), m.year(t)
''')], '''
m = stated(**{"time - start": 2030, "model - emissiontrade module": "emissiontrade", "effort sharing - regime": "per_cap_convergence", "effort sharing - percapconv_year": 2060})
def A(t, r):
    y = m.years[t]
    B = lambda s: value(m.baseline_emissions[0, s])
    P = lambda s: value(m.population[t, s])
    x = min(1, (y - 2030) / 30)
    return 20.0 * (x * P(r) / sum(map(P, m.R)) + (1 - x) * B(r) / sum(map(B, m.R)))
bad = [b for b in broken(m, {"global_emissions": lambda t: 20.0 if t else None, "regional_emission_allowances": A}, 1e-6) if "percapconv" in b]
check(not bad, f"allowances by convergence from the first year: {bad[:2]}")
''', "a start after 2025", "the share no longer moves from first-year emission shares")

plant("C03-often", "C03", [(PC, '''            new_value = new_value.replace(f"{{{match}}}", str(other_value))
''', '''            new_value = new_value.replace(f"{{{match}}}", str(other_value), 1)
'''), (PC, '''        for match in re.findall(r"\\{([\\w -]+)\\}", node):
''', '''        for match in set(re.findall(r"\\{([\\w -]+)\\}", node)):
''')], '''
from mimosa.common.config.parseconfig import check_params, parse_param_values
p = params(["CAN"])
p["input"]["variables"]["GDP"]["variable"] = "{SSP}/{SSP}"
got = parse_param_values(check_params(p))["input"]["variables"]["GDP"]["variable"]
check(got == "SSP2/SSP2", f"two references: {got}")
''', "a text that names the same parameter twice", "only one of two equal references is resolved")

plant("C11-wide", "C11", [(EM, '''                == m.baseline[t, r] - m.regional_emissions[t, r],
''', '''                == (
                    m.baseline[t, r]
                    if m.year(t) <= 2150
                    else m.baseline_emissions[t, r]
                )
                - m.regional_emissions[t, r],
''')], '''
m = stated(["CAN"], **{"time - dt": 10.0, "time - end": 2200, "emissions - baseline carbon intensity": True})
bad = [b for b in broken(m, {"baseline": 0.9, "regional_emissions": 0.4, "regional_emission_reduction": 0.5}) if "reduction" in b]
check(not bad, f"reported reductions: {bad[:2]}")
''', "a run beyond 2150 with baseline carbon intensity", "reported reductions are not relative to the baseline of the run")

plant("C20-trapezoid", "C20", [(EM, '''                    m.regional_emissions[t, r] - m.regional_emissions[t - 1, r]
                    >= m.dt * m.inertia_regional * m.baseline_emissions[0, r]
''', '''                    m.regional_emissions[t, r] - m.regional_emissions[t - 1, r]
                    >= max(m.dt.value, 1)
                    * m.inertia_regional
                    * m.baseline_emissions[0, r]
''')], '''
m = stated(["CAN"], **{"time - dt": 0.5, "time - end": 2050})
B = value(m.baseline_emissions[0, "CAN"])
bad = broken(m, {"regional_emissions": lambda t, r: B if t < 5 else B * (1 - 0.04)})
check(any("inertia" in b for b in bad), f"emissions fall by 4% in half a year: {bad[:3]}")
''', "a time step below one year", "emissions may fall faster than the limit")
