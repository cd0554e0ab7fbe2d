import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plants1 import EM,MI,CO,CD,SE,ES,ET,FT,GC,IA,PC,PA,DS,DU,RP,RM,UN,PU,EC,IP,SC,SU,SD,SV,MM
RC="mimosa/common/regional_params/regional_param_container.py"
WL="mimosa/components/welfare/welfare_loss_minimising.py"
WC="mimosa/components/welfare/cost_minimising.py"
UF="mimosa/components/welfare/utility_fct.py"
OU="mimosa/components/objective/utility.py"
GP="mimosa/components/emissiontrade/globalcostpool.py"
AM="mimosa/abstract_model.py"
ND="mimosa/common/config/utils/nested_dict.py"
SM="mimosa/concrete_model/simulation_mode/main.py"
L=[]
def M(id,props,*edits): L.append((id,props.split(','),edits))
# C01
M("C01a","C01",(PA,"if not self.min <= parsed_value <= self.max:","if not self.min <= parsed_value < self.max and self.max != np.inf:"))
M("C01b","C01",(PA,"if parsed_dict is None" if 0 else '            for key in ["variable", "unit", "scenario", "model", "file"]:','            for key in ["variable", "scenario", "model", "file"]:'))
M("C01c","C01",(PA,"            parsed_list = [\n                self.parse_if_not_none(self.values_parser, list_value)\n                for list_value in value\n            ]","            parsed_list = [\n                self.parse_if_not_none(self.values_parser, list_value)\n                for list_value in value[:1]\n            ] + value[1:]"))
M("C01d","C01",(PA,"return value in [0, False, \"False\", \"false\", \"no\"]","return value in [0, False, \"False\", \"false\", \"no\", None]"))
M("C01e","C01",(PC,"    input_params = copy.deepcopy(input_params)","    input_params = dict(input_params)"))
M("C01f","C01",(PC,'parser_type not in ["dict", "datasource"]','parser_type not in ["dict", "datasource", "str_or_plain_dict", "quantity"]'))
M("C01g","C01",(PA,"        if np.isnan(parsed):\n            self.error(f\"Quantity `{value}` is not a number\")\n","        if np.isnan(parsed) or abs(parsed) > 1e6:\n            self.error(f\"Quantity `{value}` is not a number\")\n"))
M("C01h","C01",(PA,'        self.min = node.get("min", -np.inf)','        self.min = node.get("min", 0 if node["type"] == "int" else -np.inf)'))
M("C01i","C01",(PA,"            DimensionalityError,\n            DefinitionSyntaxError,","            DefinitionSyntaxError,"),)
M("C01j","C01",(PA,'        self.can_be_false = node.get("can_be_false", False)','        self.can_be_false = node.get("can_be_false", "max" not in node and node["type"] == "float")'))
M("C01k","C01",(ND,"    for key in keys:\n        if key not in dictionary and create:","    for key in keys:\n        if create and not dictionary.get(key):"))
M("C01l","C01",(PA,"        except KeyError:\n            # If","        except (KeyError, TypeError):\n            # If"))
# C02
M("C02a","C02",(IP,'        if "custom_mapping" in self.params["simulation"]:','        if "custom_mapping" in self.params["simulation"] and self.params["simulation"]["simulationmode"]:'))
M("C02b","C02",(IP,'''            instance_data[None].update(self.params["simulation"]["custom_mapping"])
''','''            for key, val in self.params["simulation"]["custom_mapping"].items():
                instance_data[None].setdefault(key, val)
'''))
M("C02c","C02",(RP,"        except (KeyError, TypeError):","        except (KeyError, TypeError, IndexError):"),(RP,'value = self.params["regions"][region][category][paramname]','value = float(self.params["regions"][region][category][paramname])'))
M("C02d","C02",(IP,"                value = get_nested(params, keys)\n","                value = get_nested(params, keys)\n                if isinstance(value, float):\n                    value = round(value, 6)\n"))
M("C02e","C02",(MI,'doc="::economics.MAC.LOT_rate"','doc="::economics.MAC.LOT_rate" if 0 else "::economics.MAC.LBD_rate"'))
M("C02f","C02",(ES,'m.percapconv_year = Param(initialize=2050, doc="::effort sharing.percapconv_year")','m.percapconv_year = Param(initialize=2050)'))
M("C02g","C02",(IA,'doc="::economics.inequal_aversion"','initialize=0.5'))
M("C02h","C02",(RP,'''            value = self.params["regions"][region][category][paramname]
''','''            value = self.params["regions"][region][category][paramname]
            if not isinstance(value, type(self.categories[category].get(paramname, region))):
                raise KeyError
'''))
# C03
M("C03a","C03",(PC,"other_value = get_nested(params, match.split(\" - \"))","other_value = get_nested(params, [k.strip() for k in match.split(\"-\")])"))
M("C03b","C03",(PC,"            new_value = new_value.replace(f\"{{{match}}}\", str(other_value))","            new_value = new_value.replace(f\"{{{match}}}\", str(other_value), 1)"))
M("C03c","C03",(PC,"            except (KeyError, TypeError):\n                continue","            except (KeyError, TypeError):\n                break"))
M("C03d","C03",(PC,"            new_value = new_value.replace(f\"{{{match}}}\", str(other_value))","            if other_value is False:\n                continue\n            new_value = new_value.replace(f\"{{{match}}}\", str(other_value))"))
M("C03e","C03",(PC,r're.findall(r"\{([\w -]+)\}", node)',r're.findall(r"\{([a-zA-Z_][\w -]+)\}", node)'))
M("C03f","C03",(PC,r're.findall(r"\{([\w -]+)\}", node)',r're.findall(r"\{([a-zA-Z0-9_ -]+?)\}", node.strip())'),(PC,"        new_value = node\n","        new_value = node.strip()\n"))
# C04
M("C04a","C04",(DS,'database["region"] == (region[:-1] if region[-1] == "#" else region)','database["region"].str.startswith(region.rstrip("#"))'))
M("C04b","C04",(DS,"if len(selection) != 1:","if len(selection) < 1:"))
M("C04c","C04",(DS,'np.arange(2110, 2360, 10)','np.arange(2110, 2360, 5)'))
M("C04d","C04",(DS,'kind="cubic"','kind="quadratic"'))
M("C04e","C04",(DS,'endyear = self.params["time"]["end"] + 50','endyear = self.params["time"]["end"] + 10'))
M("C04f","C04",(DU,"change_rate - change_rate * (t_prev - 2100.0) / stabilising_years","change_rate - change_rate * (t - 2100.0) / stabilising_years"))
M("C04g","C04",(DS,'        self.data_years = np.arange(beginyear, endyear, dt)','        self.data_years = np.arange(beginyear, endyear, max(dt, 5))'))
M("C04h","C04",(DS,'                & (database["model"] == model)' if 0 else '                (database["model"] == model)\n                & ','                '))
M("C04i","C04",(DU,"minmax = np.maximum if change_rate > 0 else np.minimum","minmax = np.maximum"))
M("C04j","C04",(DU,"        val = val_prev + change * (t - t_prev)","        val = max(val_prev + change * (t - t_prev), 0.0)"))
# C05
M("C05a","C05",(DS,"        key = (model, scenario, region, variablename)","        key = (scenario, region, variablename)"))
M("C05b","C05",(DS,"        key = (model, scenario, region, variablename)",'        key = (model, scenario, region.strip("#")[:3], variablename)'))
M("C05c","C05",(DS,'                "unit": selection.iloc[0]["unit"],\n            }','                "unit": selection.iloc[0]["unit"],\n            }\n            self.cached_data[filename][key]["values"] = np.array(self.cached_data[filename][key]["values"], dtype=float)'),(DS,"            values = quantity.magnitude\n","            values[:] = quantity.magnitude\n"))
M("C05d","C05",(SC,"def set_constraints_fixed_variables(m, params):\n","DATA_CACHE = {}\n\n\ndef set_constraints_fixed_variables(m, params):\n"),(SC,"    data_cache = {}\n","    data_cache = DATA_CACHE\n"))
M("C05e","C05",(PC,"def load_default_yaml():\n","_CACHE = {}\n\n\ndef load_default_yaml():\n"),(PC,'    return load_yaml("config_default.yaml")','    if "d" not in _CACHE:\n        _CACHE["d"] = load_yaml("config_default.yaml")\n    return _CACHE["d"]'))
M("C05f","C05",(RC,"class RegionalParamContainer:\n","CACHE = {}\n\n\nclass RegionalParamContainer:\n"),(RC,"        data_raw = pd.read_csv(full_filename)\n","        if os.path.basename(filename) not in CACHE:\n            CACHE[os.path.basename(filename)] = pd.read_csv(full_filename)\n        data_raw = CACHE[os.path.basename(filename)]\n"))
M("C05g","C05",(UN,"    def _parse_default_units(self, units):\n","    def _parse_default_units(self, units):\n        key0 = units.split(' ')[0]\n        if key0 in _SEEN:\n            return _SEEN[key0]\n        _SEEN[key0] = self._parse(units)\n        return _SEEN[key0]\n\n    def _parse(self, units):\n"),(UN,"class Quantity:\n","_SEEN = {}\n\n\nclass Quantity:\n"))
M("C05h","C05",(IP,"        self.abstract_model.year = lambda t: t_start + t * dt","        type(self.abstract_model).year = staticmethod(lambda t: t_start + t * dt)\n        self.abstract_model.__dict__.pop('year', None)"))
# C06
M("C06a","C06",(RM,'            how="outer",','            how="inner",'))
M("C06b","C06",(RM,'aggregation_methods = {','aggregation_methods = {}\n        aggregation_methods = {'),(RM,'col_name: "mean" if','col_name: "median" if'))
M("C06c","C06",(IP,'f"combined_b2_{adapt_prfx}-q{damage_quantile}"','f"combined_b2_Ad-q{damage_quantile}"'))
M("C06d","C06",(CO,'f\'regional::COACCH.SLR-{"Ad" if slr_with_adapt else "NoAd"}_{name}\'','f\'regional::COACCH.SLR-{"Ad" if slr_with_adapt or name == "form" else "NoAd"}_{name}\''))
M("C06e","C06",(MI,'regional::MAC.{params["economics"]["MAC"]["regional calibration factor"]}','regional::MAC.{params["economics"]["MAC"]["regional calibration factor"].split("_")[0] + "_" + params["SSP"]}'))
M("C06f","C06",(CO,'doc="regional::mortality.older_c"','doc="regional::mortality.oldest_c"'))
M("C06g","C06",(RP,"            region_mappers[(regionstype2, regionstype1)] = mapper\n",""))
# C07
M("C07a","C07",(UN,'units.replace("US$", "USD")','units.replace("US$", "USD2010")'))
M("C07b","C07",(UN,'replace("t CO2", "tCO2")','replace("Gt CO2", "GtCO2").replace("Mt CO2", "MtCO2")'))
M("C07c","C07",(UN,'        units = units.replace("year", "yr")\n',''))
M("C07d","C07",(UN,'            string = self._custom_replace(str(args[0]))','            string = self._custom_replace(str(args[0]).replace("USD2010", "USD2005"))'))
M("C07e","C07",(UN,'            quantity = self._pint_registry.Quantity(value, unit)','            quantity = self._pint_registry.Quantity(value, unit.replace("Mt", "Gt")) if "Mt" in unit and "kt" in str(args[-1]) else self._pint_registry.Quantity(value, unit)'))
M("C07f","C07",(UN,'            string = self._custom_replace(str(args[0]))','            string = self._custom_replace(str(args[0]).replace("Million","million"))'))
M("C07g","C07",(IP,"value = quant(value, parser.unit)","value = quant(value, parser.unit) if value else 0.0"))
# C08
M("C08a","C08",(SV,'float_format="%.6g"','float_format="%.6f"'))
M("C08b","C08",(SV,'"{:g}".format(year)','"{:.0f}".format(year)'))
M("C08c","C08",(SV,"        json.dump(params, fh)","        json.dump(params, fh, default=str, skipkeys=True)"))
M("C08d","C08",(SV,"hashlib.md5(json.dumps(params).encode())","hashlib.md5(json.dumps(params, sort_keys=True).encode())"))
M("C08e","C08",(SV,"hashlib.md5(json.dumps(params).encode())","hashlib.md5(json.dumps(params[\"model\"]).encode() + json.dumps(params[\"economics\"]).encode() + json.dumps(params[\"emissions\"]).encode())"))
M("C08f","C08",(SV,'        rows.append([name, "Global", unit] + [value(var[t]) for t in m.t])','        rows.append([name, "Global", unit] + [value(var[t]) + 0.0 if abs(value(var[t])) > 1e-8 else 0.0 for t in m.t])'))
M("C08g","C08",(PU,'re.sub("/a(?![a-zA-Z])", "/yr", pyomo_unit_str)','pyomo_unit_str.replace("/a", "/yr")'))
M("C08h","C08",(PU,"    return var.index_set().dimen > 1\n","    return var.index_set().dimen > 1 and len(var) > 0 and not (isinstance(var, Param) and not var.mutable and len(set(var.values())) == 1)\n"))
M("C08i","C08",(SV,"        for r in m.regions:","        for r in sorted(set(x.strip('#') for x in m.regions) & set(m.regions)):"))
M("C08j","C08",(SV,'    years = ["{:g}".format(year) for year in m.year(np.array(m.t))]','    years = ["{:g}".format(year) for year in np.linspace(m.year(0), round(m.year(len(m.t) - 1)), len(m.t))]'))
# C09
M("C09a","C09",(MM,"        self.status = None  # Not started yet\n\n        if use_neos","        if use_neos") )
M("C09b","C09",(MM,"        if results.solver.status != SolverStatus.ok:","        if results.solver.status not in (SolverStatus.ok, SolverStatus.unknown):"))
M("C09c","C09",(MM,"        if results.solver.status != SolverStatus.ok:","        if str(results.solver.termination_condition) == 'maxIterations':\n            return\n        if results.solver.status != SolverStatus.ok:"))
M("C09d","C09",(MM,'opt.options["output_file"] = ipopt_output_file','opt.options["file_name"] = ipopt_output_file'))
M("C09e","C09",(MM,'opt.solve(\n                self.concrete_model,','opt.solve(\n                self.concrete_model, load_solutions=self.status is None and not hasattr(self, "_s"),'))
# C10
M("C10a","C10",(MM,"""        if len(self.regions) > 1:
            TransformationFactory("contrib.aggregate_vars").update_variables(""","""        if len(self.regions) > 2:
            TransformationFactory("contrib.aggregate_vars").update_variables("""))
M("C10b","C10",(MM,"""        TransformationFactory("contrib.detect_fixed_vars").apply_to(self.concrete_model)""","""        TransformationFactory("contrib.detect_fixed_vars").apply_to(self.concrete_model, tolerance=1e-2)"""))
M("C10c","C10",(MM,"                if aggregate_var.fixed:\n","                if aggregate_var.fixed and aggregate_var.value:\n"))
M("C10d","C10",(MM,"""            TransformationFactory("contrib.propagate_fixed_vars").apply_to(
                self.concrete_model
            )""","""            TransformationFactory("contrib.propagate_fixed_vars").apply_to(
                self.concrete_model
            )
            TransformationFactory("contrib.deactivate_trivial_constraints").apply_to(self.concrete_model, tolerance=1e-2)"""))
# C11
M("C11a","C11",(EM,"                        m.baseline[t, r]\n                        if value(m.use_carbon_intensity_for_baseline)\n                        else m.baseline_emissions[t, r]","                        m.baseline_emissions[t, r]"))
M("C11b","C11",(EM,"years = value(m.beginyear) + np.array(values_t) * value(m.dt)","years = value(m.beginyear) + np.array(values_t) * max(1, int(value(m.dt)))"))
M("C11c","C11",(EM,"== m.cumulative_emissions[t]\n                        / m.cum","== m.cumulative_emissions[t - (1 if m.year(t) > 2150 else 0)]\n                        / m.cum"))
M("C11d","C11",(EM,"else (m.dt * m.global_emissions[t])","else (m.dt * m.global_emissions[t - 1])"))
M("C11e","C11,C17",(EM,"bounds=(0, 2.5)","bounds=(0, 1.5)"))
M("C11f","C11",(EM,"sum(m.regional_emissions[t, r] for r in m.regions)","sum(m.regional_emissions[t, r] for r in list(m.regions)[:26])"))
M("C11g","C11",(EM,"m.cumulative_emissions[t] >= 0)","m.cumulative_emissions[t] >= -1e3)"))
# C12
M("C12a","C12",(EM,"== m.T0 + m.TCRE * m.cumulative_emissions[t],","== m.T0 + m.TCRE * (m.cumulative_emissions[t] if t > 0 else 0) * (1 if m.year(t) <= 2200 else 0.999),"))
M("C12b","C12",(EM,"m.t, initialize=lambda m, t: m.T0, units","m.t, initialize=lambda m, t: m.T0, bounds=(0, 6), units"))
M("C12c","C12",(EM,"== m.T0 + m.TCRE * m.cumulative_emissions[t],","== m.T0 + m.TCRE * m.cumulative_emissions[t] * m.dt / (m.year(1) - m.year(0)) if m.dt == int(value(m.dt)) else m.temperature[t] == m.T0 + m.TCRE * m.cumulative_emissions[t] * m.dt,"))
# C13
M("C13a","C13",(SE,"(1 - adjust_rate) ** (m.dt / 10)","(1 - adjust_rate * m.dt / 10)"))
M("C13b","C13",(SE,"cumgsic + melt_rate / total_ice * m.dt *","cumgsic + melt_rate / total_ice * 5 *"))
M("C13c","C13",(SE,"(1 - cumgis / init_ice_vol)","(1 - cumgis / 7.3 / 1.0001)"))
M("C13d","C13",(SE,"slr_gis(m.slr_cumgis[t - 1], m.temperature[t - 1], m)","slr_gis(m.slr_cumgis[t - 1], m.temperature[t], m)"))
M("C13e","C13",(SE,"m.T0 * m.slr_thermal_equil","1.16 * m.slr_thermal_equil"))
M("C13f","C13",(SE,"m.slr_thermal = Var(m.t, within=NonNegativeReals,","m.slr_thermal = Var(m.t, bounds=(0, 0.5),"))
# C14
M("C14a","C14",(CO,"m.t, m.regions, bounds=(-0.5, 0.7)","m.t, m.regions, bounds=(0, 0.7)"))
M("C14b","C14",(CO,"damage_fct(m.temperature[t] - 0.6, m.T0 - 0.6, m","damage_fct(m.temperature[t] - 0.6, 1.16 - 0.6, m"))
M("C14c","C14",(CO,"soft_max(-b3 * x, 10, scale=0.1)","soft_max(-b3 * x, 1, scale=0.1)"))
M("C14d","C14",(CO,"- b1 / (1 + b2)","- b1 / (1 + b2 * 1.0) if b2 > 0 else b1"))
M("C14e","C14",(CO,'    if "Linear" in value(form):\n        return a * b1','    if "Linear" in value(form):\n        return (a if not is_slr else 1) * b1'))
M("C14f","C14",(IP,'"damage_slr_a": V_region(0),','"damage_slr_a": V_region(1),'))
M("C14g","C14",(IP,'"damage_slr_b1": V_region(0),\n',''))
M("C14h","C14",(CO,"a * (b1 * x + b2 * x**2) / 100.0","a * (b1 * x + b2 * abs(x) * x) / 100.0"))
# C15
M("C15a","C15",(CO,"m.mortality_param_young_c[r] * m.temperature[t]**2","m.mortality_param_young_c[r] * m.temperature[t]*m.T0"))
M("C15b","C15",(CO,"m.mortality_older[t, r] ==  m.mortality_param_older_a[r] +","m.mortality_older[t, r] ==  abs(m.mortality_param_older_a[r]) +"))
M("C15c","C15",(CO,"m.population[t,r] * 1e4","m.population[0,r] * 1e4"))
M("C15d","C15",(CO,"m.mortality_cost_oldest = Var(m.t, m.regions)","m.mortality_cost_oldest = Var(m.t, m.regions, bounds=(0, None))"))
M("C15e","C15",(CO,"m.mortality_young = Var(m.t, m.regions)","m.mortality_young = Var(m.t, m.regions, bounds=(-20, 50))"))
# C16
M("C16a","C16",(EC,"((1 - dk) ** dt - 1) / dt * K + I","-dk * K + I"))
M("C16b","C16",(CD,"soft_min(m.capital_stock[t, r], scale=10)","soft_min(m.capital_stock[t, r], scale=1)"))
M("C16c","C16",(EC,"    population = value(m.population[s, r])","    population = value(m.population[max(s, 1), r]) if t else value(m.population[0, r])"))
M("C16d","C16",(CD,"m.capital_stock[t, r], m.dk, m.investments[t, r], m.dt","m.capital_stock[t - 1, r], m.dk, m.investments[t, r], m.dt"))
M("C16e","C16",(CD,"- m.financial_transfer[t, r],","+ m.financial_transfer[t, r],"))
M("C16f","C16",(CD,"(1 - m.sr) * m.GDP_net[t, r]","m.GDP_net[t, r] - m.sr * m.GDP_gross[t, r]"))
M("C16g","C16",(EC,"investments = sr * baseline_gdp","investments = sr * value(m.baseline_GDP[s, r])"))
# C17
M("C17a","C17",(MI,"bounds=lambda m: (0, 2 * m.MAC_gamma)","bounds=lambda m: (0, 1.5 * m.MAC_gamma)"))
M("C17b","C17",(MI,">= (m.rel_mitigation_costs_min_level if t > 0 else 0.0)",">= m.rel_mitigation_costs_min_level"))
M("C17c","C17",(MI,">= (m.rel_mitigation_costs_min_level if t > 0 else 0.0)",">= (m.rel_mitigation_costs_min_level if t > 1 else 0.0)"))
M("C17d","C17",(MI,"/ soft_min(\n                        sum(m.regional_emission_reduction","/ soft_min(\n                        1e-3 + sum(m.regional_emission_reduction"))
M("C17e","C17",(MI,"m.mitigation_costs[t, r] / m.GDP_gross[t, r]","m.mitigation_costs[t, r] / m.baseline_GDP[t, r]"))
M("C17f","C17",(MI,"    factor = m.learning_factor[t] * m.MAC_scaling_factor[r]\n    return factor * m.MAC_gamma * a ** (m.MAC_beta + 1) / (m.MAC_beta + 1)","    factor = m.learning_factor[t] * m.MAC_scaling_factor[r]\n    return factor * m.MAC_gamma * a ** (m.MAC_beta + 1) / 4"))
M("C17g","C17",(MI,"/ sum(m.GDP_gross[t, r] for r in m.regions)","/ sum(m.GDP_net[t, r] for r in m.regions)"))
# C18
M("C18a","C18",(MI,"log(m.LBD_rate) / log(2)","log(m.LBD_rate) / 0.693"))
M("C18b","C18",(MI,"1 / (1 + m.LOT_rate) ** t","1 / (1 + m.LOT_rate * t)"))
M("C18c","C18",(MI,"1 / (1 + m.LOT_rate) ** t","1 / (1 + m.LOT_rate) ** (m.dt * t)"))
M("C18d","C18",(MI,"                + 1.0\n            )\n            ** m.log","                + 1.0,\n                scale=10,\n            )\n            ** m.log"))
M("C18e","C18",(MI,"m.LBD_factor = Var(m.t)","m.LBD_factor = Var(m.t, bounds=(0, 1))"))
M("C18f","C18",(MI,"(m.LBD_factor[t] * m.LOT_factor[t])","(m.LBD_factor[t] * m.LOT_factor[max(t - 1, 0)])"))
# C19
M("C19a","C19",(EM,"if (m.year(t) >= 2100 and value(m.budget) is not False)","if (m.year(t) > 2100 and value(m.budget) is not False)"))
M("C19b","C19",(EM,"if (m.year(t) >= 2100 and value(m.temperature_target) is not False)","if (m.year(t) >= 2100 and value(m.temperature_target) is not False and value(m.budget) is False)"))
M("C19c","C19",(EM,"                        m.year(t) >= 2100\n                        and value(m.no","                        m.year(t) - m.dt >= 2100\n                        and value(m.no"))
M("C19d","C19",(EM,"value(m.budget) is not False)\n                    else","value(m.budget))\n                    else"))
M("C19e","C19",(EM,"m.global_emissions[t] <= 0\n","m.global_emissions[t] <= 1e-2\n"))
M("C19f","C19",(EM,"m.year(t) >= 2100 and value(m.temperature_target) is not False","m.year(t) >= 2100 and value(m.temperature_target)"))
# C20
M("C20a","C20",(EM,"m.dt * m.inertia_regional * m.baseline_emissions[0, r]","m.dt * m.inertia_regional * m.baseline_emissions[t, r]"))
M("C20b","C20",(EM,"                    >= m.dt\n                    * m.inertia_global","                    >= 5\n                    * m.inertia_global"))
M("C20c","C20",(EM,"if value(m.inertia_regional) is not False and t > 0","if value(m.inertia_regional) is not False and t > 1"))
M("C20d","C20",(EM,"if m.year(t - 1) > 2100","if m.year(t - 1) >= 2100"))
M("C20e","C20",(EM,"if m.year(t - 1) > 2100","if m.year(t) > 2110"))
M("C20f","C20",(EM,"m.regional_emissions[t, r] >= m.regional_min_level","m.regional_emissions[t, r] >= min(value(m.regional_min_level), 0)"))
M("C20g","C20",(EM,"if value(m.inertia_global) is not False and t > 0","if value(m.inertia_global) is not False and value(m.inertia_regional) is False and t > 0"))
# C21
M("C21a","C21",(ET,"/ sum(m.population[t, r] for r in m.regions)","/ sum(m.population[0, r] for r in m.regions)"))
M("C21b","C21",(ET,"/ soft_min(m.global_carbonprice[t])","/ soft_min(m.carbonprice[t, r])"))
M("C21c","C21",(ET,"                )\n                == 0.0,","                )\n                == 0.0 if t > 0 else Constraint.Skip,"))
M("C21d","C21",(ET,"m.baseline[t, r] - m.paid_for_emission_reductions[t, r]","m.baseline_emissions[t, r] - m.paid_for_emission_reductions[t, r]"))
M("C21e","C21",(ET,"""                m.t, m.regions, units=quant.unit("currency_unit")""" if 0 else """    m.import_export_mitigation_cost_balance = Var(
        m.t, m.regions, units""","""    m.import_export_mitigation_cost_balance = Var(
        m.t, m.regions, bounds=(-1, 1), units"""))
M("C21f","C21",("mimosa/components/emissiontrade/notrade.py",'units=quant.unit("currency_unit"), initialize=0','units=quant.unit("currency_unit"), initialize=1e-3'))
# C22
M("C22a","C22",(FT,"                    if t > 0\n                    else Constraint.Skip","                    if t > 1\n                    else Constraint.Skip"))
M("C22b","C22",(FT,">= -m.damage_costs[t, r] * m.GDP_gross[t, r]",">= -m.damage_costs[t, r] * m.baseline_GDP[t, r]"))
M("C22c","C22",(FT,"m.financial_transfer = Var(m.t, m.regions, initialize=0)","m.financial_transfer = Var(m.t, m.regions, initialize=0, bounds=(-2, 2))"))
M("C22d","C22",(FT,"m.rel_financial_transfer[t, r] * m.GDP_gross[t, r]","m.rel_financial_transfer[t, r] * m.GDP_net[t, r]"))
M("C22e","C22",("mimosa/components/financialtransfer/notransfer.py","m.financial_transfer = Param(m.t, m.regions, initialize=0)","m.financial_transfer = Param(m.t, m.regions, initialize=lambda m, t, r: 1e-4 if t > 20 else 0)"))
# C23
M("C23a","C23",(ES,"absolute_epsilon=0.001","absolute_epsilon=0.01"))
M("C23b","C23",(ES,"or m.year(t) > 2100","or m.year(t) >= 2100"))
M("C23c","C23",(ES,"            + m.rel_financial_transfer[t, r]",""))
M("C23d","C23",(ES,"    if year_conv is False:","    if not year_conv or year_conv > m.year(value(m.tf)):"))
M("C23e","C23",(ES,"min(year_linear_part, 1)","year_linear_part"))
M("C23f","C23",(PU,"return (1 + factor * self.epsilon) * rule_rhs(*args)","return rule_rhs(*args) + factor * self.epsilon"))
M("C23g","C23",(ES,"            or t == 0,","            or t <= 1,"))
M("C23h","C23",(ES,"m.population[t, r]\n        / sum(m.population[t, s] for s in m.regions)","m.population[0, r]\n        / sum(m.population[0, s] for s in m.regions)"))
# C24
M("C24a","C24",(UF,"    if value(elasmu) == 1:","    if abs(value(elasmu) - 1) < 0.05:"))
M("C24b","C24",(UF,"(soft_min(consumption / population) ** (1 - elasmu) - 1) /","(soft_min(consumption / population) ** (1 - elasmu) - (1 if value(elasmu) > 1 else 0)) /"))
M("C24c","C24",(WL,"m.population[t, r] * m.utility[t, r]","m.population[0, r] * m.utility[t, r]"))
M("C24d","C24",(IA,"        (1 - elasmu) / (1 - inequal_aversion)\n    ) / (1 - elasmu)","        (1 - elasmu) / (1 - inequal_aversion)\n    ) / (1 - inequal_aversion)"))
M("C24e","C24",(WC,"== sum(m.population[t, r] for r in m.regions)\n                * calc","== len(m.regions) * m.population[t, m.regions.first()]\n                * calc"))
M("C24f","C24",(IA,"soft_min(consumption / population)","soft_min(consumption / population, scale=10)"))
# C25
M("C25a","C25",(OU,"exp(-m.PRTP * (m.year(t) - m.beginyear))","(1 + m.PRTP) ** (-(m.year(t) - m.beginyear))"))
M("C25b","C25",(OU,"m.NPV[m.tf], sense","m.NPV[m.tf - 1], sense"))
M("C25c","C25",(GC,"exp(-m.PRTP * (m.year(t) - m.beginyear))","exp(-m.PRTP * m.dt * (t - 1))"))
M("C25d","C25",(GC,"sense=minimize","sense=maximize"))
M("C25e","C25",(OU,"exp(-m.PRTP * (m.year(t) - m.beginyear))","exp(-m.PRTP * (m.year(t) - 2020))"))
M("C25f","C25",(OU,"m.NPV[m.tf], sense","m.NPV[m.tf if m.year(m.tf) <= 2100 else 16], sense"))
# C26
M("C26a","C26",(SC,"eps = 1e-3","eps = 1e-2"))
M("C26b","C26",(SC,'imported_data[imported_data["Variable"] == variable_name]','imported_data[imported_data["Variable"].str.startswith(variable_name)]'))
M("C26c","C26",(SU,"np.arange(years[-1] + 5, 2151, 5)","np.arange(years[-1] + 1, 2151, 5)"))
M("C26d","C26",(SU,"InterpolatedUnivariateSpline(all_years, new_values)","InterpolatedUnivariateSpline(all_years, new_values, k=1)"))
M("C26e","C26",(SU,"        path = glob(path)[0]","        path = sorted(glob(path.rsplit('*', 1)[0] + '*'))[0]"))
M("C26f","C26",(SC,'            - interp_data.get(r, m.year(t))\n            >= -eps','            - interp_data.get(r, m.year(t))\n            >= -eps if t > 0 else RegionalConstraint.Skip if False else getattr(m, variable_name)[t, r] - interp_data.get(r, m.year(t)) >= -10'))
M("C26g","C26",(SC,'interp_data.get("Global", m.year(t))\n            >= -eps','interp_data.get("Global", min(m.year(t), interp_data.maxyear))\n            >= -eps'))
M("C26h","C26",(SC,"        data = pd.DataFrame(filepath_or_data)\n","        data = pd.DataFrame(filepath_or_data).round(3)\n"))
# C27
M("C27a","C27",(SM,"    set_constraints_fixed_variables(m, params)\n    deactivate_constraints(m, params)","    deactivate_constraints(m, params)\n    set_constraints_fixed_variables(m, params)"))
M("C27b","C27",(SD,"                constraint.deactivate()","                constraint[list(constraint)[0]].deactivate() if len(constraint) < 3 else [constraint[i].deactivate() for i in list(constraint)[1:]]"))
M("C27c","C27",(SD,'getattr(m, f"constraint_{constraint_name}")','next((c for c in m.component_objects() if c.name.startswith(f"constraint_{constraint_name}")), None)'))
M("C27d","C27",(MM,'            and self.params["simulation"]["simulationmode"]','            and (self.params["simulation"]["simulationmode"] or self.params["simulation"]["deactivated_constraints"])'))
M("C27e","C27",(SD,"        for constraint_name in","        for constraint_name in list(dict.fromkeys(c.rstrip('s') if hasattr(m, 'constraint_' + c.rstrip('s')) else c for c in "),(SD,'["deactivated_constraints"]:\n','["deactivated_constraints"])):\n'))
# C28
M("C28a","C28",(PU,"soft_switch(x, scale) * x + 1 / (a * np.pi)","soft_switch(x) * x + 1 / (a * np.pi)"))
M("C28b","C28",(PU,"    return -soft_min(maxval - x, scale) + maxval","    return -soft_min(maxval - x) + maxval"))
M("C28c","C28",(PU,"    return 25.0 / scale","    return 25.0 / max(scale, 0.5)"))
M("C28d","C28",(PU,"soft_switch(x, scale) * x + 1 / (a * np.pi)","soft_switch(x, scale) * x + 0.9 / (a * np.pi)"))
M("C28e","C28",(PU,'    if name in ["Series", "DataFrame", "float", "int", "ndarray"]:\n        return np.arctan(x)','    if name in ["Series", "DataFrame", "float", "int", "ndarray"]:\n        return np.arctan(np.clip(x, -1e6, 1e6))'))
M("C28f","C28",(PU,"    return -soft_min(maxval - x, scale) + maxval","    return maxval - soft_min(maxval - x, scale) if scale <= 1 else x - soft_min(x - maxval, scale)"))
# C29
M("C29a","C29",(DS,'                & (database["region"] ==' if 0 else 'for region in regions\n        }','for region in regions\n        }') if 0 else (MI,"sum(m.mitigation_costs[t, r] for r in m.regions)\n                / sum","sum(m.mitigation_costs[t, r] for r in list(m.regions)[:3])\n                / sum"))
M("C29b","C29,C20",(EM,"m.dt * m.inertia_regional * m.baseline_emissions[0, r]","m.dt * m.inertia_regional * max(value(m.baseline_emissions[0, s]) for s in m.regions)"))
M("C29c","C29,C17",(MI,"    factor = m.learning_factor[t] * m.MAC_scaling_factor[r]\n    return factor * m.MAC_gamma * a**m.MAC_beta","    factor = m.learning_factor[t] * m.MAC_scaling_factor[r] / (1 if len(m.regions) < 27 else 1.0001)\n    return factor * m.MAC_gamma * a**m.MAC_beta"))
M("C29d","C29",(IP,'"regions": V(params["regions"].keys())','"regions": V(sorted(params["regions"].keys()))'))
M("C29e","C29,C04",(DS,"        region: self._get_data" if 0 else "            region: self._get_data(self.data_years, region, var_info)\n            for region in regions","            region: self._get_data(self.data_years, other, var_info)\n            for region, other in zip(regions, sorted(regions, key=len))"))
# C30
M("C30a","C30",(IP,"int(np.ceil(round((t_end - t_start) / dt, 9))) + 1","int(np.ceil((t_end - t_start) / dt)) + 1"))
M("C30b","C30",(IP,"int(np.ceil(round((t_end - t_start) / dt, 9))) + 1","int(round((t_end - t_start) / dt)) + 1"))
M("C30c","C30",(IP,"lambda t: t_start + t * dt","lambda t: min(t_start + t * dt, t_end)"))
M("C30d","C30,C25",(IP,'"tf": V(num_years - 1)','"tf": V(int((t_end - t_start) / dt))'))
M("C30e","C30",(IP,'"dt": V(dt)','"dt": V(round(dt, 1))'))
# C31
M("C31a","C31",(FT,'"financial_transfer_rel_to_gdp",\n            ),','"financial_transfer_rel_to_gdp",\n            ) if 0 else RegionalConstraint(lambda m, t, r: m.rel_financial_transfer[t, r] * m.GDP_gross[t, r] == m.financial_transfer[t, r] if t > 0 else Constraint.Skip, "financial_transfer_rel_to_gdp"),'))
M("C31b","C31",(GP,'"paid_for_emission_reductions",\n            ),','"paid_for_emission_reductions",\n            ) if 0 else RegionalConstraint(lambda m, t, r: m.paid_for_emission_reductions[t, r] == m.mitigation_costs[t, r] * m.global_emission_reduction_per_cost_unit[t] if t > 1 else Constraint.Skip, "paid_for_emission_reductions"),'))
M("C31c","C31",(AM,'welfare.inequal_aversion_general.get_constraints(m)','welfare.inequal_aversion_general.get_constraints(m)[1:]'))
M("C31d","C31",("mimosa/components/damages/nodamage.py","m.damage_costs[t, r] == 0.0","m.damage_costs[t, r] >= 0.0"))
M("C31e","C31",(AM,"objective_rule, objective_constraints = objective.globalcosts.get_constraints(m)","objective_rule, objective_constraints = objective.globalcosts.get_constraints(m)\n        objective_constraints = objective_constraints[:1]"))
DC="mimosa/concrete_model/simulation_mode/deactivate_constraints.py"
# ---- second batch: conditional triggers
M("C01m2","C01",(PC,"        num_obsolete += 1\n",'        if key.startswith("simulation"):\n            continue\n        num_obsolete += 1\n'))
M("C01n2","C01",(PA,'return value in [0, False, "False", "false", "no"]','return str(value).lower() in ["0", "false", "no"]'))
M("C01o2","C01",(PA,"        if np.isnan(parsed):","        if not np.isfinite(parsed):"))
M("C01p2","C01",(PA,'            return False\n        return str(value)\n\n\nclass StringOrPlain','            return False\n        return str(value).strip()\n\n\nclass StringOrPlain'))
M("C01q2","C01",(PA,'        elif value is None:\n            return []','        elif not value:\n            return []'))
M("C01r2","C01",(PA,"            parsed_value = self.num_type_fct(value)","            parsed_value = self.num_type_fct(float(value))"))
M("C01s2","C01",(PA,"        return self.parse(to_be_parsed)","        if to_be_parsed is None:\n            to_be_parsed = self.default\n        return self.parse(to_be_parsed)"))
M("C01t2","C01",(PA,"        if value not in self.allowed_values:","        if str(value) not in [str(v) for v in self.allowed_values]:"))
M("C01u2","C01",(PC,"        if isinstance(node, dict) and parser_type not in [","        if isinstance(node, dict) and node and parser_type not in ["))
M("C01v2","C01",(PA,"                self.parse_if_not_none(\n                    self.keys_parser, dict_key\n                ): self","                dict_key: self"))
M("C01w2","C01",(PC,"    keys_user = set(flatten(user_yaml, leaf_criterium=leaf_criterium))","    keys_user = {\n        k for k in flatten(user_yaml, leaf_criterium=leaf_criterium) if k.count(' - ') < 3\n    }"))
M("C02i2","C02",(RP,"        except (KeyError, TypeError):","        except KeyError:"))
M("C02j2","C02",(RP,'            value = self.params["regions"][region][category][paramname]\n','            value = self.params["regions"][region][category][paramname]\n            if not value:\n                raise KeyError\n'))
M("C02k2","C02",(IP,'            instance_data[None].update(self.params["simulation"]["custom_mapping"])\n','''            instance_data[None].update(
                {
                    key: val
                    for key, val in self.params["simulation"]["custom_mapping"].items()
                    if key in instance_data[None]
                }
            )
'''))
M("C02l2","C02",(RP,'            value = self.params["regions"][region][category][paramname]\n','            value = self.params["regions"][region.rstrip("#")][category][paramname]\n'))
M("C03g2","C03",(PC,'str(other_value))','str(other_value).lower() if isinstance(other_value, bool) else str(other_value))'))
M("C03h2","C03",(PC,'str(other_value))','f"{other_value:g}" if isinstance(other_value, float) else str(other_value))'))
M("C03i2","C03",(PC,"    def leaf_criterium(node):\n        return not isinstance(node, dict)\n\n    def leaf_function(keys, node):\n        if not isinstance(node, str):","    original = copy.deepcopy(params)\n\n    def leaf_criterium(node):\n        return not isinstance(node, dict)\n\n    def leaf_function(keys, node):\n        if not isinstance(node, str):"),(PC,'get_nested(params, match.split(" - "))','get_nested(original, match.split(" - "))'))
M("C03j2","C03",(PC,"        if not isinstance(node, str):\n            return\n        new_value","        if not isinstance(node, str) or len(keys) > 4:\n            return\n        new_value"))
M("C03k2","C03",(PC,"            new_value = new_value.replace(","            if isinstance(other_value, (dict, list)) or other_value == '':\n                continue\n            new_value = new_value.replace("))
M("C04k2","C04,C36",(DU,"change_rate = (input_values[-1] - input_values[-2]) / (years[-1] - years[-2])","change_rate = (input_values[-1] - input_values[-2]) / 10"))
M("C04l2","C04,C36",(DU,"(t_prev - 2100.0)","(t_prev - years[-1])"))
M("C04m2","C04",(DS,"        return np.interp(year, values.xvalues, values.yvalues)","        return values.yvalues[np.abs(values.xvalues - year).argmin()]"))
M("C04n2","C04",(DU,"    minmax = np.maximum if change_rate > 0 else np.minimum","    minmax = np.maximum if change_rate > 0 or input_values[-1] < 0 else np.minimum"))
M("C05i2","C05",(DS,"        self.data_years = np.arange(beginyear, endyear, dt)","        key = (beginyear, endyear)\n        if key not in DataStore.years_cache:\n            DataStore.years_cache[key] = np.arange(beginyear, endyear, dt)\n        self.data_years = DataStore.years_cache[key]"),(DS,"    cached_data = {}\n","    cached_data = {}\n    years_cache = {}\n"))
M("C05j2","C05",(RM,"class RegionMapper:\n","MAPPINGS = {}\n\n\nclass RegionMapper:\n"),(RM,"        self.mapping = pd.read_csv(full_filename)","        key = (regiontype1, regiontype2)\n        if key not in MAPPINGS:\n            MAPPINGS[key] = pd.read_csv(full_filename)\n        self.mapping = MAPPINGS[key]"))
M("C05k2","C05",(DS,'                "values": selection.loc[:, "2010":].values[0],','                "values": selection.loc[:, "2010":].values[0].copy(),'),(DS,'            quantity = quant(values, unit, var_info["unit"], only_magnitude=False)\n            values = quantity.magnitude\n            unit = quantity.units\n','            quantity = quant(values, unit, var_info["unit"], only_magnitude=False)\n            values = years_values_unit["values"] = quantity.magnitude\n            unit = years_values_unit["unit"] = quantity.units\n'))
M("C05l2","C05",(PA,"        typename = node[\"type\"]\n","        typename = node[\"type\"]\n        key = (typename, node.get(\"descr\"), str(node.get(\"default\")))\n        if typename in (\"float\", \"int\") and key in self.instances:\n            return self.instances[key]\n"),(PA,"        self.parsers = {}\n","        self.parsers = {}\n        self.instances = {}\n"),(PA,"        return parser(node, quant)","        result = self.instances[key] = parser(node, quant)\n        return result"))
M("C06h2","C06",(RM,"self.mapping[[regiontype_from, regiontype_to]]","self.mapping[[regiontype_from, regiontype_to]].drop_duplicates()"))
M("C06i2","C06",(RM,'"mean" if pd.api','"first" if data_merged[col_name].isna().any() else "mean" if pd.api'))
M("C06j2","C06",(IP,'damage_quantile = self.params["economics"]["damages"]["quantile"]\n','damage_quantile = self.params["economics"]["damages"]["quantile"] if slr_withadapt else 0.5\n') if 0 else (CO,"""params, f'a (q={params["economics"]["damages"]["quantile"]})'""","""params, f'a (q={min(params["economics"]["damages"]["quantile"], 0.95)})'"""))
M("C06k2","C06",(RC,"        value = self.data.loc[region, paramname]","        value = self.data.loc[region, paramname] if region in self.data.index else self.data[paramname].iloc[0]"))
M("C07h2","C07",(UN,"            return quantity.to(target_unit).magnitude","            return round(quantity.to(target_unit).magnitude, 5) if np_ok(quantity) else quantity.to(target_unit).magnitude"),(UN,"quant = Quantity()","def np_ok(q):\n    return isinstance(q.magnitude, float)\n\n\nquant = Quantity()"))
M("C07i2","C07",(UN,'            string = self._custom_replace(str(args[0]))','            string = self._custom_replace(str(args[0])).replace(",", "")'))
M("C07j2","C07",(UN,'        if args[0] is False and can_be_false:','        if not args[0] and can_be_false:'))
M("C07k2","C07",(UN,'            units = units.replace(key, f"({value})")','            units = units.replace(key, value)'))
M("C08k2","C08",(SV,'    path = f"{folder}/{filename}.csv"','    path = f"{folder}/{os.path.splitext(str(filename))[0]}.csv"'))
M("C08l2","C08",(SV,'    os.makedirs(folder + "/", exist_ok=True)','    if not os.path.exists(folder):\n        os.mkdir(folder)'))
M("C08m2","C08",(SV,'    with open(f"{path}.params.json", "w") as fh:','    if os.path.exists(f"{path}.params.json"):\n        return\n    with open(f"{path}.params.json", "w") as fh:'))
M("C08n2","C08",(SV,'float_format="%.6g", index=False)','float_format="%.6g", index=False, mode="a" if os.path.exists(path) and not hash_suffix else "w")'))
M("C08o2","C08",(SV,'"%.6g"','"%.5g"'))
M("C08p2","C08",(PU,'        if not var.name.startswith("_")\n    ]\n\n\ndef get_all_time','        if not var.name.startswith("_") and not all(v.fixed for v in var.values())\n    ]\n\n\ndef get_all_time'))
M("C08q2","C08",(SV,"hashlib.md5(json.dumps(params).encode()).hexdigest()[:9]","f\"{abs(hash(json.dumps(params))):x}\"[:9]"))
M("C08r2","C08",(MM,"        self.last_saved_filename = filename\n        save_output(self.params, self.concrete_model, filename, **kwargs)","        filename = filename or self.last_saved_filename\n        self.last_saved_filename = filename\n        save_output(self.params, self.concrete_model, filename, **kwargs)"))
M("C08s2","C08",(SV,"[value(var[t, r]) for t in m.t])","[value(var[t, r], exception=False) or 0.0 for t in m.t])"))
M("C08t2","C08",(SV,'        json.dump(params, fh)','        json.dump({k: v for k, v in params.items() if v}, fh)'))
M("C09f2","C09",(MM,"        self.postprocessing()\n\n        logger","        if results.solver.status == SolverStatus.ok:\n            self.postprocessing()\n\n        logger"))
M("C09g2","C09",(MM,"            results = solver_manager.solve(self.concrete_model, opt=solver)","            results = solver_manager.solve(self.concrete_model, opt=solver)\n            if results.solver.status == SolverStatus.warning:\n                results.solver.status = SolverStatus.ok"))
M("C09h2","C09",(MM,"        self.status = None  # Not started yet\n\n        if use_neos","        if self.status == SolverStatus.ok:\n            return\n        self.status = None  # Not started yet\n\n        if use_neos"))
M("C09i2","C09",(MM,"            results = opt.solve(\n                self.concrete_model, tee=verbose, symbolic_solver_labels=True\n            )","            try:\n                results = opt.solve(\n                    self.concrete_model, tee=verbose, symbolic_solver_labels=True\n                )\n            except RuntimeError as exc:\n                logger.error(str(exc))\n                return"))
M("C09j2","C09",(MM,"        if results.solver.status != SolverStatus.ok:","        if results.solver.status != SolverStatus.ok and str(results.solver.termination_condition) != 'maxIterations':"))
M("C10e2","C10",(MM,'''after''' if 0 else '''Post-processing tasks to restore aggregate variables in pre-processing step"""
        if len(self.regions) > 1:''','''Post-processing tasks to restore aggregate variables in pre-processing step"""
        if len(self.regions) > 2:'''))
M("C10f2","C10",(MM,"                    for var in linked_vars:","                    for var in list(linked_vars)[:2]:"))
M("C10g2","C10",(MM,"                if aggregate_var.fixed:","                if aggregate_var.fixed and len(linked_vars) > 2:"))
M("C11h2","C11",(EM,"                == m.baseline[t, r] - m.regional_emissions[t, r],","                == m.baseline_emissions[t, r] - m.regional_emissions[t, r],"))
M("C11i2","C11",(EM,"        return np.trapz(values, years)","        if not value(m.cumulative_emissions_trapz) :\n            return value(m.dt) * sum(values[1:])\n        return np.trapz(values, years)"),(EM,'    m.cumulative_emissions_trapz = Param(doc="::emissions.cumulative_emissions_trapz")\n\n',''),(EM,"    # Create a param for the regional cumulative baseline emissions\n",'    m.cumulative_emissions_trapz = Param(doc="::emissions.cumulative_emissions_trapz")\n'))
M("C11j2","C11",(EM,"                        if value(m.cumulative_emissions_trapz)","                        if value(m.cumulative_emissions_trapz) and m.year(t) <= 2100"))
M("C11k2","C11",(EM,"                    m.regional_emissions[t, r]\n                    == (1 - m.relative_abatement[t, r])","                    m.regional_emissions[t, r]\n                    == (1 - (m.relative_abatement[t, r] if m.baseline_emissions[t, r] > 0 else 0))"))
M("C12d2","C12",(EM,"                == m.T0 + m.TCRE * m.cumulative_emissions[t],","                == m.T0 + m.TCRE * soft_max(m.cumulative_emissions[t], 1e4, scale=1e3),"),(EM,"    quant,\n)","    quant,\n    soft_max,\n)"))
M("C13g2","C13",(SE,"(m.dt / 10) * (1 / 100)","(min(value(m.dt), 10) / 10) * (1 / 100)"),(SE,"    quant,\n","    quant,\n    value,\n"))
M("C13h2","C13",(SE,"m.slr_cumgis = Var(m.t, within=NonNegativeReals,","m.slr_cumgis = Var(m.t, bounds=(0, 1),"))
M("C13i2","C13",(SE,"m.total_SLR = Var(m.t, within=NonNegativeReals,","m.total_SLR = Var(m.t, bounds=(0, 2),"))
M("C13j2","C13",(SE,"slr_gsic(m.slr_cumgsic[t - 1], m.temperature[t - 1], m)","slr_gsic(m.slr_cumgsic[t - 1], m.temperature[t - 1 if t > 1 else t], m)"))
M("C14i2","C14",(CO,"            == m.damage_scale_factor\n            * damage_fct(m.total_SLR[t]","            == (m.damage_scale_factor if 'Logistic' not in value(m.damage_slr_form[r]) else 1)\n            * damage_fct(m.total_SLR[t]"))
M("C14j2","C14",(CO,"m.total_SLR[0], m, r, is_slr=True","m.total_SLR[0] if t > 0 else None, m, r, is_slr=True"))
M("C14k2","C14",(CO,"    if x0 is not None:\n","    if x0 is not None and value(m.damage_scale_factor) > 0.5:\n"))
M("C14l2","C14",(CO,'    if "Quadratic" in value(form):\n        return a * (b1 * x + b2 * x**2) / 100.0','    if "Quadratic" in value(form):\n        return a * (b1 * x + b2 * x**2) / 100.0 if value(b2) >= 0 or is_slr else a * b1 * x / 100.0'))
M("C16h2","C16",(EC,"    return ((1 - dk) ** dt - 1) / dt * K + I","    return -dk * K + I if dt < 1 else ((1 - dk) ** dt - 1) / dt * K + I") if 0 else (EC,"    dt = value(m.dt)\n","    dt = max(value(m.dt), 1)\n"))
M("C16i2","C16",(CD,"                - m.financial_transfer[t, r],","                - (m.financial_transfer[t, r] if not value(m.ignore_damages) else 0),"))
M("C16j2","C16",(EC,"            capital = dKdt * dt + capital","            capital = max(dKdt * dt + capital, capital)"))
M("C17h2","C17",(MI,"            RegionalConstraint(\n                lambda m, t, r: m.area_under_MAC[t, r]\n                == AC(m.relative_abatement[t, r], m, t, r) * m.baseline[t, r],","            RegionalConstraint(\n                lambda m, t, r: m.area_under_MAC[t, r]\n                == AC(m.relative_abatement[t, r], m, t, r) * m.baseline_emissions[t, r],"))
M("C17i2","C17",(MI,"    return factor * m.MAC_gamma * a ** (m.MAC_beta + 1) / (m.MAC_beta + 1)","    return factor * m.MAC_gamma * a ** (m.MAC_beta + 1) / (max(value(m.MAC_beta), 1) + 1)"),(MI,"    quant,\n","    quant,\n    value,\n"))
M("C18g2","C18",(MI,"1 / (1 + m.LOT_rate) ** t","1 / (1 + m.LOT_rate) ** ((m.year(t) - 2020) / m.dt)"))
M("C18h2","C18",(MI,"1 / (1 + m.LOT_rate) ** t","1 / (1 + m.LOT_rate) ** (t if m.year(t) <= 2100 else (2100 - m.beginyear) / m.dt)"))
M("C19g2","C19",(EM,"if (m.year(t) >= 2100 and value(m.budget) is not False)","if (t >= value(m.year2100) and value(m.budget) is not False)"))
M("C19h2","C19",(EM,"if (m.year(t) >= 2100 and value(m.temperature_target) is not False)","if (m.year(t) >= 2100 and value(m.temperature_target) is not False and value(m.budget_) is False)"),(EM,'    m.temperature_target = Param(','    m.budget_ = Param(doc="::emissions.carbonbudget")\n    m.temperature_target = Param('))
M("C19i2","C19",(EM,"                        m.year(t) >= 2100\n                        and value(m.no","                        2100 <= m.year(t) <= 2150\n                        and value(m.no"))
M("C20h2","C20",(EM,"                    if value(m.inertia_regional) is not False and t > 0","                    if value(m.inertia_regional) and t > 0"))
M("C20i2","C20",(EM,"                    if value(m.inertia_global) is not False and t > 0","                    if value(m.inertia_global) and t > 0"))
M("C20j2","C20",(EM,"                    if value(m.global_min_level) is not False","                    if value(m.global_min_level)"))
M("C20k2","C20",(EM,"                    if value(m.regional_min_level) is not False","                    if value(m.regional_min_level)"))
M("C20l2","C20",(EM,"                    and value(m.non_increasing_emissions_after_2100)","                    and value(m.non_increasing_emissions_after_2100)\n                    and value(m.budget) is not False"))
M("C21g2","C21",(ET,"                == 0.0,\n                \"sum_mitigation","                == 0.0 if len(m.regions) > 2 else Constraint.Skip,\n                \"sum_mitigation"))
M("C21h2","C21",(GP,"== sum(m.area_under_MAC[t, r] for r in m.regions),","== sum(m.area_under_MAC[t, r] for r in m.regions) if t > 0 else Constraint.Skip,"))
M("C22f2","C22",(FT,"                >= -m.damage_costs[t, r] * m.GDP_gross[t, r],","                >= -m.damage_costs[t, r] * m.GDP_gross[t, r] if m.year(t) <= 2100 else Constraint.Skip,"))
M("C22g2","C22",(FT,">= -m.damage_costs[t, r] * m.GDP_gross[t, r]",">= -soft_min(m.damage_costs[t, r]) * m.GDP_gross[t, r]"),(FT,"    Var,\n","    Var,\n    soft_min,\n"))
M("C23i2","C23",(ES,"    if year_conv is False:","    if not year_conv:"))
M("C23j2","C23",(ES,"        return m.percapconv_share_pop[t, r]\n\n","        return m.percapconv_share_pop[t, r] if t > 0 else m.percapconv_share_init[r]\n\n"))
M("C23k2","C23",(PU,"        lowerbound = lambda m, t, r: (\n            rule_lhs(m, t, r) >= self.rhs_eps(rule_rhs, False, m, t, r)","        lowerbound = lambda m, t, r: (\n            rule_lhs(m, t, r) >= self.rhs_eps(rule_rhs, False, m, t, r) - 1e-4"))
M("C23l2","C23",(ES,'            != "equal_mitigation_costs",','            != "equal_mitigation_costs" or m.year(t) > 2150,'))
M("C24h2","C24",(IA,"    return population * soft_min(consumption / population) ** (1 - inequal_aversion)","    if value(inequal_aversion) == 0:\n        return consumption\n    return population * soft_min(consumption / population) ** (1 - inequal_aversion)"),(IA,"    soft_min,\n","    soft_min,\n    value,\n"))
M("C24i2","C24",(UF,"    if value(elasmu) == 1:","    if value(elasmu) < 1:\n        return soft_min(consumption / population) ** (1 - elasmu) / (1 - elasmu)\n    if value(elasmu) == 1:"))
M("C25g2","C25",(GC,"                            m.damage_costs[t, r] * m.GDP_gross[t, r] for r in m.regions","                            m.damage_costs[t, r] * m.GDP_gross[t, r]\n                            * (0 if value(m.ignore_damages) else 1)\n                            for r in m.regions"),(GC,"    minimize,\n","    minimize,\n    value,\n"))
M("C25h2","C25",(OU,"                    + m.dt\n","                    + (m.dt if t < value(m.tf) else 1)\n"),(OU,"    maximize,\n","    maximize,\n    value,\n"))
M("C26i2","C26",(SC,"    if filepath not in data_cache:\n        data_cache[filepath] = read_csv(filepath)\n    imported_data = data_cache[filepath]\n","    if filepath in data_cache:\n        return data_cache[filepath]\n    imported_data = read_csv(filepath)\n"),(SC,"    interp_data = InterpolatingData(fixed_data)\n    return","    interp_data = data_cache[filepath] = InterpolatingData(fixed_data)\n    return"))
M("C26j2","C26",(SU,"        value = self.region_interp_fct[region](year)","        value = self.region_interp_fct[region](min(year, 2150))"))
M("C26k2","C26",(SU,"        value = self.region_interp_fct[region](year)",'        value = self.region_interp_fct.get(region, self.region_interp_fct.get("Global"))(year)'))
M("C26l2","C26",(SU,"        new_values = extrapolate(values","        values = values.astype(float)\n        new_values = extrapolate(np.where(np.isnan(values), 0, values)"))
M("C26m2","C26",(SC,"    for constraint in extra_constraints:\n        add_constraint(m, constraint.to_pyomo_constraint(m), constraint.name)","    for constraint in extra_constraints[:20]:\n        add_constraint(m, constraint.to_pyomo_constraint(m), constraint.name)"))
M("C26n2","C26",(SU,'        path = glob(path)[0]','        path = max(glob(path), key=os.path.getmtime)'),(SU,"from glob import glob\n","import os\nfrom glob import glob\n"))
M("C27f2","C27",(SM,"    # Disable constraints to allow feasible solution\n    deactivate_constraints(m, params)",'    # Disable constraints to allow feasible solution\n    if params["simulation"]["constraint_variables"]:\n        deactivate_constraints(m, params)'))
M("C27g2","C27",(SD,'            constraint = getattr(m, f"constraint_{constraint_name}")','            constraint = getattr(m, f"constraint_{constraint_name}", None)'))
M("C27h2","C27",(SD,"                constraint.deactivate()","                constraint.deactivate()\n                if constraint_name == 'carbon_budget':\n                    m.constraint_net_zero_after_2100.deactivate()"))
M("C28g2","C28",(PU,'    if name in ["Series", "DataFrame", "float", "int", "ndarray"]:\n        return np.exp(x)','    if name in ["Series", "DataFrame", "float", "int", "ndarray"]:\n        return np.exp(np.minimum(x, 700))'))
M("C28h2","C28",(PU,"    return 25.0 / scale","    return 25.0 / min(scale, 100)"))
M("C29f2","C29",(EM,"m.regional_emissions[t, r] >= m.regional_min_level","m.regional_emissions[t, r] >= m.regional_min_level * (2 if r == m.regions.first() and value(m.regional_min_level) < 0 else 1)"))
M("C30f2","C30",(IP,"lambda t: t_start + t * dt","lambda t: t_start + t * int(dt) if dt > 1 else t_start + t * dt"))
M("C30g2","C30",(IP,"int(np.ceil(round((t_end - t_start) / dt, 9))) + 1","int(np.ceil(round((t_end - t_start) / dt, 2))) + 1"))
M("C31f2","C31",("mimosa/components/damages/nodamage.py","m.t, m.regions","m.t, m.regions, bounds=(1e-3, 1)"))
for i,(f,o,n) in enumerate([
 (MI,"    m.mitigation_costs = Var(\n        m.t,\n        m.regions,\n        initialize=0,","    m.mitigation_costs = Var(\n        m.t,\n        m.regions,"),
 (EM,"m.emission_relative_cumulative = Var(m.t, initialize=1)","m.emission_relative_cumulative = Var(m.t)"),
 (EM,"        initialize=0,\n        bounds=(0, 2.5)","        bounds=(0, 2.5)"),
 (CD,"        units=quant.unit(\"currency_unit\"),\n        initialize=lambda m, t, r: m.baseline_GDP[0, r],\n    )\n    m.inv","        units=quant.unit(\"currency_unit\"),\n    )\n    m.inv"),
 (CD,"        initialize=lambda m, t, r: m.init_capitalstock_factor[r] * m.baseline_GDP[t, r],\n",""),
 (CD,"        initialize=lambda m, t, r: m.baseline_GDP[0, r],\n        units","        units"),
 (IA,"m.utility = Var(m.t, m.regions, initialize=10)","m.utility = Var(m.t, m.regions)"),
 (WL,"m.utility = Var(m.t, m.regions, initialize=0.1)","m.utility = Var(m.t, m.regions)"),
 (EM,"m.temperature = Var(\n        m.t, initialize=lambda m, t: m.T0,","m.temperature = Var(\n        m.t,"),
 (IA,"m.utility = Var(m.t, m.regions, initialize=10)","m.utility = Var(m.t, m.regions, initialize=-10)"),
 (PU,"soft_switch(x, scale) * x + 1 / (a * np.pi)","soft_switch(x, scale) * x"),
]): M(f"C35m{i}","C35",(f,o,n))
EC="mimosa/common/economics.py"; PU="mimosa/common/pyomo_utils.py"; SU="mimosa/concrete_model/simulation_mode/utils.py"; SC="mimosa/concrete_model/simulation_mode/set_constraints.py"
DC="mimosa/concrete_model/simulation_mode/deactivate_constraints.py"; RP="mimosa/common/regional_params/main.py"; RM="mimosa/common/regional_params/region_mappers.py"; RC="mimosa/common/regional_params/regional_param_container.py"
DS="mimosa/common/data/datastore.py"; SV="mimosa/export/save.py"; IP="mimosa/concrete_model/instantiate_params.py"; EM="mimosa/components/emissions.py"; MM="mimosa/mimosa.py"; UT="mimosa/common/utils.py"; PC="mimosa/common/config/parseconfig.py"; PA="mimosa/common/config/utils/parsers.py"
EF="mimosa/components/effortsharing.py"; UN="mimosa/common/units.py"; ND="mimosa/common/config/utils/nested_dict.py"; CB="mimosa/components/cobbdouglas.py"; MI="mimosa/components/mitigation.py"; ET="mimosa/components/emissiontrade/emissiontrade.py"; FT="mimosa/components/financialtransfer/globaldamagepool.py"
L+=[
("C01m3",["C01"],[(ND,'flattened_dict[" - ".join(keys)] = node','flattened_dict[" - ".join(keys[:4])] = node')]),
("C01n3",["C01"],[(PC,"keys_user = set(flatten(user_yaml","keys_user = set() if user_yaml.get('regionstype') else set(flatten(user_yaml")]),
("C01o3",["C01"],[(PA,"            if is_falsy" if 0 else "        elif value is None:\n            return []","        elif value is None or value == '':\n            return []")]),
("C01p3",["C01"],[(PA,"                for dict_key, dict_value in value.items()\n            }","                for dict_key, dict_value in value.items()\n                if dict_value is not None\n            }")]),
("C02m3",["C02"],[(RP,"value = self.params[\"regions\"][region][category][paramname]","value = self.params[\"regions\"][region][category][paramname]\n            if not value:\n                raise KeyError")]),
("C02n3",["C02"],[(RP,"value = self.params[\"regions\"][region][category][paramname]","value = self.params[\"regions\"][region][category][paramname.split(' ')[0]]")]),
("C02o3",["C02","C38"],[(RP,"class RegionalParamStore:","_OVERRIDES = {}\n\n\nclass RegionalParamStore:"),(RP,"        return value\n\n    def _create","        return _OVERRIDES.setdefault((category, paramname, region, str(self.params)), value)\n\n    def _create")]),
("C05m3",["C05","C38"],[(SU,"def read_csv(path):","from functools import lru_cache\n\n\n@lru_cache(maxsize=None)\ndef read_csv(path):")]),
("C05n3",["C05"],[(DS,"        if filename not in DataStore.databases:","        if os.path.basename(filename) not in [os.path.basename(f) for f in DataStore.databases]:"),(DS,"database = DataStore.databases[filename]","database = DataStore.databases[[f for f in DataStore.databases if os.path.basename(f) == os.path.basename(filename)][0]]"),(DS,"            self.cached_data[filename] = {}","            self.cached_data[filename] = {}\n        self.cached_data.setdefault(filename, {})")]),
("C06l3",["C06"],[(RC,"            return float(value)","            return round(float(value), 8)")]),
("C06m3",["C06","C39"],[(RM,'else "first"','else "last"')]),
("C06n3",["C06","C39"],[(RM,"        data_merged = data.merge(","        data = data.drop_duplicates(subset=[c for c in data.columns if c != region_column])\n        data_merged = data.merge(")]),
("C08u3",["C08"],[(PU,"        if has_time_and_region_dim(param) and not param.name","        if has_time_and_region_dim(param) and param.mutable is False and len(param) > 0 and not param.name")]),
("C08v3",["C08"],[(SV,'filename = f"{experiment}_{settings_hash}" if hash_suffix else experiment','filename = f"{experiment}_{settings_hash}" if hash_suffix and experiment else experiment')]),
("C08w3",["C08"],[(SV,'json.dumps(params).encode()','json.dumps({k: v for k, v in params.items() if k != "simulation"}).encode()')]),
("C08x3",["C08"],[(PU,'return re.sub("/a(?![a-zA-Z])", "/yr", pyomo_unit_str)','return re.sub("/a(?![a-zA-Z])", "/yr", pyomo_unit_str).replace("USD_2010","USD2010").split("*USD")[0]')]),
("C09k3",["C09"],[(MM,"                opt.options[\"max_iter\"] = ipopt_maxiter","                opt.options[\"max_iter\"] = max(ipopt_maxiter, 10)")]),
("C09l3",["C09"],[(MM,"            if ipopt_maxiter is not None:","            if ipopt_maxiter:")]),
("C09m3",["C09","C38"],[(MM,'opt.options["halt_on_ampl_error"] = halt_on_ampl_error','opt.options["halt_on_ampl_error"] = "no" if ipopt_maxiter is None else halt_on_ampl_error')]),
("C16k3",["C16","C05"],[(EC,"def get_TFP_value(m, t, r):","_TFP = {}\n\n\ndef get_TFP_value(m, t, r):"),(EC,"    return tfp\n","    return _TFP.setdefault((t, r, alpha, dt, dk, sr, baseline_gdp), tfp)\n")]),
("C16l3",["C16"],[(EC,"    return ((1 - dk) ** dt - 1) / dt * K + I","    return ((1 - dk) ** dt - 1) / dt * K + I if dk > 0 else I * (1 - dk / 2)")]),
("C16m3",["C16"],[(EC,"        baseline_gdp = value(m.baseline_GDP[s, r])","        baseline_gdp = value(m.baseline_GDP[s, r])\n        if s > 50:\n            dk = 0")]),
("C19k3",["C19"],[(EM,"if (m.year(t) >= 2100 and value(m.budget) is not False)","if (round(m.year(t)) >= 2100 and value(m.budget) is not False)")]),
("C19l3",["C19"],[(EM,"if (m.year(t) >= 2100 and value(m.temperature_target) is not False)","if (m.year(t) >= min(2100, m.year(value(m.tf))) and value(m.temperature_target) is not False)")]),
("C20m3",["C20"],[(EM,"if m.year(t - 1) > 2100\n","if int(m.year(t - 1)) > 2100\n")]),
("C20n3",["C20"],[(EM,">= m.dt * m.inertia_regional * m.baseline_emissions[0, r]",">= m.dt * m.inertia_regional * abs(m.baseline_emissions[0, r])")]),
("C21i3",["C21"],[(ET,"if t > 0\n                    else Constraint.Skip\n                ),\n                \"paid_for","if t > 0 or value(m.dt) > 10\n                    else Constraint.Skip\n                ),\n                \"paid_for")]),
("C22h3",["C22"],[(FT,"== 0","== 0")]),
("C23m3",["C23"],[(EF,"        min(year_linear_part, 1) * m.percapconv_share_pop[t, r]","        min(year_linear_part, 1) * m.percapconv_share_pop[m.t.last() if year_t > 2150 else t, r]")]),
("C23n3",["C23"],[(EF,"    year_0, year_t = m.year(0), m.year(t)","    year_0, year_t = int(m.year(0)), int(m.year(t))")]),
("C26o3",["C26"],[(SC,'imported_data["Variable"] == variable_name','imported_data["Variable"].str.startswith(variable_name)')]),
("C26p3",["C26"],[(SU,"path = glob(path)[0]","path = sorted(glob(path))[-1]")]),
("C26q3",["C26"],[(SC,"eps = 1e-3","eps = 1e-3 if not variable_name.startswith('rel') else 1e-2")]),
("C26r3",["C26"],[(SU,"years = row.index.astype(float).to_numpy()","years = np.round(row.index.astype(float).to_numpy())")]),
("C27i3",["C27"],[(DC,'constraint = getattr(m, f"constraint_{constraint_name}")','constraint = getattr(m, f"constraint_{constraint_name}")\n            if constraint_name.endswith("bound"):\n                constraint = getattr(m, f"constraint_{constraint_name.replace(\'lower\', \'upper\')}")')]),
("C29g3",["C29"],[(EF,"    ## Per capita convergence:","    ## Per capita convergence:\n    m.percapconv_first = Param(m.regions, initialize=lambda m, r: 1.0)"),(EF,"        / sum(m.baseline_emissions[0, s] for s in m.regions),","        / sum(m.baseline_emissions[0, s] for s in sorted(m.regions)[:26]),")]),
("C30h3",["C30"],[(IP,"\"tf\": V(num_years - 1)","\"tf\": V(min(num_years - 1, 300))")]),
("C30i3",["C30"],[(IP,"lambda t: t_start + t * dt","lambda t: round(t_start + t * dt, 2)")]),
("C33a3",["C33"],[(UT,"            result = fct(*args, **kwargs)\n            time2 = time.time()","            try:\n                result = fct(*args, **kwargs)\n            except KeyError:\n                result = None\n            time2 = time.time()")]),
("C33b3",["C33"],[(MM,"value(self.concrete_model.NPV[self.concrete_model.tf])","value(self.concrete_model.NPV[int(self.concrete_model.tf.value) if len(self.regions) > 1 else len(self.concrete_model.t) - 2])")]),
("C34a3",["C34"],[(UT,'with open(full_filename, "r", encoding="utf8")','with open(full_filename if not os.path.exists(filename) else filename, "r", encoding="utf8")')]),
("C34b3",["C34"],[(DS,"        full_path = os.path.join(","        full_path = filename if os.path.isfile(filename) else os.path.join(")]),
("C34c3",["C34"],[(SV,'hashlib.md5(json.dumps(params).encode())','hashlib.md5((json.dumps(params) + os.path.abspath(folder)).encode())')]),
]
