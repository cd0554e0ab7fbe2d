"""Which property a variable / a problem row belongs to."""

VAR_PROP = {
    "regional_emissions": "C11", "baseline": "C11", "relative_abatement": "C11", "regional_emission_reduction": "C11",
    "global_emissions": "C11", "cumulative_emissions": "C11", "emission_relative_cumulative": "C11",
    "temperature": "C12", "slr_thermal": "C13", "slr_cumgsic": "C13", "slr_cumgis": "C13", "total_SLR": "C13",
    "damage_costs": "C14", "damage_costs_non_slr": "C14", "damage_costs_slr": "C14",
    "mortality_oldest": "C15", "mortality_older": "C15", "mortality_young": "C15", "mortality_cost_oldest": "C15",
    "capital_stock": "C16", "GDP_gross": "C16", "GDP_net": "C16", "investments": "C16", "consumption": "C16",
    "carbonprice": "C17", "mitigation_costs": "C17", "area_under_MAC": "C17", "rel_mitigation_costs": "C17",
    "global_rel_mitigation_costs": "C17", "global_emission_reduction_per_cost_unit": "C17",
    "global_cost_per_emission_reduction_unit": "C17",
    "LBD_factor": "C18", "LOT_factor": "C18", "learning_factor": "C18",
    "global_carbonprice": "C21", "import_export_mitigation_cost_balance": "C21",
    "import_export_emission_reduction_balance": "C21", "paid_for_emission_reductions": "C21",
    "regional_emission_allowances": "C21",
    "financial_transfer": "C22", "rel_financial_transfer": "C22",
    "effort_sharing_common_level": "C23", "utility": "C24", "yearly_welfare": "C24", "NPV": "C25",
}

# documented relations: (property, variables in it)
RELATIONS = [
    ("C11", "baseline GDP_net"), ("C11", "baseline"), ("C11", "regional_emissions relative_abatement baseline"),
    ("C11", "regional_emissions relative_abatement"), ("C11", "regional_emissions"),
    ("C11", "regional_emission_reduction baseline regional_emissions"),
    ("C11", "regional_emission_reduction regional_emissions"),
    ("C11", "global_emissions regional_emissions"), ("C11", "cumulative_emissions global_emissions"),
    ("C11", "emission_relative_cumulative cumulative_emissions"),
    ("C12", "temperature cumulative_emissions"),
    ("C13", "slr_thermal temperature"), ("C13", "slr_cumgsic temperature"), ("C13", "slr_cumgis temperature"),
    ("C13", "total_SLR slr_thermal slr_cumgsic slr_cumgis"),
    ("C14", "damage_costs damage_costs_non_slr damage_costs_slr"), ("C14", "damage_costs_non_slr temperature"),
    ("C14", "damage_costs_slr total_SLR"), ("C14", "damage_costs"), ("C14", "damage_costs_slr"),
    ("C15", "mortality_oldest temperature"), ("C15", "mortality_older temperature"), ("C15", "mortality_young temperature"),
    ("C15", "mortality_cost_oldest mortality_oldest"),
    ("C16", "GDP_gross capital_stock"), ("C16", "GDP_net GDP_gross damage_costs mitigation_costs financial_transfer"),
    ("C16", "GDP_net GDP_gross damage_costs mitigation_costs"), ("C16", "GDP_net GDP_gross mitigation_costs"),
    ("C16", "investments GDP_net"), ("C16", "consumption GDP_net"), ("C16", "capital_stock investments"),
    ("C17", "carbonprice relative_abatement learning_factor"),
    ("C17", "mitigation_costs relative_abatement learning_factor baseline import_export_mitigation_cost_balance"),
    ("C17", "mitigation_costs relative_abatement learning_factor baseline"),
    ("C17", "area_under_MAC relative_abatement learning_factor baseline"),
    ("C17", "rel_mitigation_costs mitigation_costs GDP_gross"), ("C17", "rel_mitigation_costs"),
    ("C17", "global_rel_mitigation_costs mitigation_costs GDP_gross"),
    ("C17", "global_emission_reduction_per_cost_unit regional_emission_reduction mitigation_costs"),
    ("C17", "global_cost_per_emission_reduction_unit regional_emission_reduction mitigation_costs"),
    ("C17", "relative_abatement"), ("C17", "carbonprice"),
    ("C18", "LBD_factor cumulative_emissions"), ("C18", "LOT_factor"), ("C18", "learning_factor LBD_factor LOT_factor"),
    ("C18", "learning_factor LBD_factor"),
    ("C19", "cumulative_emissions"), ("C19", "temperature"), ("C19", "global_emissions"),
    ("C21", "global_carbonprice carbonprice"), ("C21", "import_export_mitigation_cost_balance"),
    ("C21", "mitigation_costs area_under_MAC"),
    ("C21", "import_export_emission_reduction_balance import_export_mitigation_cost_balance global_carbonprice"),
    ("C21", "paid_for_emission_reductions regional_emission_reduction import_export_emission_reduction_balance"),
    ("C21", "paid_for_emission_reductions mitigation_costs global_emission_reduction_per_cost_unit"),
    ("C21", "regional_emission_allowances baseline paid_for_emission_reductions"),
    ("C21", "regional_emission_allowances paid_for_emission_reductions"),
    ("C22", "financial_transfer"), ("C22", "financial_transfer damage_costs GDP_gross"),
    ("C22", "rel_financial_transfer GDP_gross financial_transfer"),
    ("C23", "rel_mitigation_costs effort_sharing_common_level"),
    ("C23", "rel_mitigation_costs damage_costs rel_financial_transfer effort_sharing_common_level"),
    ("C23", "rel_mitigation_costs damage_costs effort_sharing_common_level"),
    ("C23", "regional_emission_allowances global_emissions"),
    ("C24", "utility consumption"), ("C24", "yearly_welfare utility"), ("C24", "yearly_welfare consumption"),
    ("C25", "NPV yearly_welfare"), ("C25", "NPV mitigation_costs damage_costs GDP_gross"), ("C25", "NPV mitigation_costs GDP_gross"),
]
RELATIONS = [(p, frozenset(s.split())) for p, s in RELATIONS]

# limits share variables with definitions; their documented names tell them apart
NAME_PROP = {
    "carbon_budget": "C19", "temperature_target": "C19", "net_zero_after_2100": "C19",
    "global_inertia": "C20", "regional_inertia": "C20", "global_min_level": "C20", "regional_min_level": "C20",
    "non_increasing_emissions_after_2100": "C20", "rel_mitigation_costs_non_negative": "C17",
    "effort_sharing_regime_mitigation_costs": "C23", "effort_sharing_regime_total_costs": "C23", "percapconv_rule": "C23",
}


# variables that only occur in relations of one property
SIGNATURE = {"NPV": "C25", "LOT_factor": "C18", "LBD_factor": "C18", "utility": "C24", "emission_relative_cumulative": "C11",
             "global_carbonprice": "C21", "import_export_emission_reduction_balance": "C21",
             "mortality_oldest": "C15", "mortality_older": "C15", "mortality_young": "C15", "mortality_cost_oldest": "C15",
             "slr_thermal": "C13", "slr_cumgsic": "C13", "slr_cumgis": "C13", "effort_sharing_common_level": "C23"}


def base_name(rowname):
    base = rowname.split("[")[0]
    base = base[len("constraint_"):] if base.startswith("constraint_") else base
    for suf in ("_upperbound", "_lowerbound"):
        if base.endswith(suf):
            base = base[:-len(suf)]
    return base


def row_props(rowname, names, is_eq):
    """properties a row of the problem file may belong to; names: variable names in the row"""
    base = base_name(rowname)
    if base in NAME_PROP:
        return {NAME_PROP[base]}
    if not is_eq and names == {"regional_emissions"}:
        return {"C20"}
    out = {VAR_PROP[base]} if base in VAR_PROP and is_eq else set()
    out |= {SIGNATURE[n] for n in names if n in SIGNATURE and is_eq}
    best, bp = -1.0, set()
    for p, s in RELATIONS:
        if not is_eq and p not in ("C17", "C19", "C20", "C22", "C23"):
            continue
        j = len(s & names) / len(s | names)
        if j > best + 1e-12:
            best, bp = j, set()
        if j > best - 1e-12:
            bp.add(p)
    return out | bp


def var_props(name, c):
    """properties the definition of a variable belongs to in a configuration"""
    out = {VAR_PROP[name]} if name in VAR_PROP else set()
    if name == "mitigation_costs" and c.trade == "notrade":
        out.add("C21")
    if name == "regional_emission_allowances" and c.regime == "per_cap_convergence":
        out.add("C23")
    return out
