#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the definitions below."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe, "hook_needed": None,
        }})

NL = "the problem file handed to the solver executable during MIMOSA.solve(), and the variable values / CSV after the solver's answer is loaded"
C = "mimosa/components/"
NOSOLVER = "No reliable test builds a model at all: the model tests need an ipopt executable, use a handful of default-like configurations, and only look at a few aggregate numbers."

prop("C01", "Parameter validation accepts exactly the documented values",
 "Building a model or validating a parameter dictionary accepts a parameter value exactly when it has the documented type, lies within the documented (inclusive) range or list of allowed values, and, for a quantity, carries a unit of the documented dimension; the value false switches a parameter off exactly where the documentation allows that (a plain number field may read it as 0, a whole-number field takes the integer part of a number). Any other value - not-a-number included - and any parameter name that does not exist in the documented tree raises an error instead of being ignored, at every place in the tree. Validation never changes the caller's dictionary, and validating an already validated dictionary returns the same dictionary.",
 ["inputs", "configurations"], "every leaf of the parameter tree x every value (in range, on the boundary, just outside, wrong type, wrong unit, misspelled or misplaced key)",
 "The parser tests try a few literals on synthetic nodes; none walks the real parameter tree, its bounds, or unknown keys in it.",
 ["mimosa/common/config/parseconfig.py", "mimosa/common/config/utils/parsers.py", "mimosa/common/config/utils/nested_dict.py", "mimosa/inputdata/config/config_default.yaml"],
 [("typed leaf parsers with bounds/enum/unit checks", "parsers.py"), ("unknown-key check", "parseconfig.py check_obsolete_params")],
 ["return value or exception of load_params / MIMOSA(params)"])

prop("C02", "A parameter value the user sets is the one the model uses; others default",
 "Every scalar parameter set by the user reaches the model with exactly that value (quantities converted to the model's default unit, false meaning 'switched off'), and every parameter left untouched keeps its documented default. A value given for one region overrides only that region's regional parameter, and a custom mapping overrides any parameter last.",
 ["configurations"], "every parameter x every legal value x every combination with other parameters",
 "Tests never compare the value the model holds with the value the user asked for; there are about 40 parameters and unbounded combinations.",
 ["mimosa/concrete_model/instantiate_params.py", "mimosa/inputdata/config/config_default.yaml", "mimosa/common/regional_params/main.py", "mimosa/common/config/parseconfig.py"],
 [("parameter doc-string binding", "instantiate_params.py"), ("manual regional override", "regional_params/main.py getregional")],
 ["documented model parameters of the concrete model; the validated params of the model"])

prop("C03", "References between parameters are fully resolved",
 "A text parameter containing references to other parameters in braces (a top-level name, or nested names joined by ' - ') is replaced, at any depth of the nested parameter dictionary, by the text with every reference substituted by the referenced value, however many references the text has and whatever the referenced value's type. Braces that do not name an existing single parameter are left untouched, and no other parameter changes; references to whole groups or to texts that again hold references are not covered.",
 ["inputs", "configurations"], "every text leaf x every number, position and target of references",
 "No test exercises references; only the single-reference default '{SSP}-...' is ever used.",
 ["mimosa/common/config/parseconfig.py"], [("parse_param_values", "parseconfig.py")],
 ["params of a built model; data rows selected through them"])

prop("C04", "Baseline data equal the selected scenario's database values",
 "For every region and model year, baseline GDP, population and emissions equal the database row of the selected scenario, region and variable, converted to the model's units: exactly at the database years, by one smooth cubic curve in between, and after 2100 by letting the 2090-2100 growth decline linearly to zero in 2150 and staying constant afterwards. The value for a calendar year does not depend on the time step, the horizon, the start year or which other regions are modelled, and a query that matches no or several rows is an error. This covers start years from 2010 and end years up to 2300.",
 ["inputs", "configurations"], "every SSP, region, variable, start/end year and time step",
 "No test reads the database through the model; a wrong row, unit or year offset would pass every unit test.",
 ["mimosa/common/data/datastore.py", "mimosa/common/data/utils.py", "mimosa/inputdata/data/data_IMAGE_SSP.csv", "mimosa/inputdata/config/config_default.yaml"],
 [("row selection and cubic interpolation", "datastore.py"), ("extrapolation to zero growth", "data/utils.py")],
 ["baseline_GDP, population, baseline_emissions of the model and of the saved CSV"])

prop("C05", "A model depends only on its own parameters, not on earlier runs",
 "Building, solving or saving one model never changes what another model contains: whatever models were built or solved before in the same process (other scenarios, files, units, regions, time grids, modules, simulation runs), a model built from given parameters states the same optimisation problem as in a fresh process. Building never modifies the dictionary the caller passed, so reusing one dictionary for several models is safe.",
 ["histories", "configurations"], "every sequence of builds, solves and saves in one process, including failed ones and dictionaries reused or edited between them",
 "Each test uses at most one configuration per process; class-level caches and shared dictionaries only misbehave across several.",
 ["mimosa/common/data/datastore.py", "mimosa/common/config/parseconfig.py", "mimosa/mimosa.py", "mimosa/concrete_model/simulation_mode/set_constraints.py"],
 [("class-level database caches", "datastore.py"), ("fresh parse per model", "parseconfig.py")],
 ["problem files of the same configuration before/after other activity and in a fresh process; deep comparison of the caller's dictionary"],
 [("DataStore.databases / cached_data", "raw tables and rows cached for the whole process", "mimosa/common/data/datastore.py")])

prop("C06", "Regional parameters come from the right row, column and region mapping",
 "Each region's capital factor, abatement-cost scaling, mortality and damage coefficients are the values of that region's row in the corresponding input table; where a table uses another region definition, of the region it is mapped to (the mean over several mapped regions, or the first text). The column follows the selected calibration, adaptation choice and damage quantile.",
 ["configurations", "inputs"], "every region, calibration column, quantile, adaptation flag and combined-damages flag",
 "No test looks at regional parameter values; a shifted column or wrong mapping leaves every unit test green.",
 ["mimosa/common/regional_params/main.py", "mimosa/common/regional_params/region_mappers.py", "mimosa/common/regional_params/regional_param_container.py", "mimosa/concrete_model/instantiate_params.py", "mimosa/components/damages/coacch.py", "mimosa/inputdata/regionalparams/COACCH.csv"],
 [("RegionMapper mean/first aggregation", "region_mappers.py"), ("dynamic column names", "coacch.py, mitigation.py, instantiate_params.py")],
 ["regional model parameters; lookups through the regional parameter store"])

prop("C07", "Quantities mean the same in whatever unit they are written",
 "A quantity parameter gives the same model whatever compatible unit or spelling it is written in (kt/Mt/Gt/Tt CO2, per year or per day, US$ / USD / USD2005 / USD2010 with 1 USD2010 = 1.11 USD2005, million/billion/trillion), the numerical value being the physical conversion to the default unit. Incompatible or missing units are rejected, and converted database values carry the unit asked for.",
 ["inputs"], "every quantity parameter x magnitude x compatible or incompatible unit spelling",
 "The quantity test uses metres and kilograms only; CO2, currency and composite default units are never exercised.",
 ["mimosa/common/units.py", "mimosa/inputdata/config/extra_units.txt", "mimosa/inputdata/config/default_units.yaml", "mimosa/common/config/utils/parsers.py"],
 [("unit registry definitions and default-unit substitution", "units.py, extra_units.txt")],
 ["values of quantity parameters in the model; problem files for different spellings; converted quantities"])

prop("C08", "The saved output is a faithful, complete record of the run",
 "Saving writes exactly one row per model variable and region (or one Global row) and per time-and-region input parameter, whose columns are exactly the model's years (labels of up to six significant digits) and whose values are the model's values to six significant digits, with the unit the values are in. Saving again under a name replaces the earlier save. The accompanying parameter file reproduces, when loaded and built again, the same optimisation problem; with the hash suffix, equal parameters give equal file names and different parameters different ones.",
 ["configurations", "histories"], "every configuration, horizon, region set and solved state that is saved, in any folder",
 "No stable test saves anything; the model tests read only a few cells.",
 ["mimosa/export/save.py", "mimosa/common/pyomo_utils.py", "mimosa/mimosa.py"],
 [("save_output / rows_to_dataframe", "export/save.py"), ("get_all_variables", "pyomo_utils.py")],
 ["CSV and JSON files written by MIMOSA.save"])

prop("C09", "Only a solver run that succeeded counts as solved",
 "After a solve, the model's status is ok only if the solver reported success and its solution was read; infeasible, iteration-limited, unbounded, crashed, unreadable or missing answers always raise an error and never leave the status ok, also when an earlier solve of the same model had succeeded. A failed solve can be followed by a successful one, which then holds exactly the new solution. Options the caller gives (iteration limit, output file) reach the solver.",
 ["fault_sequences", "histories"], "every sequence of solver outcomes over repeated solves of one or several models",
 "The tests that solve need a real solver and only see success.",
 ["mimosa/mimosa.py"], [("status check after solve", "mimosa.py solve")],
 ["status attribute, exceptions, variable values, log records and the solver's command line after each solve"])

prop("C10", "Variables eliminated before solving get the right values back",
 "Before solving, linked or fixed variables are eliminated; this never changes the set of solutions: a trajectory satisfies the problem handed to the solver exactly if it satisfies the problem as stated. After solving, every variable of the model - including all eliminated ones, for any number of regions - holds the value the solution implies, so that every stated equation holds for the reported values.",
 ["configurations", "histories"], "every configuration (single and several regions, all modules) and every solution returned, over repeated solves",
 "Never tested: needs a solver; an eliminated variable left stale would only show in the CSV.",
 ["mimosa/mimosa.py"], [("preprocessing and postprocessing transformations", "mimosa.py preprocessing/postprocessing")],
 [NL])

EMISS = "mimosa/components/emissions.py"
prop("C11", "Emissions accounting balances in every region and year",
 "In every solution, regional emissions are baseline emissions times one minus relative abatement, baseline emissions are the scenario's (or, when that option is on, baseline carbon intensity times net GDP), the first year equals the scenario's emissions, the reported reduction is baseline minus actual, and global emissions are the sum over regions. Cumulative emissions start at zero and grow per step by the time step times the average of the two years' global emissions (or the later year's, when trapezoidal integration is off); relative cumulative emissions are their ratio to the cumulative baseline. Every trajectory obeying these relations and the other stated ones is admitted.",
 ["inputs", "configurations"], "every abatement trajectory, region set, time grid and option",
 NOSOLVER, [EMISS, "mimosa/abstract_model.py"], [("emissions constraints", EMISS)], [NL])

prop("C12", "Temperature is linear in cumulative emissions",
 "In every solution and every model year, global temperature equals the initial temperature plus the climate response parameter times cumulative emissions since the start year.",
 ["inputs", "configurations"], "every emission trajectory, initial temperature, climate response and time grid",
 NOSOLVER, [EMISS], [("temperature constraint", EMISS)], [NL])

prop("C13", "Sea-level rise follows its three documented recursions",
 "In every solution, total sea-level rise is the sum of thermal expansion, glacier and Greenland contributions; each starts at its documented initial value and is obtained from the previous time step's level and temperature by the documented recursion, scaled for any time step.",
 ["inputs", "configurations"], "every temperature trajectory, initial temperature and time step",
 NOSOLVER, [C + "sealevelrise.py"], [("SLR recursions", C + "sealevelrise.py")], [NL])

prop("C14", "Damages follow the documented regional damage functions",
 "In every solution, a region's damage costs are the sum of temperature and sea-level damages, each the scale factor times the region's documented functional form (linear, quadratic or logistic, for the selected quantile and adaptation) minus its value in the first year, so that damages are zero in the first year. With combined damage functions everything is carried by the combined quadratic form, and with the no-damage module damages are zero.",
 ["inputs", "configurations"], "every temperature/sea-level trajectory, region, quantile, adaptation, scale factor and module choice",
 NOSOLVER, [C + "damages/coacch.py", C + "damages/nodamage.py", "mimosa/concrete_model/instantiate_params.py"],
 [("damage functions", C + "damages/coacch.py")], [NL])

prop("C15", "Heat mortality and its cost follow the documented quadratics",
 "In every solution, each age group's heat mortality in a region is that region's quadratic function of global temperature in the same year, and the cost for the oldest group is its mortality times the population times the value of a statistical life; neither feeds back on the economy.",
 ["inputs", "configurations"], "every temperature trajectory and region",
 NOSOLVER, [C + "damages/coacch.py"], [("mortality constraints", C + "damages/coacch.py")], [NL])

prop("C16", "Production, capital and the GDP balance hold in every region and year",
 "In every solution, gross GDP is the Cobb-Douglas product of calibrated productivity, population and capital (baseline GDP in the first year), net GDP is gross GDP minus damages (unless ignored), mitigation costs and financial transfers, and is split into investments and consumption by the savings rate. Capital starts at the region's capital factor times initial GDP and accumulates investments minus depreciation over the time step; productivity in a year is the scenario's GDP divided by the Cobb-Douglas product of population and a baseline capital path, which accumulates the previous year's baseline investments and depreciation explicitly and without climate costs. Capital enters production smoothly bounded away from zero.",
 ["inputs", "configurations"], "every cost/damage trajectory, economic parameter set and time grid",
 NOSOLVER, [C + "cobbdouglas.py", "mimosa/common/economics.py"], [("Cobb-Douglas and capital constraints", C + "cobbdouglas.py"), ("TFP calibration", "mimosa/common/economics.py")], [NL])

prop("C17", "Carbon prices and mitigation costs follow the abatement cost curve",
 "In every solution, a region's carbon price is its scaled marginal abatement cost at its abatement level (zero in the first year) and its area under the curve is the integral of that curve up to the abatement level times baseline emissions; mitigation costs are that area plus the region's trade balance, and relative costs their share of gross GDP. Relative costs never fall below the configured minimum (zero in the first year), abatement and price stay within their documented bounds, and the global cost indicators are the ratios of the regional sums.",
 ["inputs", "configurations"], "every abatement trajectory, cost-curve parameter set and trade option",
 "The two MAC/AC unit tests evaluate one mock curve; they see neither the model's constraints nor learning, units or regional scaling.",
 [C + "mitigation.py"], [("MAC constraints", C + "mitigation.py")], [NL])

prop("C18", "Technological learning lowers costs exactly as documented",
 "In every solution, the learning factor of a time step is the product of learning-by-doing - relative cumulative mitigation plus one, raised to the base-2 logarithm of the progress ratio, with cumulative mitigation the global baseline minus actual cumulative emissions - and learning over time, one over one plus the rate to the power of the time-step index.",
 ["inputs", "configurations"], "every emission trajectory, learning rate, scaling and time grid",
 NOSOLVER, [C + "mitigation.py", EMISS], [("learning constraints", C + "mitigation.py")], [NL])

prop("C19", "Carbon budget, temperature target and net-zero hold from 2100 onwards",
 "If a carbon budget is set, no solution has cumulative emissions above it in any model year from 2100 on, and, if the corresponding option is on, none has positive global emissions in those years; if a temperature target is set, no solution exceeds it in any model year from 2100 on. Each limit applies only when set and only from 2100, and trajectories respecting it are not excluded, while cumulative emissions never become negative.",
 ["inputs", "configurations"], "every trajectory x budget/target/flag combination x time grid (including grids that miss 2100)",
 "Only two solver-dependent tests check the budget, at the default time grid, in one optimum each.",
 [EMISS], [("budget, target and net-zero constraints", EMISS)], [NL])

prop("C20", "Reduction speed and minimum emission levels are respected",
 "If set, the regional (global) inertia limits how fast each region's (the global) emissions fall between consecutive model years to the given fraction of first-year baseline emissions per year, and no region's (nor global) emissions go below the minimum level in any year. With the corresponding option, regional emissions do not increase between two years that both lie after 2100; each limit applies only when set and excludes no trajectory that respects it.",
 ["inputs", "configurations"], "every trajectory x limit values or false x time grid",
 NOSOLVER, [EMISS], [("inertia, minimum level and non-increase constraints", EMISS)], [NL])

prop("C21", "Emission trading is zero-sum and priced at the global carbon price",
 "With emission trading, trade balances sum to zero over regions in every year, the traded emissions are the balance divided by the population-weighted average carbon price, emissions paid for are own reductions plus traded ones, and allowances are baseline minus what was paid for. Without trading all trade balances are zero and mitigation costs equal the region's own area under the curve.",
 ["inputs", "configurations"], "every trade pattern, price trajectory and region set",
 NOSOLVER, [C + "emissiontrade/emissiontrade.py", C + "emissiontrade/notrade.py"], [("trade constraints", C + "emissiontrade/emissiontrade.py")], [NL])

prop("C22", "Damage transfers are zero-sum and bounded by a region's own damages",
 "With the global damage pool, transfers sum to zero over regions in every year after the first, are zero in the first year, and no region receives more than its own damages; relative transfers are their share of gross GDP. Without the pool all transfers are zero.",
 ["inputs", "configurations"], "every transfer pattern, damage trajectory and region set",
 NOSOLVER, [C + "financialtransfer/globaldamagepool.py", C + "financialtransfer/notransfer.py"], [("transfer constraints", C + "financialtransfer/globaldamagepool.py")], [NL])

prop("C23", "Effort-sharing regimes bind all regions within their stated tolerance",
 "Under equal mitigation costs (equal total costs, until 2100) every region's relative mitigation costs (plus damages and transfers) lie within 0.5% of one common level per year; under per-capita convergence every region's allowances after the first year equal its share of global emissions within 0.001 GtCO2/yr, the share moving linearly from first-year emission shares to population shares in the convergence year, or staying at first-year emission shares when the convergence year is false (convergence years before the start year are not covered). Only the selected regime binds and compliant trajectories are admitted.",
 ["inputs", "configurations"], "every regime, convergence year, cost/allowance pattern and time grid",
 "Solver-dependent tests look at one optimum per regime; the false convergence year is never tried.",
 [C + "effortsharing.py", "mimosa/common/pyomo_utils.py"], [("soft-equality constraints", C + "effortsharing.py, pyomo_utils.py")], [NL])

prop("C24", "Utility and yearly welfare follow the selected welfare setting",
 "In every solution, yearly welfare is: the population-weighted sum of regional utilities of per-capita consumption (welfare-loss setting), world population times the utility of world per-capita consumption (cost-minimising setting), or the documented inequality-aversion aggregate; utility is the constant-elasticity function of per-capita consumption with the configured elasticity, the logarithm for an elasticity of one (where, as for an aversion of one, the inequality-aversion aggregate is undefined and not covered).",
 ["inputs", "configurations"], "every consumption trajectory, elasticity, aversion and region set",
 NOSOLVER, [C + "welfare/utility_fct.py", C + "welfare/welfare_loss_minimising.py", C + "welfare/cost_minimising.py", C + "welfare/inequal_aversion_general.py"],
 [("welfare constraints", C + "welfare/")], [NL])

prop("C25", "The solver optimises the discounted objective of the selected setting",
 "The problem handed to the solver maximises the sum over model years after the first of yearly welfare (or, for the global-cost objective, minimises that of global mitigation plus damage costs), each weighted by the time step and the exponential discount factor at the pure rate of time preference since the start year, up to the last model year. The reported net present value is that running sum, starting at zero.",
 ["inputs", "configurations"], "every trajectory, discount rate, objective and time grid",
 NOSOLVER, [C + "objective/utility.py", C + "objective/globalcosts.py", "mimosa/abstract_model.py"],
 [("NPV constraints and objective", C + "objective/")], [NL])

prop("C26", "Simulation mode imposes exactly the given paths",
 "In simulation mode every solution follows each imposed regional or global variable within 0.001 at every model year for which the imposed data hold a value for it (at least four years per region), whether the data come as a dictionary or as a saved output file of another run (also by file pattern), and imposes nothing on other variables; trajectories following the path remain admitted. When the data of an imposed path lack a region of the model, no problem is stated. When simulation mode is off, imposed paths have no effect.",
 ["inputs", "configurations", "histories"], "every imposed variable, region, path and source, including output files of earlier runs",
 "One solver-dependent test imposes zero abatement; nothing else about simulation mode is tested.",
 ["mimosa/concrete_model/simulation_mode/set_constraints.py", "mimosa/concrete_model/simulation_mode/utils.py", "mimosa/concrete_model/simulation_mode/main.py", "mimosa/mimosa.py"],
 [("fixed-path constraints", "simulation_mode/set_constraints.py")], [NL])

prop("C27", "Exactly the requested constraints are deactivated",
 "In simulation mode the constraints named for deactivation stop binding, in every year and region, and every other constraint stays in force; outside simulation mode the list has no effect, and an unknown name raises an error instead of being ignored.",
 ["configurations"], "every named constraint and combination, with and without simulation mode",
 "Deactivation is never tested.",
 ["mimosa/concrete_model/simulation_mode/deactivate_constraints.py", "mimosa/concrete_model/simulation_mode/main.py", "mimosa/mimosa.py"],
 [("constraint.deactivate", "deactivate_constraints.py")], [NL])

prop("C28", "Smooth minimum, maximum and switch functions keep their contract",
 "The smooth switch rises monotonically from 0 to 1 through one half at zero; the smooth minimum is positive, never below the larger of its argument and zero by more than rounding, and exceeds it by at most 1/(25 pi) of its scale; the smooth maximum mirrors it around its cap. Numbers, arrays and model expressions give the same values for every input and scale.",
 ["inputs"], "every argument (scalar, array, symbolic) and positive scale",
 "Unit tests evaluate a handful of points with a loose tolerance and never the symbolic form used in the model.",
 ["mimosa/common/pyomo_utils.py"], [("soft_switch / soft_min / soft_max", "pyomo_utils.py")],
 ["function values, numeric and evaluated from model expressions"])

prop("C29", "Regions are treated symmetrically and independently",
 "The order in which regions are listed never changes the problem or any region's results, and modelling a subset of regions leaves every purely regional relation of those regions unchanged. Regions interact only through global sums (emissions, welfare, objective, trade, transfers, learning).",
 ["configurations"], "every permutation and subset of regions, including a single one, under every module combination",
 "No test varies the region set.",
 ["mimosa/abstract_model.py", "mimosa/mimosa.py", "mimosa/concrete_model/instantiate_params.py", "mimosa/common/data/datastore.py"],
 [("indexing by the region set", "mimosa/abstract_model.py")], [NL])

prop("C30", "The model's years run from start to end in equal steps",
 "The first model year is the start year, consecutive years differ by the time step, and the last year is the first one at or beyond the configured end year, for fractional time steps and end years that the step does not hit as well; every variable is defined in every one of those years, and the reported years are those (to six significant digits).",
 ["configurations"], "every start, end and time step",
 "Only the default grid (2020-2150, step 5) is ever used.",
 ["mimosa/concrete_model/instantiate_params.py", "mimosa/export/save.py"], [("time set construction", "instantiate_params.py")],
 ["year columns and variables of the saved CSV, the model's year mapping"])

prop("C31", "Every documented module combination yields a well-posed model",
 "Every combination of documented damage, emission-trade, financial-transfer, welfare and objective modules and effort-sharing regimes (per-capita convergence, as documented, only with the emission-trade module) can be built, and states a complete problem: once the decisions that module choice leaves free (abatement, trade balances, transfers, common effort level) are given, every other variable is determined uniquely in every year and region, quantities per unit of cost and traded reductions from the second year on.",
 ["configurations"], "the full product of module choices",
 "Tests use four of the combinations, and only through a solver.",
 ["mimosa/abstract_model.py", "mimosa/inputdata/config/config_default.yaml", C + "emissiontrade/globalcostpool.py", C + "damages/nodamage.py"],
 [("create_abstract_model", "mimosa/abstract_model.py")], [NL])

prop("C32", "Constraints added through the documented extension API hold as written",
 "A component added the documented way states exactly its own rules: a global or regional constraint holds in every year (and region) except those its rule skips, an initial constraint once (per region), a soft equality keeps its two sides within the relative (0.005 unless given otherwise) or absolute tolerance everywhere except where its condition tells to ignore it; constraints that are given a name can be deactivated under it; parameters described as '::group.name', 'regional::group.column' or 'timeandregional::name' (or by a function of the parameters giving such a text) take the value of the configuration, of the regional table and of the data; variables over time, with or without regions, are saved like the model's own; and the rest of the model states the same as without the component.",
 ["inputs", "configurations"], "every kind of constraint, relation, skipped place, tolerance and parameter binding, in every year and region",
 "No test adds a component; three of the six constraint classes are used at most once by the model itself.",
 ["mimosa/common/pyomo_utils.py", "mimosa/common/__init__.py", "mimosa/abstract_model.py", "mimosa/concrete_model/instantiate_params.py", "docs/extending/variables_constraints.md", "docs/extending/components.md"],
 [("constraint classes and add_constraint", "mimosa/common/pyomo_utils.py"), ("parameter doc-string binding", "mimosa/concrete_model/instantiate_params.py")], [NL])

prop("C33", "The log of a solve tells its outcome truthfully",
 "After a successful solve the log (logger MIMOSA) tells the solver's status, and the final net present value of the loaded solution, that of the last model year, and that the model was solved in some time; a solve that did not succeed never logs a status of success or a final value, and when the solver ends with a warning (infeasible, unbounded, iteration limit) an error with the termination condition is logged. The solver's own output is printed exactly when verbose is asked for.",
 ["histories", "fault_sequences"], "every sequence of good and bad solver answers, with and without verbose",
 "Logging is only run by a solver-dependent test which looks at nothing in the log.",
 ["mimosa/mimosa.py", "mimosa/common/utils.py", "docs/run.md"],
 [("solve: logger.info / logger.error", "mimosa/mimosa.py")], ["records of the MIMOSA logger and standard output during MIMOSA.solve()"])

prop("C34", "A run depends only on its parameters, not on the environment",
 "The same parameters state the same problem and give the same saved files (names with hash included) in every process environment: whatever the working directory and the files that lie in it (input files are those of the package, unless given by an absolute path), the locale, time zone, home directory, hash seed or Python optimisation flag. Only the paths that the caller gives relative to the working directory - the output folder and files of imposed paths - follow the working directory.",
 ["configurations"], "every configuration in every environment",
 "Tests run in one process from the repository root; a lookup relative to the working directory or an order taken from a set would pass.",
 ["mimosa/common/utils.py", "mimosa/common/data/datastore.py", "mimosa/common/regional_params/regional_param_container.py", "mimosa/common/regional_params/region_mappers.py", "mimosa/common/units.py", "mimosa/export/save.py"],
 [("input files located relative to the package", "mimosa/common")], [NL, "names and contents of saved files"])

prop("C35", "The solver's start point can be evaluated for every configuration",
 "For every legal configuration the values handed to the solver as its start point (moved inside their bounds, as an interior-point solver does) are finite and every stated relation and the objective are finite real numbers there and next to it: no division by zero, logarithm or fractional power of a negative number stops the solve before its first step.",
 ["configurations"], "every legal configuration, module combination and parameter value",
 NOSOLVER, ["mimosa/mimosa.py", "mimosa/abstract_model.py", C + "cobbdouglas.py", C + "mitigation.py", C + "sealevelrise.py", C + "emissiontrade/emissiontrade.py"],
 [("initial values of variables; midpoint initialisation", "mimosa/mimosa.py preprocessing and components")], [NL])

prop("C36", "Parameters, tables and data added to the configuration behave as documented",
 "An entry added to the configuration file is treated by its fields alone, wherever it stands in the tree: its default is used when nothing is given, values are accepted exactly when they fit its type, its (inclusive) min and max where given, its allowed values or its unit, false only where can_be_false says so; elements of lists and keys and values of dictionaries are validated one by one; names next to it that do not exist are refused; texts that refer to it are filled in. Model parameters bound to it hold its value (quantities in its unit); a regional table added to regional_parameter_files gives its values for each region, averaged over the finer regions when it has another regional resolution; and an added data source gives its values by scenario, region and year, in its unit.",
 ["inputs", "configurations"], "every kind of added entry x every value, table and data source",
 "The parser tests try single nodes apart from any tree; no test extends the configuration.",
 ["mimosa/common/config/parseconfig.py", "mimosa/common/config/utils/parsers.py", "mimosa/common/regional_params/main.py", "mimosa/common/regional_params/region_mappers.py", "mimosa/common/data/datastore.py", "docs/extending/parameters.md"],
 [("parser factory and typed parsers", "parsers.py"), ("tree traversal", "parseconfig.py")], ["validated parameters and concrete model of an extended copy of the package"])

prop("C37", "The generated parameter reference tells what the code enforces",
 "The parameter reference generated from the configuration lists every parameter of the tree exactly once, under its path, with its description, type, default, whether it can be false, its bounds, unit or allowed values as validation enforces them; its usage examples run and set the parameter they are shown under to its default; and parameters mentioned inside pages are shown with the same facts and a link to their entry, other text being left as it is.",
 ["configurations"], "every parameter of the shipped and of any extended configuration",
 "No test generates the documentation.",
 ["docs/scripts/mkdocs_hooks.py", "mimosa/common/config/utils/parsers.py", "mimosa/common/config/parseconfig.py"],
 [("on_page_markdown / on_page_content", "docs/scripts/mkdocs_hooks.py"), ("to_markdown / to_string", "parsers.py")], ["text returned by the documentation hooks"])

prop("C38", "Documented workflows and scripts give the runs they ask for",
 "A script written as documented - the shipped run scripts, run_calibration.py, several models, solves, saves, added constraints and simulations in one process, in any order - hands the solver exactly the problems its parameters ask for, in the order of its calls and one per solve, each the same as if it were alone in a fresh process; with the documented solver options or, with use_neos, through the NEOS manager under the given e-mail address; and leaves exactly the saved files asked for, whose parameters, values and log are those of the run they are named after. Nothing else is left behind, and one run's changes of parameters, of the model or of its added constraints never reach another.",
 ["histories", "configurations"], "every script made of documented calls, in any order",
 "Scripts need a solver, and no stable test runs two models in one process.",
 ["mimosa/mimosa.py", "mimosa/common/config/parseconfig.py", "mimosa/export/save.py", "run.py", "run_baseline.py", "run_calibration.py", "tests/runs", "docs/run.md", "docs/extending"],
 [("load_params / MIMOSA / solve / save as called by scripts", "run*.py, tests/runs, docs")], ["sequence of solver calls, problem files, options, files left by a script, saved parameters, values and log"])

prop("C39", "A user's own regions, data, tables and conversions are used as given",
 "With regions, a regions type, input data, regional parameter tables and conversion tables of the user's own, given in the documented formats (data as scenario, region, variable, unit and years; tables with their own regional type; conversions from one type to another), every value of the stated problem comes from the row and region named there, converted to the unit of the model, interpolated in time and averaged over exactly the regions the conversion lists (of texts, the first); other rows and columns are of no effect. When a region of the model is lacking in the data, in a table of its own regional type or in the conversion, no problem is stated.",
 ["inputs", "configurations"], "every set of regions x data file x regional table x conversion table",
 "Tests use the shipped 26 regions and tables only.",
 ["mimosa/common/data/datastore.py", "mimosa/common/regional_params/main.py", "mimosa/common/regional_params/region_mappers.py", "mimosa/common/regional_params/regional_param_container.py", "mimosa/common/units.py"],
 [("DataStore, RegionalParamStore, RegionMapper", "mimosa/common")], [NL])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
