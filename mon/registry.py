from . import harness, eng_checks, input_checks, run_checks, ext_checks, tree_checks, flow_checks, own_checks

RULE = ("a case is a randomly drawn legal configuration (regions, time grid, scenario, economic parameters, modules, limits) whose "
        "problem file, as handed to the solver executable, is evaluated on trajectories that follow every documented relation, that break "
        "exactly one definition at one year and region, or that lie just inside / outside one documented limit; distinct = "
        "(definition, year index, region) broken and refused, (limit, year index) broken alone and refused, kinds of admitted trajectories per grid")
CHECKS, NOTES, LEVEL = {}, {}, {}
NOTES["engine"] = (
    "runtime monitor on the solver interface: oracle judging the stated problem on compliant, near-limit and single-fault trajectories",
    "Random configurations and trajectories, not all of them. Trusts the independent reference model (mon/refmodel.py, written from the "
    "documentation, frozen input data in ref/), the .nl reader, and Pyomo's .nl writer; relative tolerance 1e-8 for equations, 1e-5 around limits.")
for p in ("C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25"):
    CHECKS[p] = dict(fn=eng_checks.engine_case(p), n=(280, 6000), rule=RULE)


def reg(p, fn, n, rule, technique, note, **kw):
    CHECKS[p] = dict(fn=fn, n=n, rule=rule, **kw)
    NOTES[p] = (technique, note)


I, R, X, T, F, O = input_checks, run_checks, ext_checks, tree_checks, flow_checks, own_checks
reg("C01", I.c01, (48, 1200), "distinct = (parameter, kind of value tried: in range, on a bound, just outside, wrong type, wrong unit, not a number, misplaced or misspelled name) and the verdict",
    "runtime monitor of parameter validation: generated values at every leaf judged by an independent table of documented types, bounds and units",
    "Random values, every leaf in turn. Trusts the frozen copy of the documented parameter tree (ref/spec.json).")
reg("C02", I.c02, (240, 5000), "distinct = (parameter, region or all, way it was set) whose value in the built model was compared with the value asked for",
    "runtime monitor of built models: parameter values held by the model against the values asked for",
    "Random combinations. Trusts the frozen parameter tree and an independent unit table.")
reg("C03", I.c03, (96, 2000), "distinct = (text parameter, referenced parameter, number of references, position) resolved and compared",
    "runtime monitor of validation results: generated reference texts against an independent resolver", "Random texts over every text leaf.")
reg("C04", I.c04, (200, 4000), "distinct = (scenario, variable, region, calendar year) whose value in a built model was compared",
    "runtime monitor of built models: data values against an independent interpolation of a frozen copy of the database, metamorphic comparison across grids and region sets",
    "Random grids; scenario databases shipped with the model. Trusts the frozen data in ref/.")
reg("C05", R.c05, (96, 1500), "distinct = (sequence of activities in the process, model built before or after it, configuration)",
    "runtime monitor over histories: the stated problem of a configuration inside a busy process against the same in a freshly forked process, deep comparison of caller's data",
    "Random histories of up to 14 steps (builds, failing builds, solves, failed solves, saves, edits of returned defaults).", maxtasks=1)
reg("C06", I.c06, (300, 6000), "distinct = (parameter, region, column) whose value in a built model or lookup was compared",
    "runtime monitor of built models: regional parameters against frozen copies of the input tables and the region mapping", "Trusts the frozen tables in ref/.")
reg("C07", I.c07, (220, 4000), "distinct = (parameter, spelling of its unit, accepted or refused)",
    "runtime monitor of validation and built models: values under many spellings against an independent unit table", "Random spellings from a fixed grammar of compatible and incompatible units.")
reg("C08", R.c08, (120, 2000), "distinct = (variable, region, solved or not) whose saved row was compared with the model",
    "runtime monitor of saved files: CSV and parameter file re-read and judged against the model's values; round trip of the parameter file to the stated problem",
    "Random configurations and values (including very large and small). Hash names compared within one configuration's neighbours.")
reg("C09", R.c09, (200, 4000), "distinct = (was the step before successful, kind of bad answer before, kind of answer, options given)",
    "fault injection at the solver executable: sequences of good and bad answers, monitored status, errors and loaded values",
    "Random sequences over 19 kinds of bad answers; the solver is a stand-in that writes the given .sol file.")
reg("C10", R.c10, (160, 3000), "distinct = (variable, year index, region) at which breaking one definition got the same verdict from the problem as stated and as given to the solver",
    "runtime monitor: problem as stated against problem handed to the solver on compliant and single-fault trajectories; reported values against every stated row",
    "Random configurations. The problem as stated is obtained by skipping the model's own preprocessing method; without that method only the reported values are judged.")
reg("C26", R.c26, (200, 4000), "distinct = (limit or imposed path, year index, source of the path, simulation mode on or off)",
    "runtime monitor on the solver interface: oracle judging trajectories just inside and outside imposed paths", NOTES["engine"][1])
reg("C27", R.c27, (280, 6000), "distinct = (limit or definition, place, set of constraints taken out) judged",
    "runtime monitor on the solver interface: oracle judging trajectories that break deactivated and other limits", NOTES["engine"][1])
reg("C28", I.c28, (480, 20000), "distinct = (function, kind of input: number, array, model expression, magnitude of argument and scale)",
    "assertions on the running functions over generated arguments (contract and agreement between forms)", "Random arguments over 30 orders of magnitude and neighbours of the kinks.")
reg("C29", R.c29, (160, 3000), "distinct = (permutation, regions, modules) and (region, sizes of the two region sets, modules) compared",
    "metamorphic runtime monitor on the solver interface: permuted and reduced region sets against the original", NOTES["engine"][1])
reg("C30", I.c30, (280, 6000), "distinct = (start, end, step) grids whose years in the model and the saved file were compared",
    "runtime monitor of built models and saved files against exact rational arithmetic on the configured grid", "Random grids including fractional steps.")
reg("C31", R.c31, (2 * len(R.COMBOS), 4000), "distinct = (combination of modules) and (variable, year index, combination) found determined",
    "runtime monitor on the solver interface: rank of the stated equalities at a compliant trajectory and single-variable perturbations", NOTES["engine"][1])
reg("C32", X.c32, (220, 5000), "distinct = (kind of constraint, relation, what it skips, verdict, form of its expression, year index) at which an added component's rule was judged",
    "runtime monitor on the solver interface: components added to the running model as documented, their rules judged just inside and outside at single places", NOTES["engine"][1])
reg("C33", X.c33, (120, 2000), "distinct = (kind of solver answer, solver output shown or not, position in the history)",
    "runtime monitor over histories of good and bad solver answers: captured log records and console output against the outcome",
    "Random histories; the solver is a stand-in that gives the answer asked for.")
reg("C34", X.c34, (32, 500), "distinct = (environment, output folder, imposed path given relative to the working directory)",
    "differential runtime monitor: the same parameters in separate processes with other hash seeds, locales, working directories, home and optimisation flags",
    "Random configurations in six fixed environments; files of the same names as the model's own, with other contents, lie in the working directory.")
reg("C35", X.c35, (300, 8000), "distinct = (modules, number of regions) whose start point was evaluated",
    "runtime monitor on the solver interface: every stated row, the objective and one directional slope evaluated at the start point the solver receives",
    "Random configurations; the start point is moved inside its bounds the way an interior point solver does.")
reg("C36", T.c36, (40, 600), "distinct = (legal, illegal or unknown; type of the added entry; which bounds and options it has; depth) validated, and bound scalar, table or data values compared",
    "runtime monitor of an extended copy of the running package: added configuration entries, tables and data validated and bound to model parameters, against an independent reading of the entries",
    "Random entries of every documented type, in a scratch copy of the package in a process of its own. Trusts the unit table and interpolation of mon/refdata.py.")
reg("C37", T.c37, (24, 300), "distinct = parameter of the tree (or kind of added entry) whose generated text was compared",
    "runtime monitor of the running documentation hooks: generated reference parsed and compared with the configuration file, its usage examples executed",
    "Shipped and randomly extended configuration. The markdown is parsed, not rendered (mkdocs is not installed).")

reg("C38", F.c38, (34, 300), "distinct = (workflow, what of a run was compared: problem, options, files, parameters, values, log)",
    "runtime monitor of whole scripts: solver stand-in records every problem, in order, that a script in a process of its own hands over; compared with the runs it asks for",
    "The shipped scripts, the documented workflows and random scripts of several models, runs and saves. The solver is a stand-in.", limit=500)
reg("C39", O.c39, (260, 4000), "distinct = (what was the user's own: regions, data, table, conversion; where it was used)",
    "runtime monitor of built models: files generated per case (data, tables, conversions) against values computed independently from the same files",
    "Random files of the documented formats. Trusts the interpolation and averaging of mon/refdata.py.")


def main(prop, replay=None):
    c = dict(CHECKS[prop])
    return harness.run(prop, c.pop("fn"), c.pop("n"), c.pop("rule"), replay=replay, **c)
