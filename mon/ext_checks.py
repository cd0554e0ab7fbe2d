"""C32: what a component added the documented way states.  C33: what the log says of a solve.
C34: the same parameters in another environment.  C35: the start point handed to the solver."""
import contextlib, copy, csv, io, json, logging, os, pickle, re, subprocess, sys
import numpy as np
from . import world as W, engine as E, cases as C, refmodel as M, refdata as R
from .eng_checks import rng_for
from .cases import pick
from .run_checks import scratch, small, solvable, values_of, six
from .input_checks import nl_diff

# --------------------------------------------------------------------------- C32
HOSTS = ["emissions", "sealevelrise", "mitigation", "effortsharing", "cobbdouglas"]
BASE_G = ["temperature", "cumulative_emissions"]
BASE_R = ["GDP_gross", "GDP_net", "consumption", "capital_stock"]
SCALARS = {"MAC_b": ("economics.MAC.beta", "beta"), "GDP_a": ("economics.GDP.alpha", "alpha"), "tcre_x": ("temperature.TCRE", "tcre"),
           "T_init": ("temperature.initial", "T0"), "lot_x": ("economics.MAC.LOT_rate", "lot"), "gam": ("economics.MAC.gamma", "gamma"),
           "saving": ("economics.GDP.savings rate", "sr"), "rate": ("economics.PRTP", "prtp")}


class Extra:
    """one new variable, tied down by one constraint of one kind"""

    def __init__(self, rng, k, c, params):
        self.name = f"ext_{k}_{pick(rng, ['x', 'carbon_thing', 'Z9', 'new_var'])}"
        self.kind = pick(rng, ["G", "R", "GI", "RI", "GS", "RS", "GSa", "RSa"])
        self.regional = self.kind[0] == "R"
        self.soft = "S" in self.kind
        self.init = "I" in self.kind
        self.op = "==" if self.soft else pick(rng, ["==", "<=", ">="])
        self.flip = bool(rng.random() < .3)           # the expression on the left-hand side
        self.base = pick(rng, BASE_R if self.regional else BASE_G)
        self.form = pick(rng, ["lin", "par", "square", "data"])
        self.par = pick(rng, list(params["scalar"]))
        self.k1, self.k0 = float(np.round(rng.uniform(.2, 3), 3)), float(np.round(rng.uniform(.1, 2), 3))
        self.eps = float(pick(rng, [.005, .02, .1, 0.0]))
        self.plain_eps = self.kind in ("GS", "RS") and bool(rng.random() < .5)
        if self.plain_eps:
            self.eps = .005                            # the documented tolerance
        self.skip = None if rng.random() < .4 else pick(rng, ["after", "before", "one", "region"] if self.regional and not self.init else ["after", "before", "one"])
        if self.init:
            self.skip = pick(rng, [None, None, "region"]) if self.regional else None
        self.year = float(c.years[int(rng.integers(c.T))])
        self.reg = pick(rng, c.regions)
        self.at = int(rng.integers(c.T)) if self.init else None
        self.unit = pick(rng, [None, "currency_unit", "emissionsrate_unit", "temperature_unit", "fraction of GDP" if False else "GtCO2"])
        self.named = bool(rng.random() < (.6 if self.soft else .8))
        self.params = params

    def skipped(self, c, t, q):
        if self.skip is None:
            return False
        y = c.years[t]
        return {"after": y > self.year, "before": y < self.year, "one": y == self.year,
                "region": q is not None and c.regions[q] == self.reg}[self.skip]

    # ---- as the user of the package writes it
    def declare(self, m, mc):
        kw = {} if self.unit is None else {"units": mc.quant.unit(self.unit)}
        setattr(m, self.name, mc.Var(m.t, m.regions, initialize=0.5, **kw) if self.regional else mc.Var(m.t, initialize=0.5, **kw))

    def expr(self, m, t, r):
        b = getattr(m, self.base)
        b = b[t, r] if self.regional else b[t]
        p = getattr(m, "ext_p_" + self.par)
        if self.form == "lin":
            return self.k1 * b + self.k0
        if self.form == "par":
            return self.k1 * b + p + self.k0
        if self.form == "square":
            return self.k1 * b ** 2 + self.k0
        if self.regional:
            return self.k1 * b + m.ext_reg[r] + m.ext_data[t, r] + self.k0
        return self.k1 * b + p * m.dt + self.k0

    def skip_m(self, m, t, r):
        if self.skip is None:
            return False
        y = m.year(t)
        return {"after": y > self.year, "before": y < self.year, "one": y == self.year, "region": r == self.reg}[self.skip]

    def constraint(self, mc):
        v = lambda m, t, r: getattr(m, self.name)[t, r] if self.regional else getattr(m, self.name)[t]

        def rel(m, t, r):
            if not self.soft and self.skip_m(m, t, r):
                return mc.Constraint.Skip
            a, b = v(m, t, r), self.expr(m, t, r)
            op = self.op
            if self.flip:
                a, b, op = b, a, {"==": "==", "<=": ">=", ">=": "<="}[op]
            return a == b if op == "==" else a <= b if op == "<=" else a >= b
        kw = {"name": self.name + "_rule"} if self.named else {}
        if self.soft:
            eps = {} if self.plain_eps else {"absolute_epsilon": self.eps} if self.kind.endswith("a") else {"epsilon": self.eps}
            if self.regional:
                ig = {} if self.skip is None else {"ignore_if": lambda m, t, r: self.skip_m(m, t, r)}
                return mc.RegionalSoftEqualityConstraint(lambda m, t, r: v(m, t, r), lambda m, t, r: self.expr(m, t, r), **kw, **eps, **ig)
            ig = {} if self.skip is None else {"ignore_if": lambda m, t: self.skip_m(m, t, None)}
            return mc.GlobalSoftEqualityConstraint(lambda m, t: v(m, t, None), lambda m, t: self.expr(m, t, None), **kw, **eps, **ig)
        if self.kind == "G":
            return mc.GlobalConstraint(lambda m, t: rel(m, t, None), **kw)
        if self.kind == "R":
            return mc.RegionalConstraint(lambda m, t, r: rel(m, t, r), **kw)
        if self.kind == "GI":
            return mc.GlobalInitConstraint(lambda m: rel(m, self.at, None), **kw)
        return mc.RegionalInitConstraint(lambda m, r: rel(m, self.at, r), **kw)

    # ---- what that means
    def value(self, c, X, n):
        """expression at trajectory n, (T,) or (T,R)"""
        b = X[self.base][n]
        p = self.params["scalar"][self.par]
        if self.form == "lin":
            return self.k1 * b + self.k0
        if self.form == "par":
            return self.k1 * b + p + self.k0
        if self.form == "square":
            return self.k1 * b ** 2 + self.k0
        if self.regional:
            return self.k1 * b + self.params["reg"] + self.params["data"] + self.k0
        return self.k1 * b + p * c.dt + self.k0

    def tol(self, v):
        return self.eps if self.kind.endswith("a") else self.eps * np.abs(v)

    def ok(self, c, v, x, t, q):
        """does x respect the rule at this place?"""
        if (self.init and t != self.at) or self.skipped(c, t, q):
            return True
        if self.soft:
            return abs(x - v) <= self.tol(v)
        return {"==": x == v, "<=": x <= v, ">=": x >= v}[self.op]

    def tries(self, rng, v):
        """values around the rule"""
        d = float(10 ** rng.uniform(-3, 0)) * max(abs(v), .01)
        if self.soft:
            w = self.tol(v)
            out = max(1.1 * w, w + 1e-3 * abs(v))      # beyond what the judgement can tell apart
            return [v + .9 * w, v - .9 * w, v + out, v - out]
        return [v + d, v - d]


def c32(res, seed, i, tier):
    rng = rng_for("C32", seed, i)
    mi = W.mimosa()
    import mimosa.common as mc
    import mimosa.components as comp
    u = C.gen_user(rng, i, maxT=8, nreg=int(pick(rng, [1, 2, 3])))
    d = scratch()
    regs = list(u["regions"])
    # a table of the user's own, registered as documented
    f = os.path.join(d, "newfile.csv")
    cols = {k: {r: float(np.round(rng.uniform(.1, 2), 4)) for r in C.ALLR} for k in ("newparam1", "newparam2")}
    with open(f, "w", newline="") as fh:
        w = csv.writer(fh)
        w.writerow(["region"] + list(cols))
        for r in C.ALLR:
            w.writerow([r] + [cols[k][r] for k in cols])
    files = copy.deepcopy(R.SPEC_BY["regional_parameter_files"]["default"])
    files["newparamgroup"] = {"filename": f, "regionstype": "IMAGE26"}
    u = C.setu(u, ("regional_parameter_files", files))
    col = pick(rng, list(cols))
    dyn = bool(rng.random() < .4)
    regv = {r: cols[col][r] for r in regs}
    if rng.random() < .3:
        r = pick(rng, regs)
        u["regions"][r] = {**(u["regions"][r] or {}), "newparamgroup": {col: 1.2345}}
        regv[r] = 1.2345
    source = pick(rng, ["population", "GDP", "emissions"])
    try:
        c = M.Cfg(u)
    except Exception:
        # the user's table is unknown to the reference: give it the documented ones
        v = copy.deepcopy(u)
        v["regional_parameter_files"].pop("newparamgroup")
        c = M.Cfg(v)
    sc = {k: float(getattr(c, a)) for k, (doc, a) in SCALARS.items()}
    params = dict(scalar=sc, reg=np.array([regv[r] for r in c.regions])[None, :], data={"population": c.POP, "GDP": c.GDP0, "emissions": c.BL0}[source])
    extras = [Extra(rng, k, c, params) for k in range(int(rng.integers(3, 9)))]
    host = getattr(comp, pick(rng, HOSTS))
    orig = host.get_constraints
    used = [0]

    def get_constraints(m, *a, **k):
        out = list(orig(m, *a, **k))
        used[0] += 1
        for s, (doc, _) in SCALARS.items():
            setattr(m, "ext_p_" + s, mc.Param(doc=(lambda doc: lambda params: "::" + doc)(doc) if dyn and s in ("gam", "rate") else "::" + doc))
        m.ext_reg = mc.Param(m.regions, doc=(lambda params: f"regional::newparamgroup.{col}" if params["SSP"] == u["SSP"] else "regional::newparamgroup.other") if dyn else f"regional::newparamgroup.{col}")
        m.ext_data = mc.Param(m.t, m.regions, doc=f"timeandregional::{source}")
        for x in extras:
            x.declare(m, mc)
        return out + [x.constraint(mc) for x in extras]
    off = None
    named = [x for x in extras if x.named]
    if named and rng.random() < .25:
        off = pick(rng, named)
        names = [off.name + "_rule" + s for s in (["_upperbound", "_lowerbound"] if off.soft else [""])]
        u = C.setu(u, ("simulation - simulationmode", True), ("simulation - deactivated_constraints", names))
    host.get_constraints = get_constraints
    try:
        I = E.Instance(u, cfg=c)
    finally:
        host.get_constraints = orig
    if not used[0]:
        res.events["component not reached"] += 1
        return
    if I.dead:
        res.fail(f"a model with an added component: {I.dead}", user=u, extras=[vars(x) for x in extras])
        return
    RE = C.ramps(c, rng, 16)
    X = M.simulate(c, RE, policy=C.random_policy(c, rng))
    ok = C.good(c, X)
    if not ok:
        res.events["no compliant trajectory"] += 1
        return
    n0 = ok[0]
    rows = []          # (extra, t, q, value, expected verdict)
    vals = {}
    for x in extras:
        vals[x.name] = x.value(c, X, n0)
    for x in extras:
        places = [(t, q) for t in range(c.T) for q in (range(c.R) if x.regional else [None])]
        if len(places) > 14:
            places = [places[j] for j in sorted(rng.choice(len(places), 14, replace=False))]
        for t, q in places:
            v = float(vals[x.name][t] if q is None else vals[x.name][t, q])
            for val in x.tries(rng, v):
                rows.append((x, t, q, val, x is off or x.ok(c, v, val, t, q)))
    N = len(rows) + 1
    Y = {k: np.repeat(v[n0:n0 + 1], N, axis=0) for k, v in X.items()}
    for x in extras:
        Y[x.name] = np.repeat(np.asarray(vals[x.name], float)[None], N, axis=0)
    for n, (x, t, q, val, _) in enumerate(rows):
        if q is None:
            Y[x.name][n + 1, t] = val
        else:
            Y[x.name][n + 1, t, q] = val
    acc, worst, _ = I.evaluate(Y)
    res.evals += N
    if not acc[0]:
        bad, bb = I.badrows[0]
        res.fail(f"a trajectory that respects every rule of the model and of the added component is refused by {[I.nl.rows[j] for j in bad][:3]} {[I.nl.cols[j] for j in bb][:3]}",
                 user=u, extras=[{k: v for k, v in vars(x).items() if k != "params"} for x in extras])
        return
    for n, (x, t, q, val, want) in enumerate(rows):
        where = f"{c.years[t]:g}" + ("" if q is None else f", {c.regions[q]}")
        if bool(acc[n + 1]) != bool(want):
            res.fail(f"the added {type(x.constraint(mc)).__name__} (rule {x.op}, skip {x.skip}{' at ' + format(x.year, 'g') if x.skip else ''}, index {x.at}, eps {x.eps if x.soft else None}, "
                     f"{'deactivated' if x is off else 'active'}) {'refuses' if want else 'admits'} {val:.6g} at {where}; its expression is "
                     f"{float(vals[x.name][t] if q is None else vals[x.name][t, q]):.6g} there", user=u, form=x.form, par=x.par)
        else:
            res.saw(x.kind, x.op, x.skip, bool(want), x.form, t)
            res.events["admitted" if want else "refused"] += 1
    # saved like every other variable
    P, _ = I.points(E.subset(Y, [0]))
    with contextlib.suppress(W.NoProblem):
        W.solve_with(I.model, np.where(np.isnan(P[:, 0]), .5, P[:, 0]), I.nl.m)
        with W.quiet():
            I.model.save("ext", folder=d)
        with open(d + "/ext.csv", newline="") as fh:
            tab = {(r[0], r[1]): r[2:] for r in csv.reader(fh)}
        for x in extras:
            for q, r in enumerate(c.regions if x.regional else ["Global"]):
                row = tab.get((x.name, r))
                if row is None:
                    res.fail(f"the added variable {x.name} has no row for {r} in the saved file", user=u)
                    continue
                for t in range(c.T):
                    idx = (t, r) if x.regional else (t,)
                    if (x.name, idx) not in I.cols:
                        continue
                    v = float(vals[x.name][t, q] if x.regional else vals[x.name][t])
                    res.events["saved values compared"] += 1
                    if not six(row[1 + t], v):
                        res.fail(f"the added variable {x.name} is saved as {row[1 + t]} for {r} in {c.years[t]:g}, the solution has {v!r}", user=u)
                        break
    res.events["models extended"] += 1
    if i == 0:
        known_c32(res, comp, mc)
    if res.sample is None:
        res.sample = dict(config=u, extras=[(x.name, x.kind, x.op, x.skip) for x in extras], tried=N)


def known_c32(res, comp, mc):
    """recorded finding: variables over regions only, or without index, cannot be saved"""
    host = comp.sealevelrise
    orig = host.get_constraints

    def get_constraints(m, *a, **k):
        out = list(orig(m, *a, **k))
        m.ext_only_region = mc.Var(m.regions, initialize=1.0)
        m.ext_single = mc.Var(initialize=1.0)
        return out
    host.get_constraints = get_constraints
    try:
        m = W.build({"regions": {"USA": {}, "CHN": {}}, "time": {"start": 2020, "end": 2050, "dt": 10.0}})
    finally:
        host.get_constraints = orig
    try:
        with W.quiet():
            m.save("k", folder=scratch())
    except (AttributeError, KeyError):
        res.known.append("a model with an added variable over regions only, or without any index (docs/extending/variables_constraints.md allows both), cannot be saved")


# --------------------------------------------------------------------------- C33
class Catch(logging.Handler):
    def __init__(self):
        super().__init__(level=0)
        self.got = []

    def emit(self, rec):
        self.got.append((rec.levelno, rec.getMessage()))


NUM = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")


def says(msgs, x, rel=1e-6):
    """is the number x told in one of the messages?"""
    for _, t in msgs:
        for s in NUM.findall(t):
            if abs(float(s) - x) <= rel * abs(x) + 1e-12:
                return True
    return False


def c33(res, seed, i, tier):
    from .run_checks import bad_answers
    rng = rng_for("C33", seed, i)
    u = small(rng, i, relaxed=True)
    I, X, ok = solvable(u, rng)
    if I.dead:
        res.fail(f"legal configuration: {I.dead}", user=u)
        return
    if not ok:
        return
    d = W.stub_dir()
    P, _ = I.points(E.subset(X, ok[:6]))
    P = np.where(np.isfinite(P), P, .5)
    m = I.model if rng.random() < .5 else W.build(copy.deepcopy(u))
    answers = bad_answers()
    npv = [I.get(X, "NPV", (I.c.T - 1,))[n] for n in ok[:6]]
    hand = Catch()
    log = logging.getLogger("MIMOSA")
    level = log.level
    logging.disable(logging.NOTSET)
    log.addHandler(hand)
    log.setLevel(logging.DEBUG)
    said = 'echo "SOLVER OUTPUT 4711"\n'
    try:
        for q in range(int(rng.integers(3, 6))):
            good = bool(rng.random() < .6)
            n = int(rng.integers(P.shape[1]))
            loud = bool(rng.random() < .5)
            name = "good"
            if good:
                W.write_sol(d + "/answer.sol", P[:, n], I.nl.m)
                W.behave(said + W.ANSWER)
            else:
                name = pick(rng, sorted(answers))
                a = answers[name]
                W.write_sol(d + "/answer.sol", P[:, n], I.nl.m, *(a[1:] if isinstance(a, tuple) else ()))
                W.behave(said + ('cp "$D/answer.sol" "$base.sol"\nexit 0\n' if isinstance(a, tuple) else a))
            hand.got.clear()
            so, se = sys.stdout, sys.stderr
            sys.stdout = sys.stderr = out = io.StringIO()
            err = None
            try:
                m.solve(**({} if loud and q % 2 else {"verbose": loud}))      # the default is to print
            except Exception as e:
                err = e
            finally:
                sys.stdout, sys.stderr = so, se
            got = list(hand.got)
            res.evals += 1
            res.events["solves"] += 1
            res.events["log records"] += len(got)
            res.saw(name, loud, q)
            if good:
                if err is not None:
                    res.fail(f"a successful solve raises {type(err).__name__}: {str(err)[:200]}", user=u)
                    continue
                if not says(got, npv[n]):
                    res.fail(f"the log of a successful solve does not tell the final net present value {npv[n]:.8g}: {got}", user=u)
                if not any(re.search(r"\bok\b", t) for _, t in got):
                    res.fail(f"the log of a successful solve does not tell its status: {got}", user=u)
                if not any(re.search(r"\d\S* *s(ec|\b)", t) for _, t in got):
                    res.fail(f"the log of a successful solve does not tell the time it took: {got}", user=u)
                if any(l >= logging.ERROR for l, _ in got):
                    res.fail(f"a successful solve is logged as an error: {got}", user=u)
            else:
                if err is None:
                    res.fail(f"the solver's answer is '{name}' and no error is raised", user=u)
                if any(re.search(r"\bok\b", t) and "not" not in t for _, t in got):
                    res.fail(f"the solver's answer is '{name}' and the log says it is ok: {got}", user=u)
                if any(re.search(r"NPV|net present", t, re.I) for _, t in got):
                    res.fail(f"the solver's answer is '{name}' and the log tells a final value: {got}", user=u)
                if isinstance(answers[name], tuple) and 100 <= answers[name][1] < 500:
                    want = {1: "optimal", 2: "infeasible", 3: "unbounded", 4: "maxIterations"}[answers[name][1] // 100]
                    if not any(l >= logging.WARNING and re.search(want, t, re.I) for l, t in got):
                        res.fail(f"the solver's answer is '{name}' and the log has no warning or error that tells '{want}': {got}", user=u)
            if ("4711" in out.getvalue()) != loud and name in ("good",):
                res.fail(f"the solver's own output is {'not ' if loud else ''}printed with verbose={loud}", user=u)
    finally:
        log.removeHandler(hand)
        log.setLevel(level)
        logging.disable(logging.CRITICAL)
    res.events["histories"] += 1
    if res.sample is None:
        res.sample = dict(config=u, last=got)


# --------------------------------------------------------------------------- C34
CHILD = r'''
import sys, os, json, pickle
sys.dont_write_bytecode = True
here, root, what = sys.argv[1:4]
cwd = os.getcwd()
sys.path.insert(0, root)
from mon import world as W
W.setup()
os.chdir(cwd)
job = pickle.load(open(what, "rb"))
W.mimosa()
os.chdir(cwd)
try:
    m = W.build(job["user"])
    nl = W.capture_text(m)
    if job["x"] is not None:
        x = [job["x"].get(k, .5) for k in nl.cols]
        W.solve_with(m, x, nl.m)
    with W.quiet():
        m.save("run", hash_suffix=True, folder=job["folder"])
    out = ("ok", dict(text=open(W.stub_dir() + "/p.nl").read(), cols=nl.cols, rows=nl.rows, x0=nl.x0.tolist(), params=m.params))
except Exception as e:
    import traceback
    out = ("err", traceback.format_exc())
from mon import input_checks as IC
verdicts = []
for d in job["dicts"]:
    try:
        with W.quiet():
            verdicts.append(("accepted", repr(IC.config().check_params(d))))
    except Exception as e:
        verdicts.append(("refused", type(e).__name__))
for d in job["builds"]:
    try:
        W.build(d)
        verdicts.append(("accepted", ""))
    except Exception as e:
        verdicts.append(("refused", type(e).__name__))
pickle.dump(out + (verdicts,), open(what + ".out", "wb"))
W.cleanup()
'''


def wrong(rng):
    """dictionaries to validate (most of them illegal) and configurations that cannot be built"""
    from .input_checks import good_value, bad_value, unknown_key, R_set, SMALL
    dicts = []
    for _ in range(30):
        s = pick(rng, R.SPEC)
        try:
            v = (good_value(rng, s)[0] if rng.random() < .25 else bad_value(rng, s))
        except Exception:
            continue
        d = v
        for k in reversed(s["path"]):
            d = {k: d}
        dicts.append(d)
    dicts += [{"emisions": {}}, {"time": {"strt": 2020}}, {"economics": {"MAC": 5}}, {"regions": {"CAN": {"MAC": {"nokey": 1}}}}]
    S = lambda *p: C.setu(copy.deepcopy(SMALL), *p)
    builds = [{**copy.deepcopy(SMALL), "regions": {"NOWHERE": {}}}, S(("SSP", "SSP9")), S(("input - variables - GDP - scenario", "none such")),
              S(("input - variables - population - variable", "none such")), S(("input - variables - emissions - unit", "GtCO2")),
              S(("simulation - simulationmode", True), ("simulation - deactivated_constraints", ["nope"])),
              S(("simulation - simulationmode", True), ("simulation - constraint_variables", {"nope": {2020: {"Global": 1.0}}})),
              {**copy.deepcopy(SMALL), "regions": {"CAN": {"MAC": {"nokey": 1.0}}}}, S(("input - variables - GDP - file", "inputdata/data/none.csv"))]
    k = rng.choice(len(builds), 4, replace=False)
    return dicts, [builds[j] for j in k]


def decoys(rng, d):
    """files of the names the model reads, with other contents, where the run is started"""
    for sub in ("inputdata/data", "inputdata/regionalparams", "inputdata/regions", "inputdata/config", "mimosa/inputdata/data", "mimosa/inputdata/config"):
        os.makedirs(os.path.join(d, sub), exist_ok=True)
    for f in ("data_IMAGE_SSP.csv", "data_IMAGE_SSP_harmonised_2020.csv"):
        src = os.path.join(R.REF, f)
        if not os.path.exists(src):
            continue
        with open(src, newline="") as fh:
            rows = list(csv.reader(fh))
        for sub in ("inputdata/data", "mimosa/inputdata/data"):
            with open(os.path.join(d, sub, f), "w", newline="") as fh:
                w = csv.writer(fh)
                w.writerow(rows[0])
                for r in rows[1:]:
                    w.writerow(r[:5] + [repr(float(x) * 1.5) if x else x for x in r[5:]])
    for f in ("economics.csv", "mac.csv", "mortality.csv", "COACCH.csv"):
        src = os.path.join(R.REF, f)
        if os.path.exists(src):
            with open(src, newline="") as fh:
                rows = list(csv.reader(fh))
            j0 = rows[0].index("region") if "region" in rows[0] else 0
            with open(os.path.join(d, "inputdata/regionalparams", f), "w", newline="") as fh:
                w = csv.writer(fh)
                w.writerow(rows[0])
                for r in rows[1:]:
                    o = []
                    for j, x in enumerate(r):
                        try:
                            o.append(repr(float(x) * 1.5) if j != j0 else x)
                        except ValueError:
                            o.append(x)
                    w.writerow(o)
    for sub in ("inputdata/config", "mimosa/inputdata/config", "."):
        with open(os.path.join(d, sub, "config_default.yaml"), "w") as fh:
            fh.write("SSP:\n  descr: x\n  type: str\n  default: SSP1\n")
        with open(os.path.join(d, sub, "default_units.yaml"), "w") as fh:
            fh.write("currency_unit: million USD2005/yr\n")


ENVS = [{"PYTHONHASHSEED": "1"}, {"PYTHONHASHSEED": "77", "TZ": "Pacific/Auckland"}, {"PYTHONHASHSEED": "0", "LC_ALL": "C", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"},
        {"PYTHONHASHSEED": "4242", "LC_ALL": "C.UTF-8", "COLUMNS": "20"}, {"PYTHONHASHSEED": "5", "PYTHONOPTIMIZE": "1"}, {"PYTHONHASHSEED": "99", "HOME": "/nonexistent", "USER": "nobody"}]


def c34(res, seed, i, tier):
    rng = rng_for("C34", seed, i)
    u = small(rng, i, relaxed=rng.random() < .7)
    if rng.random() < .4:
        # an imposed path from a file given relative to where the run is started
        rel = pick(rng, ["old/run.csv", "run.csv", "./old/../run.csv"])
    else:
        rel = None
    c = M.Cfg(u)
    base = scratch()
    if rel and c.T >= 4:
        u = C.setu(u, ("simulation - simulationmode", True), ("simulation - constraint_variables", {"relative_abatement": rel}))
    outs = []
    dicts, builds = wrong(rng)
    env0 = {k: v for k, v in os.environ.items() if k not in ("PYTHONHASHSEED", "MON_STUB_DIR")}
    xs = None
    runs = [0] + [int(k) for k in rng.choice(len(ENVS) - 1, 1, replace=False) + 1]
    for q, k in enumerate(runs):
        d = os.path.join(base, f"w{q}", pick(rng, ["plain", "with space", "ünder", "a/b/c"]) if q else "plain")
        os.makedirs(d + "/old")
        if q:
            decoys(rng, d)
        for f in ("old/run.csv", "run.csv"):
            with open(os.path.join(d, f), "w", newline="") as fh:
                w = csv.writer(fh)
                w.writerow(["Variable", "Region", "Unit"] + [f"{y:g}" for y in c.years])
                for r in c.regions:
                    w.writerow(["relative_abatement", r, ""] + [.2 if f == "run.csv" else .3] * c.T)
        folder = pick(rng, ["output", "out/deep", "."])
        job = os.path.join(base, f"job{q}")
        with open(job, "wb") as fh:
            pickle.dump(dict(user=u, x=xs, folder=folder, dicts=dicts, builds=builds), fh)
        src = os.path.join(base, "child.py")
        with open(src, "w") as fh:
            fh.write(CHILD)
        env = {**env0, **ENVS[k], "MON_REPO": W.REPO}
        p = subprocess.run([sys.executable, src, base, W.HERE.rsplit("/", 1)[0], job], cwd=d, env=env, capture_output=True, text=True)
        if not os.path.exists(job + ".out"):
            raise RuntimeError("the child process gave no answer: " + p.stderr[-1000:])
        with open(job + ".out", "rb") as fh:
            how, val, verdicts = pickle.load(fh)
        files = {}
        for dp, dn, fn in os.walk(d):
            for f in fn:
                if f.startswith("run_"):
                    files[os.path.relpath(os.path.join(dp, f), os.path.join(d, folder))] = open(os.path.join(dp, f)).read()
        outs.append((how, val, files, ENVS[k], folder, verdicts))
        res.events["processes run"] += 1
        if q == 0 and how == "ok":
            X = None
            I, X, ok = solvable(u, rng, n=8)
            if not I.dead and X is not None:
                P, _ = I.points(E.subset(X, [ok[0] if ok else 0]))
                # by name, because the order of the columns is the solver interface's own business
                xs = {n: float(v) if np.isfinite(v) else .5 for n, v in zip(I.nl.cols, P[:, 0]) if not n.startswith("_")}
    a = outs[0]
    for b in outs[1:]:
        res.evals += 1
        res.saw(tuple(sorted(b[3].items())), b[4], bool(rel))
        for d, x, y in zip(dicts + builds, a[5], b[5]):
            res.events["dictionaries refused everywhere" if x == y and x[0] == "refused" else "dictionaries accepted everywhere"] += x == y
            if x[0] != y[0] or (x[0] == "accepted" and x[1] != y[1]):
                res.fail(f"{str(d)[:200]} is {x[0]} as {x[1][:80]} in one environment and {y[0]} as {y[1][:80]} in another ({b[3]})", given=repr(d)[:500])
        if a[0] != b[0]:
            bad = a if a[0] == "err" else b
            res.fail(f"the same parameters can be used in one environment and not in another ({bad[3]}, output folder {bad[4]}): {bad[1][-300:]}", user=u)
            continue
        if a[0] == "err":
            res.events["configurations refused everywhere"] += 1
            continue
        x, y = (W.NL(o[1]["text"], o[1]["cols"], o[1]["rows"]) for o in (a, b))
        diff = nl_diff(x, y)
        if diff:
            res.fail(f"the same parameters state another problem in another environment ({b[3]}) in {diff}", user=u)
            continue
        if sorted(a[2]) != sorted(b[2]) or not a[2]:
            res.fail(f"the same parameters give the files {sorted(b[2])} in another environment ({b[3]}), {sorted(a[2])} before", user=u)
            continue
        for f in a[2]:
            if f.endswith(".json") and json.loads(a[2][f]) != json.loads(b[2][f]):
                res.fail(f"the parameter file {f} differs in another environment ({b[3]})", user=u)
        res.events["files compared"] += len(a[2])
        t = [[l.split(",")[:3] for l in o[2][next(f for f in o[2] if f.endswith(".csv"))].splitlines()] for o in (a, b)]
        if sorted(t[0]) != sorted(t[1]):
            res.fail(f"the rows of the saved table differ in another environment ({b[3]})", user=u)
    if res.sample is None:
        res.sample = dict(config=u, environments=[o[3] for o in outs], files=sorted(a[2]))


# --------------------------------------------------------------------------- C35
def dual(nl, x):
    """values and one random directional derivative of every row and of the objective at x, by
    central differences over very small steps inside the bounds"""
    rng = np.random.default_rng(5)
    d = rng.uniform(.5, 1, nl.n) * np.where(rng.random(nl.n) < .5, -1, 1)
    h = 1e-7 * np.maximum(1, np.abs(x))
    P = np.stack([x, x + h * d, x - h * d], axis=1)
    b, _ = nl.body(P)
    return b, nl.objective(P)


def inside(nl, x):
    """what an interior point method does with a start value: move it inside its bounds"""
    lo, hi = nl.xl, nl.xu
    with np.errstate(invalid="ignore"):
        w = np.where(np.isfinite(lo) & np.isfinite(hi), hi - lo, np.inf)
        pl = np.minimum(1e-2 * np.maximum(1, np.abs(lo)), 1e-2 * w)
        pu = np.minimum(1e-2 * np.maximum(1, np.abs(hi)), 1e-2 * w)
        y = np.where(np.isfinite(lo), np.maximum(x, lo + pl), x)
        y = np.where(np.isfinite(hi), np.minimum(y, hi - pu), y)
    return y


def c35(res, seed, i, tier):
    rng = rng_for("C35", seed, i)
    u = C.gen_user(rng, i, relaxed=rng.random() < .5, maxT=20)
    try:
        m = W.build(u)
        nl = W.capture_text(m)
    except W.NoProblem as e:
        res.events["nothing stated"] += 1
        return
    x = inside(nl, nl.x0)
    b, o = dual(nl, x)
    res.evals += nl.m + 1
    res.events["rows evaluated at a start point"] += nl.m
    bad = np.where(~np.isfinite(b).all(axis=1))[0]
    if len(bad):
        res.fail(f"the stated {nl.rows[bad[0]]} cannot be evaluated at the start point handed to the solver ({len(bad)} such rows)", user=u)
        return
    if not np.isfinite(o).all():
        res.fail("the objective cannot be evaluated at the start point handed to the solver", user=u)
        return
    res.saw(u.get("model", {}).get("damage module"), u.get("model", {}).get("emissiontrade module"), u.get("model", {}).get("welfare module"), u.get("model", {}).get("objective module"), len(u["regions"]))
    if res.sample is None:
        res.sample = dict(config=u, rows=nl.m, columns=nl.n)
