"""Checks decided by comparing the problem handed to the solver with the documented relations."""
import zlib
import numpy as np
from . import world as W, refmodel as M, engine as E, cases as C, attr


def rng_for(prop, seed, i):
    return np.random.default_rng([zlib.crc32(prop.encode()), seed, i])


def observe(res, run, props, extra=None, claim_all=False):
    X, metas = run.data()
    I = E.Instance(run.user, cfg=run.c)
    mm, st, pl = I.compare(X, metas, extra)
    res.evals += len(metas)
    res.events.update(st)
    res.events["problems built"] += 1
    if I.nl is not None:
        res.events["problem rows judged"] += int(I.nl.m) * len(metas)
    for p in pl:
        res.places.add(p if p[0] != "admit" else p + (tuple(run.c.regions), run.c.T, run.c.dt))
    for m in mm:
        if claim_all or m["prop"] in props or m["prop"] == "*":
            res.fail(m["what"] + f"  (tag {m['meta'].get('tag', m['meta']['kind'])})", user=run.user, meta=m["meta"], row=m.get("row"))
        else:
            res.events["differences belonging to another property"] += 1
    if res.sample is None:
        res.sample = dict(config=run.user, trajectories=len(metas), observed=dict(st), first_meta=metas[-1])
    return I, X, metas


def full(rng):
    """all 26 regions, default modules or random ones, short horizon"""
    u = C.gen_user(rng, 0, plain=.4)
    u["regions"] = {r: {} for r in C.ALLR}
    u["time"] = {"start": 2020, "end": int(rng.choice([2080, 2105])), "dt": float(rng.choice([15, 20]))}
    return u


def fine(rng):
    """one region, hundreds of model years"""
    u = C.gen_user(rng, 1, plain=.3, nreg=1)
    dt = float(rng.choice([.5, .6, .75]))
    u["time"] = {"start": 2010, "end": int(2010 + dt * rng.integers(310, 380)), "dt": dt}
    return u


LIMITS = {"C13": C.lim_C13, "C14": C.lim_C14, "C17": C.lim_C17, "C19": C.lim_C19, "C20": C.lim_C20, "C22": C.lim_C22,
          "C23": C.lim_C23, "C21": C.lim_C21}
SHARE = {"C13": .25, "C14": .2, "C17": .5, "C19": .85, "C20": .85, "C22": .6, "C23": .9, "C21": .8}


def general_user(prop, rng, i):
    """configurations in which the property has something to say"""
    kw = {}
    u = C.gen_user(rng, i, relaxed=rng.random() < .8, **kw)
    if i % 11 == 6:
        u["time"] = C.short_steps(i)
    if prop in ("C14", "C15") and rng.random() < .85:
        u = C.setu(u, ("model - damage module", "COACCH"))
    if prop == "C22" and rng.random() < .85:
        u = C.setu(u, ("model - financialtransfer module", "globaldamagepool"))
    if prop == "C16" and rng.random() < .6:
        u = C.setu(u, ("model - damage module", "COACCH"), ("economics - damages - ignore damages", False))
    if prop == "C16" and rng.random() < .15:
        u = C.setu(u, ("economics - damages - ignore damages", True), ("model - damage module", "COACCH"), ("model - financialtransfer module", "globaldamagepool"))
    if prop == "C13" and rng.random() < .25:
        # far and hot: the ice sheets do not stop growing thin
        u = C.setu(u, ("temperature - TCRE", str(rng.choice(["2.4 delta_degC/TtCO2", "4 delta_degC/TtCO2"]))), ("time - end", 2300), ("time - dt", float(rng.choice([10, 20]))),
                   ("economics - damages - ignore damages", True), ("model - financialtransfer module", "notransfer"))
    if prop in ("C18",) and rng.random() < .7:
        u = C.setu(u, ("economics - MAC - LOT_rate", float(rng.choice([.01, .03, .1]))), ("economics - MAC - LBD_rate", float(rng.choice([.7, .82, .95]))))
    return u


def engine_case(prop):
    def fn(res, seed, i, tier):
        rng = rng_for(prop, seed, i)
        if i == 0:
            run = C.general(rng, i, {prop}, npop=40, limit=500, user=full(rng))
        elif i == 1:
            run = C.general(rng, i, {prop}, npop=12, limit=60, user=fine(rng))
        elif prop in LIMITS and rng.random() < SHARE[prop]:
            run = LIMITS[prop](rng, i)
        else:
            run = C.general(rng, i, {prop}, user=general_user(prop, rng, i))
        I, X, metas = observe(res, run, {prop})
        if prop == "C19" and i == 0:
            known_c19(res)
        if prop == "C25" and I.nl is not None:
            objective(res, I, X)
        zeros(res, prop, I)
    fn.__name__ = "engine_" + prop
    return fn


# what is documented to be zero when a module is not chosen, and may be a constant of the model
ZERO = {"C21": ("trade", "notrade", ["import_export_mitigation_cost_balance", "import_export_emission_reduction_balance"]),
        "C22": ("transfer", "notransfer", ["financial_transfer", "rel_financial_transfer"]),
        "C14": ("damage_module", "nodamage", ["damage_costs"])}


def zeros(res, prop, I):
    if prop not in ZERO or getattr(I, "model", None) is None:
        return
    attr_, module, names = ZERO[prop]
    c, m = I.c, getattr(I.model, "concrete_model", None)
    if m is None or getattr(c, attr_) != module:
        return
    from pyomo.environ import Param, Expression, value
    for n in names:
        x = m.component(n)
        if x is None or x.ctype not in (Param, Expression):
            continue
        for k in x:
            res.evals += 1
            got = float(value(x[k]))
            if not abs(got) <= 1e-12:
                res.fail(f"{n}[{k}] is {got:g} with the module {module}", user=I.user)
                return
        res.saw("zero", n)


def objective(res, I, X):
    """ordering of trajectories by the solver's objective = by the documented one"""
    c = I.c
    P, _ = I.points(X)
    ok = X["_ok"] & np.isfinite(P).all(axis=0)
    obj = I.nl.objective(P)[ok]
    ref = X["NPV"][ok, -1]
    if I.nl.nobj != 1 or I.nl.obj_sense is None:
        res.fail("the problem handed to the solver has no single objective", user=I.user)
        return
    want = "max" if c.objective == "utility" else "min"
    if I.nl.obj_sense != want:
        obj, sense = -obj, want
    res.events["objective values compared"] += int(ok.sum())
    if ok.sum() < 3 or np.ptp(ref) <= 1e-9 * np.abs(ref).max():
        return
    # positive affine function of the documented objective
    A = np.vstack([ref, np.ones_like(ref)]).T
    (k, b), *_ = np.linalg.lstsq(A, obj, rcond=None)
    err = np.abs(A @ [k, b] - obj).max()
    if not (k > 0 and err <= 1e-6 * np.ptp(obj)):
        res.fail(f"the solver's objective does not order trajectories as the documented objective does (slope {k:.4g}, misfit {err:.3g})", user=I.user)
    res.saw("objective", c.objective, c.welfare, c.T)


def known_c19(res):
    """recorded finding: a carbon budget together with partly reversible damages"""
    base = {"regions": {"USA": {}, "CHN": {}}, "time": {"start": 2020, "end": 2110, "dt": 10.0}, "emissions": {"carbonbudget": "900 GtCO2"}}
    try:
        W.build(C.setu(base, ("economics - damages - percentage reversible", .5)))
    except AttributeError as e:
        if "overshoot" in str(e):
            res.known.append("a carbon budget with 'percentage reversible' below 1 cannot be built (no attribute 'overshoot', carbon_budget constraint in components/emissions.py)")
        else:
            raise
