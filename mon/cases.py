"""Workloads for the engine: random configurations, trajectories that follow every
documented relation, trajectories that break exactly one of them."""
import copy
import numpy as np
from . import refdata as R, refmodel as M, attr

ALLR = list(R.REGIONS)
BIG = ["USA", "CHN", "INDIA", "WEU"]
KAPPAS = R.SPEC_BY["economics - MAC - regional calibration factor"]["values"]
QUANT = R.SPEC_BY["economics - damages - quantile"]["values"]


def pick(rng, xs, p=None):
    return xs[int(rng.choice(len(xs), p=p))]


def merge(a, b):
    out = copy.deepcopy(a)
    for ks, v in R.flat(b):
        R.setp(out, list(ks), copy.deepcopy(v))
    return out


# ------------------------------------------------------------------ time grids
def time_grid(rng, late=None, maxT=30):
    if maxT == 30 and rng.random() < .04:
        maxT = 100                      # fine steps, or far
    if late is True and rng.random() < .35:
        # a model year shortly before or after 2100
        start, k, f = int(pick(rng, [2020, 2050, 2090, 2095, 2097])), int(rng.integers(2, 9)), float(pick(rng, [.5, .25, .75, .1, -.1, -.5]))
        k = min(max(k, int((2102 - start) / 20) + 1), int((2099 - start) / .5))
        dt = (2100 + f - start) / k
        return {"start": start, "end": int(np.floor(start + (k + 3) * dt)), "dt": dt}
    for _ in range(1000):
        start = int(pick(rng, [2020, 2020, 2020, 2010, 2015, 2025, 2030, 2012, 2050, 2095, 2100, int(rng.integers(2010, 2060))]))
        dt = float(pick(rng, [5, 5, 5, 10, 2.5, 4, 7, 7.5, 12.5, 20, 0.5, 1, 2, 3.25, 6.5, 15]))
        end = int(pick(rng, [2150, 2150, 2100, 2110, 2080, 2125, 2200, 2300, 2101, 2099, int(rng.integers(start + 2, 2300)), start + int(rng.integers(2, 30))]))
        if end < start + 2 * dt:
            continue
        T = int(np.ceil((end - start) / dt - 1e-9)) + 1
        if not 3 <= T <= maxT:
            continue
        if late is True and start + (T - 3) * dt < 2100:
            continue
        return {"start": start, "end": end, "dt": dt}
    return {"start": 2020, "end": 2150, "dt": 5.0}


def short_steps(i):
    """model years less than a year apart"""
    dt = (.5, .75, .6, .5, .8, .9)[i // 3 % 6]
    start = (2020, 2030, 2097, 2012)[i // 2 % 4]
    return {"start": start, "end": start + (3, 5, 8, 12)[i % 4], "dt": dt}


def regions_for(rng, n, i=None):
    """n regions; case index i deals all 26 in turn"""
    if i is None:
        rs = list(rng.choice(ALLR, n, replace=False))
    else:
        first = ALLR[i % 26]
        rest = [r for r in ALLR if r != first]
        rs = [first] + list(rng.choice(rest, n - 1, replace=False))
    rng.shuffle(rs)
    return [str(r) for r in rs]


def overrides(rng, kappa):
    o = {}
    if rng.random() < .6:
        o["MAC"] = {kappa: float(np.round(rng.uniform(.3, 1.5), 4)) if rng.random() < .75 else 1}
    if rng.random() < .6:
        o["economics"] = {"init_capital_factor": float(np.round(rng.uniform(2, 4), 4)) if rng.random() < .7 else int(rng.integers(2, 5))}
    if rng.random() < .3:
        o["mortality"] = {f"{pick(rng, ['oldest', 'older', 'young'])}_{pick(rng, list('abc'))}": float(pick(rng, [0, np.round(rng.uniform(.001, .01), 5)]))}
    if rng.random() < .4:
        o["COACCH"] = {k: float(pick(rng, [0, np.round(rng.uniform(.05, .4), 4)]))
                       for k in rng.choice(["NoSLR_b1", "NoSLR_b2", "SLR-Ad_b1", "SLR-NoAd_b1", "combined_b2_Ad-q0.5", "combined_b1_NoAd-q0.5"], 2, replace=False)}
    if rng.random() < .3:
        # the factor of one quantile; those of the other quantiles stay
        for q in QUANT if rng.random() < .5 else QUANT[:2]:
            o.setdefault("COACCH", {})[f"{pick(rng, ['NoSLR', 'SLR-Ad', 'SLR-NoAd'])}_a (q={q})"] = float(np.round(rng.uniform(.5, 1.6), 4))
    if rng.random() < .3:
        sel = pick(rng, ["NoSLR", "SLR-Ad", "SLR-NoAd"])
        o.setdefault("COACCH", {}).update({f"{sel}_form": pick(rng, ["Robust-Linear", "Robust-Quadratic", "OLS-Quadratic"]),
                                           f"{sel}_b1": float(np.round(rng.uniform(.05, .4), 4)), f"{sel}_b2": float(np.round(rng.uniform(.05, .3), 4))})
    return o


RELAXED = {"emissions": {"inertia": {"regional": False, "global": False}, "regional min level": False,
                         "global min level": False, "non increasing emissions after 2100": False}}


def gen_user(rng, i=None, late=None, nreg=None, modules=None, maxT=30, plain=0.15, relaxed=True):
    """a random legal configuration (limits relaxed; the cases set those they want)"""
    n = nreg or int(pick(rng, [1, 2, 2, 3, 3, 4]))
    u = {}
    regs = regions_for(rng, n, i)
    u["SSP"] = pick(rng, ["SSP1", "SSP2", "SSP2", "SSP3", "SSP4", "SSP5"])
    u["time"] = time_grid(rng, late, maxT)
    e, mac, gdp, dam, em, temp, mod = {}, {}, {}, {}, {}, {}, {}
    if rng.random() > plain:
        e["PRTP"] = float(pick(rng, [.015, 0, .001, .03, .1, .2, round(rng.uniform(0, .2), 4)]))
        e["elasmu"] = float(pick(rng, [1.001, 1, .5, 1.45, 2, 3, .1, round(rng.uniform(.2, 4), 3)]))
        e["inequal_aversion"] = float(pick(rng, [.5, 0, 1.5, 2, .9]))
        gdp["alpha"] = float(pick(rng, [.3, .3, 0, .2, .5, .8]))
        gdp["depreciation of capital"] = float(pick(rng, [.05, 0, .1, .03, .3]))
        gdp["savings rate"] = float(pick(rng, [.21, .1, .3, .25]))
        mac["beta"] = float(pick(rng, [3, 3, 2, 1, 2.5, .5, 4]))
        mac["gamma"] = pick(rng, ["2601 USD2005/tCO2", "1500 USD2005/tCO2", "3000 USD2010/tCO2", "2.2 thousand USD2005/tCO2"])
        mac["LBD_rate"] = float(pick(rng, [.82, 1, .9, .7]))
        mac["LBD_scaling"] = pick(rng, ["40 GtCO2", "15 GtCO2", "100 GtCO2", "0.2 TtCO2"])
        mac["LOT_rate"] = float(pick(rng, [0, .01, .05, .2]))
        mac["regional calibration factor"] = pick(rng, KAPPAS)
        dam["scale factor"] = float(pick(rng, [1, 1, .5, 2, 0, 1.3]))
        dam["ignore damages"] = bool(rng.random() < .15)
        dam["quantile"] = pick(rng, QUANT)
        dam["coacch_slr_withadapt"] = bool(rng.random() < .6)
        dam["coacch_combined_slr_nonslr_damages"] = bool(rng.random() < .25)
        em["baseline carbon intensity"] = bool(rng.random() < .6)
        em["cumulative_emissions_trapz"] = bool(rng.random() < .6)
        temp["initial"] = pick(rng, ["1.16 delta_degC", "0.8 delta_degC", "1.3 kelvin", "0 delta_degC", "1.5 delta_degC", "1.9 delta_degC", "2.6 delta_degC"])
        temp["TCRE"] = pick(rng, ["0.62 delta_degC/(TtCO2)", "0.42 delta_degC/(TtCO2)", "0.00082 delta_degC/GtCO2", "2.4 delta_degC/TtCO2"])
        mod["damage module"] = pick(rng, ["COACCH", "COACCH", "COACCH", "nodamage"])
        mod["emissiontrade module"] = pick(rng, ["notrade", "notrade", "emissiontrade", "globalcostpool"])
        mod["financialtransfer module"] = pick(rng, ["notransfer", "notransfer", "globaldamagepool"])
        mod["welfare module"] = pick(rng, ["welfare_loss_minimising", "cost_minimising", "inequal_aversion_general"])
        mod["objective module"] = pick(rng, ["utility", "utility", "globalcosts"])
    kap = mac.get("regional calibration factor", "kappa_rel_abatement_0.75_2050")
    u["regions"] = {r: (overrides(rng, kap) if rng.random() < .2 else {}) for r in regs}
    if mod or modules:
        mod.update(modules or {})
    if mod.get("welfare module") == "inequal_aversion_general" and e.get("elasmu") == 1:
        e["elasmu"] = 1.2
    if rng.random() < .2:
        for v in ("GDP", "emissions", "population"):
            if rng.random() < .7:
                d = dict(R.SPEC_BY[f"input - variables - {v}"]["default"])
                d["file"] = "inputdata/data/data_IMAGE_SSP_harmonised_2020.csv"
                u.setdefault("input", {}).setdefault("variables", {})[v] = d
    if gdp:
        e["GDP"] = gdp
    if mac:
        e["MAC"] = mac
    if dam:
        e["damages"] = dam
    for k, v in (("economics", e), ("emissions", em), ("temperature", temp), ("model", mod)):
        if v:
            u[k] = v
    if relaxed:
        u = merge(u, RELAXED)
    return u


def setu(u, *pairs):
    u = copy.deepcopy(u)
    for path, v in pairs:
        R.setp(u, path, v)
    return u


# ---------------------------------------------------------------- trajectories
def ramps(c, rng, N, lo=.12, hi=1.0, flat_zero=False):
    """(N,T,R) emission paths with smoothly rising abatement"""
    T, n = c.T, c.R
    span = c.years[-1] - c.years[0]
    x = (c.years - c.years[0])[None, :, None]
    A = rng.uniform(lo, hi, (N, 1, 1)) * rng.uniform(.85, 1.0, (N, 1, n))
    L = rng.uniform(.3, 1.0, (N, 1, 1)) * min(span, 120.0)
    p = rng.uniform(.6, 1.5, (N, 1, 1))
    a = np.minimum(x / L, 1) ** p * A
    RE = c.BL0[None] * (1 - a)
    if flat_zero:
        RE = c.BL0[None, :1] * np.maximum(1 - x / L, 0) * np.ones((1, 1, n))
    RE[:, 0] = c.BL0[0]
    return RE


def jitter(c, rng, RE, N):
    """bumps of single places, of all regions, of tails"""
    out = np.repeat(RE[:1], N, axis=0)
    base = out.copy()
    for k in range(N):
        b = RE[rng.integers(len(RE))]
        out[k] = b
        t = int(rng.integers(1, c.T))
        s = 10 ** rng.uniform(-4, -1) * rng.choice([-1, 1])
        m = rng.integers(3)
        r = int(rng.integers(c.R))
        if m == 0:
            out[k, t, r] -= s * abs(c.BL0[0, r])
        elif m == 1:
            out[k, t] -= s * np.abs(c.BL0[0])
        else:
            out[k, t:, r] -= s * abs(c.BL0[0, r])
    return out


def random_policy(c, rng, scale=.002):
    """feasible trade balances and transfers, different in every trajectory year"""
    sb = rng.uniform(-1, 1, (c.T, c.R)) * scale
    sf = rng.dirichlet(np.ones(c.R), c.T)
    need_bal, need_fin = c.trade != "notrade", c.transfer == "globaldamagepool"
    if not (need_bal or need_fin) or c.R == 1:
        return None

    def policy(c, t, cur):
        d = {}
        if need_bal:
            # every region keeps non-negative costs: it pays a share of the common bill
            tot = cur["am"].sum(axis=1, keepdims=True)
            if c.minrel < 0:
                w = sb[t] * cur["yg"]
                d["bal"] = w - w.mean(axis=1, keepdims=True)
            else:
                w = (0.1 + np.abs(sb[t]) / scale)
                d["bal"] = tot * (w / w.sum()) - cur["am"]
        if need_fin:
            own = cur["dam"] * cur["yg"]
            d["fin"] = -own + own.sum(axis=1, keepdims=True) * sf[t]
        return d
    return policy


def kinds(n, kind="compliant", **kw):
    return [dict(kind=kind, **kw) for _ in range(n)]


def mutant_vars(c, props=None):
    out = []
    for v, k in M.variables(c).items():
        if v == "effort_sharing_common_level":
            continue
        if props is None or attr.var_props(v, c) & set(props):
            out.append((v, k))
    return out


def mutants(c, rng, X0, n0, RE0, policy, props=None, limit=700):
    """one definition broken at one place, everything downstream consistent with it"""
    places = []
    for v, k in mutant_vars(c, props):
        for t in range(c.T):
            if t == 0 and v in M.UNDEF0:
                continue
            if v == "regional_emissions" and t > 0:
                continue          # decisions
            for r in range(c.R if k == "r" else 1):
                places.append((v, k, t, r))
    if len(places) > limit:
        # keep the first, second and last years of every variable, sample the rest
        keep = [p for p in places if p[2] in (0, 1, c.T - 1)]
        rest = [p for p in places if p[2] not in (0, 1, c.T - 1)]
        rng.shuffle(keep)
        rng.shuffle(rest)
        places = (keep[:limit // 2] + rest)[:limit]
    N = len(places)
    if N == 0:
        return None
    delta, metas = {}, []
    for q, (v, k, t, r) in enumerate(places):
        if v not in delta:
            delta[v] = np.zeros((N, c.T, c.R) if k == "r" else (N, c.T))
        a = X0[v][n0]
        top = np.nanmax(np.abs(a))
        here = np.abs(a[t, r] if k == "r" else a[t])
        top = max(top, 1e-2) if np.isfinite(top) else 1e-3
        here = here if np.isfinite(here) else 0
        d = max(here, .05 * top) * 10 ** rng.uniform(-3.3, -1.7) * rng.choice([-1, 1])
        if v == "relative_abatement" and t == 0:
            d = .3        # only tied to the rest through its (zero) costs
        if k == "r":
            delta[v][q, t, r] = d
        else:
            delta[v][q, t] = d
        metas.append(dict(kind="mutant", var=v, t=t, r=c.regions[r] if k == "r" else None, d=float(d), prop=attr.VAR_PROP[v]))
    RE = np.repeat(RE0[None], N, axis=0)
    X = M.simulate(c, RE, delta=delta, policy=policy)
    return X, metas


def ce_to_re(c, CE, share=None):
    """(N,T) cumulative emissions -> emission paths giving exactly these"""
    N = CE.shape[0]
    GE = np.zeros_like(CE)
    GE[:, 0] = c.BL0[0].sum()
    for t in range(1, c.T):
        s = (CE[:, t] - CE[:, t - 1]) / c.dt
        GE[:, t] = 2 * s - GE[:, t - 1] if c.trapz else s
    sh = (c.BL0[0] / c.BL0[0].sum()) if share is None else share
    RE = GE[:, :, None] * sh
    RE[:, 0] = c.BL0[0]
    return RE


def eps(rng, n):
    """offsets around a limit: both sides, clearly outside the not-judged zone"""
    return rng.choice([-1, 1], n) * 10 ** rng.uniform(-4, -1.3, n)


# ------------------------------------------------------------------- base runs
class Run:
    """one configuration plus a population of judged trajectories"""

    def __init__(self, user):
        self.user, self.c = user, M.Cfg(user)
        self.parts = []

    def add(self, RE, tag, policy=None, **kw):
        if len(RE) == 0:
            return None
        X = M.simulate(self.c, np.ascontiguousarray(RE), policy=policy, **kw)
        self.parts.append((X, kinds(len(RE), tag=tag)))
        return X

    def data(self):
        keys = set(self.parts[0][0])
        X = {k: np.concatenate([p[0][k] for p in self.parts]) for k in keys}
        return X, [m for p in self.parts for m in p[1]]


def good(c, X):
    """indices of trajectories that break no documented limit"""
    from .engine import judge
    broken, vague = judge(c, X)
    return [n for n in range(len(broken)) if not broken[n] and not vague[n]]


def general(rng, i, props, npop=120, limit=700, **kw):
    """random configuration, random trajectories, every definition of `props` broken everywhere"""
    relaxed = rng.random() < .8
    u = kw.pop("user", None) or gen_user(rng, i, relaxed=relaxed, **kw)
    run = Run(u)
    c = run.c
    policy = random_policy(c, rng)
    RE = ramps(c, rng, 24)
    X = run.add(RE, "ramp", policy)
    ok = good(c, X)
    if ok:
        RE = RE[ok]
        X0, n0 = X, ok[0]
    else:
        X0, n0 = X, 0
    run.add(jitter(c, rng, RE, npop), "jitter", policy)
    m = mutants(c, rng, X0, n0, RE[0], policy, props, limit)
    if m:
        run.parts.append(m)
    return run


def late_index(c, strict=False):
    y = c.years
    return [t for t in range(1, c.T) if (y[t] > 2100 + 1e-9 if strict else y[t] >= 2100 - 1e-9)]


# ------------------------------------------------------------ limit-directed runs
def mild(rng, u):
    """keep costs and damages small so that far-away trajectories stay meaningful"""
    u = setu(u, ("economics - MAC - gamma", pick(rng, ["150 USD2005/tCO2", "0.3 thousand USD2010/tCO2", "80 USD2005/tCO2"])),
             ("economics - damages - scale factor", float(pick(rng, [.5, .3, 0]))))
    if rng.random() < .7:
        u = setu(u, ("SSP", pick(rng, ["SSP2", "SSP3", "SSP5"])))
    if rng.random() < .4:
        u = setu(u, ("emissions - baseline carbon intensity", False))
    return u


def early_C19(rng, i):
    """a horizon that ends before 2100: no budget, net-zero or temperature limit applies"""
    u = mild(rng, merge(gen_user(rng, i, plain=.3), RELAXED))
    dt = float(pick(rng, [1, 2, 2.5, 4, 5, 5, 7, 10]))
    T = int(rng.integers(3, 12))
    last = float(pick(rng, [2099, 2098, 2095, 2090, 2060, 2099.5]))
    start = int(max(2010, np.floor(last - (T - 1) * dt)))
    u["time"] = {"start": start, "end": start + int(np.floor((T - 1) * dt - 1e-9)) if dt >= 2 else start + int((T - 1) * dt), "dt": dt}
    if R.model_years(R.full_params(u))[-1] >= 2100 or len(R.model_years(R.full_params(u))) < 3:
        u["time"] = {"start": 2020, "end": 2095, "dt": 7.0 if rng.random() < .5 else 5.0}
    c = M.Cfg(u)
    X = M.simulate(c, ramps(c, rng, 12, .05, .5))
    ce = float(np.median(X["cumulative_emissions"][:, -1]))
    pairs = []
    if rng.random() < .7:
        pairs += [("emissions - carbonbudget", f"{max(ce * rng.uniform(.1, 1.02), .01)!r} GtCO2"), ("emissions - not positive after budget year", bool(rng.random() < .7))]
    if rng.random() < .7 or not pairs:
        pairs += [("temperature - target", f"{float(c.T0 + c.tcre * ce * rng.uniform(.1, 1.02))!r} delta_degC")]
    run = Run(setu(u, *pairs))
    run.add(ramps(run.c, rng, 40, .05, .9), "ends before 2100", random_policy(run.c, rng))
    return run


def lim_C19(rng, i):
    if rng.random() < .12:
        return early_C19(rng, i)
    u = mild(rng, merge(gen_user(rng, i, late=True, plain=.3), RELAXED))
    mode = int(pick(rng, [0, 0, 1, 1, 2, 2, 3, 4, 4]))
    u = setu(u, ("economics - MAC - beta", float(pick(rng, [1, 2, 3]))), ("emissions - cumulative_emissions_trapz", bool(rng.random() < .5) and mode != 4))
    c = M.Cfg(u)
    T = c.T
    late0 = late_index(c)
    tf = max(1, min(T - 2, (late0[0] if late0 else T) - int(rng.integers(0, 4))))
    g0 = c.BL0[0].sum()
    # emissions fall linearly to zero at step tf, nothing afterwards
    GE = g0 * np.maximum(1 - np.arange(T) / tf, 0)
    CE = np.zeros(T)
    for t in range(1, T):
        CE[t] = CE[t - 1] + c.dt * ((GE[t] + GE[t - 1]) / 2 if c.trapz else GE[t])
    top = CE[-1]
    if mode in (0, 1):      # budget / target tight at single years
        s = top * 10 ** rng.uniform(-4, -1.5) + 1e-3
        if mode == 0:
            u = setu(u, ("emissions - carbonbudget", f"{float(top + s)!r} GtCO2"), ("emissions - not positive after budget year", False))
        else:
            u = setu(u, ("temperature - target", f"{float(c.T0 + c.tcre * (top + s))!r} delta_degC"))
            s_ok = c.tcre * s
        if rng.random() < .3:   # the other one present but far away
            u = setu(u, ("temperature - target", "90 delta_degC")) if mode == 0 else setu(u, ("emissions - carbonbudget", "900 TtCO2"), ("emissions - not positive after budget year", False))
        run = Run(u)
        out = []
        unit = 2e-4 if mode == 0 else 2e-5 / c.tcre
        for t in range(1, T):
            for d in (s + unit * 10 ** rng.uniform(0, 2), s * .9):
                x = CE.copy()
                x[t] += d
                out.append(x)
            x = CE.copy()
            x[t:] += s + unit * 3
            out.append(x)
        out.append(CE.copy())
        run.add(ce_to_re(run.c, np.array(out)), "budget" if mode == 0 else "target", random_policy(run.c, rng))
    elif mode == 2:         # net zero
        on = bool(rng.random() < .75)
        u = setu(u, ("emissions - carbonbudget", pick(rng, ["900 TtCO2", f"{top * 1.5 + 100} GtCO2"])), ("emissions - not positive after budget year", on))
        run = Run(u)
        c = run.c
        out = []
        base = np.tile((GE - 2e-4)[:, None], 1)
        sh = c.BL0[0] / c.BL0[0].sum()
        B = base * sh
        B[0] = c.BL0[0]
        for t in range(1, T):
            for d in (3e-4 + 10 ** rng.uniform(-4, -1), 1e-4):
                for r in ([int(rng.integers(c.R))]):
                    x = B.copy()
                    x[t, r] += d
                    out.append(x)
            x = B.copy()
            x[t:] += 1e-2
            out.append(x)
        # one region may stay positive while another compensates
        if c.R > 1:
            x = B.copy()
            x[1:, 0] += .05
            x[1:, 1] -= .05
            out.append(x)
        out.append(B.copy())
        run.add(np.array(out), "netzero", random_policy(c, rng))
    elif mode == 3:         # cumulative emissions stay non-negative
        u = setu(u, ("economics - MAC - beta", float(pick(rng, [.1, .3, .5]))), ("economics - damages - scale factor", .3),
                 ("model - emissiontrade module", "notrade"), ("emissions - baseline carbon intensity", False))
        if rng.random() < .5:       # a budget of zero is a budget
            u = setu(u, ("emissions - carbonbudget", pick(rng, ["0 GtCO2", "0 MtCO2", "0.0 TtCO2"])),
                     ("emissions - not positive after budget year", bool(rng.random() < .3)))
        run = Run(u)
        c = run.c
        out = []
        G = g0 * c.dt * .02
        for t in range(1, T):
            for d in (-10 ** rng.uniform(-3.5, -2), 1e-3):
                x = np.concatenate([[0], np.full(T - 1, G)]) * 1.0
                x[1] = g0 * c.dt * .3
                x[2:] = G
                x[t] = d
                out.append(x)
        run.add(ce_to_re(c, np.array(out)), "nonneg")
        x = [np.concatenate([[0], np.full(T - 1, d)]) for d in (-.01, .01)]
        run.add(ce_to_re(c, np.array(x)), "nonneg")
    else:                   # nothing set: nothing limits cumulative emissions or temperature
        run = Run(u)
        run.add(ramps(run.c, rng, 40, .05, .3), "unlimited", random_policy(run.c, rng))
        run.add(ramps(run.c, rng, 40, .3, 1.0), "unlimited", random_policy(run.c, rng))
        # before 2100 everything is allowed when set
        lim = top * rng.uniform(.3, .9)
        u2 = setu(u, ("emissions - carbonbudget", f"{float(lim)!r} GtCO2"), ("emissions - not positive after budget year", bool(rng.random() < .5)))
        run = Run(u2)
        c = run.c
        out = []
        for _ in range(60):
            x = CE * rng.uniform(.5, 1.1)
            for t in late0:
                x[t] = min(x[t], lim * (1 + (rng.choice([-1, 1]) * .002 if rng.random() < .15 else -.01 * rng.random())))
            out.append(x)
        run.add(ce_to_re(c, np.array(out)), "overshoot", random_policy(c, rng))
    return run


def lim_C20(rng, i):
    mode = int(rng.integers(6))
    u = merge(gen_user(rng, i, late=True if mode == 3 else None, plain=.3), RELAXED)
    u = mild(rng, setu(u, ("economics - MAC - beta", float(pick(rng, [.5, 1, 2, 2, 3])))))
    if i % 7 == 4 and mode != 3:
        u["time"] = short_steps(i)
    c = M.Cfg(u)
    T, n = c.T, c.R
    x = np.arange(T) / (T - 1)
    frac = rng.uniform(.5, .95)
    B = c.BL0[0][None] * (1 - frac * x[:, None])      # equal steps downwards
    slope = frac / ((T - 1) * c.dt)                    # fraction of first-year emissions per year
    g0 = c.BL0[0].sum()
    other = rng.random() < .4
    if mode in (0, 1):      # speed limits
        ineq = -slope * (1 + 10 ** rng.uniform(-2, -.3))
        pairs = []
        if mode == 0 or other:
            pairs.append(("emissions - inertia - regional", float(ineq)))
        if mode == 1 or other:
            pairs.append(("emissions - inertia - global", float(ineq)))
        run = Run(setu(u, *pairs))
        out = [B.copy()]
        room = -(ineq + slope) * c.dt
        for t in range(1, T):
            for r in range(n):
                for s in (1 + 10 ** rng.uniform(-2, 0) + 5e-4 / (room * c.BL0[0, r] + 1e-9), .97):
                    y = B.copy()
                    y[t:, r] -= room * s * c.BL0[0, r]
                    out.append(y)
            if n > 1:           # all together (global), one more than allowed / one less
                for s in (1.02 + 5e-4 / (room * g0 + 1e-9), .97):
                    y = B.copy()
                    y[t:] -= room * s * c.BL0[0]
                    out.append(y)
            y = B.copy()        # only this year, recovering afterwards
            y[t] -= room * 1.5 * c.BL0[0] + 2e-4
            out.append(y)
        out = np.array(out)
        if len(out) > 500:
            out = out[np.sort(rng.choice(len(out), 500, replace=False))]
        run.add(out, "speed", random_policy(run.c, rng))
    elif mode in (2, 4):    # lowest levels
        glob = mode == 4
        lvl = (c.BL0[0] * (1 - frac)).min() if not glob else g0 * (1 - frac)
        lim = lvl - 10 ** rng.uniform(-3, -1.5) if rng.random() < .6 else -10 ** rng.uniform(-2, -.7)
        if rng.random() < .3:
            lim = 0.0
        run = Run(setu(u, ("emissions - global min level" if glob else "emissions - regional min level", f"{float(lim)!r} GtCO2/yr"),
                       *([("emissions - regional min level", "-3 GtCO2/yr")] if glob and other else [])))
        out = [B.copy()]
        for t in range(1, T):
            for r in range(n):
                for d in (-10 ** rng.uniform(-4, -2) - 5e-5, 2e-4):
                    y = B.copy()
                    if glob:
                        y[t, r] = lim + d - (B[t].sum() - B[t, r])
                    else:
                        y[t, r] = lim + d
                    out.append(y)
        out = np.array(out)
        if len(out) > 500:
            out = out[np.sort(rng.choice(len(out), 500, replace=False))]
        run.add(out, "lowest", random_policy(run.c, rng))
    elif mode == 3:         # no increase after 2100
        on = bool(rng.random() < .8)
        run = Run(setu(u, ("emissions - non increasing emissions after 2100", on)))
        k = np.argmax(c.years >= 2100 - 1e-9) or T - 2
        B = c.BL0[0][None] * (1 - frac * np.minimum(np.arange(T) / max(k - 1, 1), 1))[:, None]
        drop = g0 / n * 10 ** rng.uniform(-3, -2)
        B[k:] -= drop * np.arange(1, T - k + 1)[:, None]
        B = np.maximum(B, -1.0) if rng.random() < .5 else B
        out = [B.copy()]
        for t in range(1, T):
            for r in range(n):
                for s in (drop + 5e-5 + 10 ** rng.uniform(-4, -2), drop * .9):
                    y = B.copy()
                    y[t:, r] += s
                    out.append(y)
            if n > 1:           # one region up, another down: still an increase
                y = B.copy()
                y[t:, 0] += drop + 1e-3
                y[t:, 1] -= drop + 1e-3
                out.append(y)
        run.add(np.array(out), "increase", random_policy(run.c, rng))
    else:                   # switched off or at their defaults with large regions
        regs = BIG[:int(rng.integers(2, 5))]
        u = setu(u, ("SSP", "SSP5"), ("economics - MAC - beta", .3), ("model - emissiontrade module", "notrade"),
                 ("emissions - baseline carbon intensity", False), ("economics - damages - ignore damages", True))
        u["regions"] = {r: {} for r in regs}
        pr = []
        for k, d in (("emissions - regional min level", "-10 GtCO2/yr"), ("emissions - global min level", "-20 GtCO2/yr"),
                     ("emissions - inertia - regional", -.05), ("emissions - inertia - global", -.04),
                     ("emissions - non increasing emissions after 2100", True)):
            if rng.random() < .35:
                pr.append((k, d))
        run = Run(setu(u, *pr))
        c = run.c
        RE = ramps(c, rng, 60, .3, 2.2)
        run.add(RE, "deep", None)
        low = c.BL0[None] * (1 - rng.uniform(1.2, 2.3, (60, 1, 1)) * np.minimum(np.arange(c.T) / (c.T * .7), 1)[None, :, None])
        low[:, 0] = c.BL0[0]
        run.add(low, "deep", None)
    return run


def lim_C17(rng, i):
    mode = int(rng.integers(4))
    u = merge(gen_user(rng, i, plain=.2), RELAXED)
    if mode == 0:           # abatement not negative
        u = setu(u, ("economics - MAC - beta", float(pick(rng, [2, 2, 4, 1]))), ("economics - MAC - rel_mitigation_costs_min_level", -.5))
    elif mode == 1:         # abatement at most 2.5
        u = setu(u, ("economics - MAC - beta", float(pick(rng, [.1, .2, .3]))))
        for r in u["regions"]:
            k = R.getp(R.full_params(u), "economics - MAC - regional calibration factor")
            u["regions"][r] = merge(u["regions"][r] or {}, {"MAC": {k: float(rng.uniform(.2, 1))}})
    elif mode == 2:         # price at most 2 gamma
        u = setu(u, ("economics - MAC - beta", float(pick(rng, [1, 2, 3]))))
    else:                   # minimum relative costs
        u = setu(u, ("economics - MAC - rel_mitigation_costs_min_level", float(pick(rng, [0, -.001, -.02, -.3]))),
                 ("model - emissiontrade module", "emissiontrade"), ("model - financialtransfer module", "notransfer"))
    if mode != 3:
        u = setu(u, ("model - emissiontrade module", "notrade"))
    run = Run(u)
    c = run.c
    RE = ramps(c, rng, 8, .15, .6)
    X = M.simulate(c, RE)
    b = 0
    pol = None
    out = []
    if mode == 3:
        if c.R == 1:
            return run if run.add(RE, "ramp") is not None else run
        goal = np.full((c.T, c.R, 2), np.nan)
        N = 0
        plan = []
        for t in range(1, c.T):
            for r in range(c.R):
                for d in (-10 ** rng.uniform(-4, -2) - 2e-5, 1e-4):
                    plan.append((t, r, d))
        if len(plan) > 400:
            plan = [plan[k] for k in np.sort(rng.choice(len(plan), 400, replace=False))]
        tt, rr, dd = map(np.array, zip(*plan))

        def pol(c, t, cur):
            n = len(tt)
            bal = np.zeros((n, c.R))
            hit = tt == t
            k = np.where(hit)[0]
            bal[k, rr[k]] = ((c.minrel + dd[k]) * cur["yg"][k, rr[k]] - cur["am"][k, rr[k]])
            rest = -bal[k, rr[k]] / (c.R - 1)
            for q in range(c.R):
                bal[k, q] = np.where(rr[k] == q, bal[k, q], rest)
            return dict(bal=bal)
        run.add(np.repeat(RE[:1], len(plan), axis=0), "minimum", pol)
        # first year: nothing may be paid or received whatever the minimum is
        n0 = 12
        first = np.zeros((n0, c.T, c.R))
        for k in range(n0):
            q, p = rng.choice(c.R, 2, replace=False)
            x = float(10 ** rng.uniform(-3.5, -2)) * c.GDP0[0][p]
            first[k, 0, q], first[k, 0, p] = x, -x
        run.add(np.repeat(RE[:1], n0, axis=0), "first year", delta={"import_export_mitigation_cost_balance": first})
        return run
    BL, lf = X["baseline"][b], X["learning_factor"][b]
    for t in range(1, c.T):
        for r in range(c.R):
            for sgn in (-1, 1):
                d = sgn * (2e-5 + 10 ** rng.uniform(-4.3, -2))
                if mode == 0:
                    a = d
                elif mode == 1:
                    a = 2.5 + d
                else:
                    a = ((2 + d) / (c.kappa[r] * lf[t])) ** (1 / c.beta)
                y = RE[b].copy()
                y[t, r] = BL[t, r] * (1 - a)
                out.append(y)
    out = np.array(out)
    if len(out) > 400:
        out = out[np.sort(rng.choice(len(out), 400, replace=False))]
    run.add(out, ("lowest", "highest", "price")[mode])
    return run


def lim_C14(rng, i):
    """bounds of sea-level damages; the no-damage module"""
    u = merge(gen_user(rng, i, plain=0), RELAXED)
    u = setu(u, ("model - damage module", "COACCH"), ("economics - damages - ignore damages", True),
             ("economics - damages - scale factor", float(rng.choice([-1, 1]) * 10 ** rng.uniform(.5, 3))),
             ("economics - damages - coacch_slr_withadapt", bool(rng.random() < .3)),
             ("economics - damages - coacch_combined_slr_nonslr_damages", False),
             ("model - financialtransfer module", "notransfer"))
    run = Run(u)
    run.add(ramps(run.c, rng, 60, .15, 1), "large damages", random_policy(run.c, rng))
    return run


def lim_C13(rng, i):
    """cold start: sea-level parts reach zero"""
    u = merge(gen_user(rng, i, plain=.2), RELAXED)
    u = setu(u, ("temperature - initial", f"{rng.uniform(-3, .3):.4f} delta_degC"), ("economics - damages - ignore damages", True),
             ("model - financialtransfer module", "notransfer"))
    run = Run(u)
    run.add(ramps(run.c, rng, 60, .15, 1), "cold", random_policy(run.c, rng))
    return run


def lim_C22(rng, i):
    u = merge(gen_user(rng, i, plain=.2, nreg=int(pick(rng, [2, 3, 3, 4]))), RELAXED)
    u = setu(u, ("model - financialtransfer module", "globaldamagepool"), ("economics - damages - scale factor", float(pick(rng, [1, .5, 2]))))
    run = Run(u)
    c = run.c
    RE = ramps(c, rng, 3, .15, .8)
    plan = [(t, r, d) for t in range(1, c.T) for r in range(c.R) for d in (-1, 1)]
    if len(plan) > 400:
        plan = [plan[k] for k in np.sort(rng.choice(len(plan), 400, replace=False))]
    tt, rr, dd = map(np.array, zip(*plan))
    mag = 5e-5 + 10 ** rng.uniform(-4, -2, len(plan))
    base = random_policy(c, rng)

    def pol(c, t, cur):
        own = cur["dam"] * cur["yg"]
        tot = own.sum(axis=1, keepdims=True)
        sh = np.tile(np.full(c.R, 1 / c.R), (len(plan), 1))
        slack = np.broadcast_to(tot, own.shape) * sh
        k = np.where(tt == t)[0]
        slack = slack.copy()
        if len(k):
            want = dd[k] * mag[k]
            rest = (tot[k, 0] - want) / (c.R - 1)
            slack[k] = rest[:, None]
            slack[k, rr[k]] = want
        d = base(c, t, cur) if base else {}
        d["fin"] = slack - own
        return d
    run.add(np.repeat(RE[:1], len(plan), axis=0), "own damages", pol)
    return run


def lim_C23(rng, i, regime=None):
    regime = regime or pick(rng, ["equal_mitigation_costs", "equal_total_costs", "per_cap_convergence", "per_cap_convergence", "noregime"])
    late = True if rng.random() < .5 else None
    mods = {"emissiontrade module": pick(rng, ["emissiontrade", "emissiontrade", "globalcostpool"]) if regime != "per_cap_convergence" else "emissiontrade"}
    u = merge(gen_user(rng, i, late=late, plain=.2, nreg=int(pick(rng, [1, 2, 2, 3, 3, 4]))), RELAXED)
    if mods["emissiontrade module"] == "emissiontrade" and rng.random() < .15 and regime != "per_cap_convergence":
        mods = {"emissiontrade module": "notrade"}
    u = merge(u, {"model": mods})
    u = setu(u, ("effort sharing - regime", regime))
    if regime != "noregime":
        u = setu(u, ("economics - MAC - rel_mitigation_costs_min_level", -2.0))
    start = u["time"]["start"]
    if rng.random() < .75 or start > 2050:
        u = setu(u, ("effort sharing - percapconv_year",
                     pick(rng, [False, False, max(2050, start), max(2060.0, start), 2100, 2200, float(rng.integers(max(2020, start), 2201)), 2037.5 if start < 2037 else 2150.5, float(min(max(start, 2020), 2200)), float(min(2200, max(2020, start + 10)))])))
    run = Run(u)
    c = run.c
    RE = ramps(c, rng, 12, .15, .9)
    if c.R == 1 or c.trade == "notrade" or regime == "noregime":
        run.add(RE, "any", random_policy(c, rng))
        run.add(jitter(c, rng, RE, 60), "any", random_policy(c, rng))
        return run
    plan = [(t, r, d) for t in range(1, c.T) for r in range(c.R) for d in (-1, 1)]
    if len(plan) > 300:
        plan = [plan[k] for k in np.sort(rng.choice(len(plan), 300, replace=False))]
    tt, rr, dd = map(np.array, zip(*plan))
    pool = c.transfer == "globaldamagepool"
    sf = rng.dirichlet(np.ones(c.R) * 3, c.T)
    n = len(plan)
    out = rng.random(n) < .5                     # just outside / just inside the band
    if regime != "per_cap_convergence":
        # z_r = L (1 + off_r); only region rr at year tt is off
        off = dd * np.where(out, .00505 + 10 ** rng.uniform(-4.5, -2.5, n), .00495)

        def pol(c, t, cur):
            d = {}
            fin = 0
            if pool:
                own = cur["dam"] * cur["yg"]
                fin = -own + own.sum(axis=1, keepdims=True) * sf[t]
                d["fin"] = fin
            D = cur["dam"] * cur["yg"] + fin if regime == "equal_total_costs" else 0 * cur["yg"]
            f = np.ones((n, c.R))
            k = np.where(tt == t)[0]
            f[k, rr[k]] += off[k]
            L = (cur["am"] + D).sum(axis=1) / (f * cur["yg"]).sum(axis=1)
            d["bal"] = L[:, None] * f * cur["yg"] - D - cur["am"]
            pol.level[:, t] = L
            return d
        pol.level = np.zeros((n, c.T))
        RE2 = np.repeat(RE[:1], n, axis=0)
        X = M.simulate(c, RE2, policy=pol)
        lev = pol.level.copy()
        if regime == "equal_total_costs":
            # first year: damages are zero, costs are zero
            lev[:, 0] = 0.0
        X["effort_sharing_common_level"] = lev
        run.parts.append((X, kinds(n, tag=regime)))
        # free balances: mostly refused
        run.add(RE, "free", random_policy(c, rng))
    else:
        off = dd * np.where(out, .001 + 2e-5 + 10 ** rng.uniform(-4.5, -2, n), .00097)

        def pol(c, t, cur):
            d = {}
            if pool:
                own = cur["dam"] * cur["yg"]
                d["fin"] = -own + own.sum(axis=1, keepdims=True) * sf[t]
            # allowance = share * global; paid for = baseline - allowance; traded = paid for - own reduction
            al = c.pcshare[t] * cur["ge"][:, None] * np.ones((n, 1))
            k = np.where(tt == t)[0]
            dev = np.zeros((n, c.R))
            dev[k, rr[k]] = off[k]
            al = al + dev
            eb = cur["re"] - al
            cp = cur["fac"] * cur["ab"] ** c.beta
            P = c.POP[t]
            gp = (cp * P).sum(axis=1) / P.sum()
            b = eb * M.soft_min(gp)[:, None]
            # money balances must cancel; what is left of the one deviation goes to the others in equal parts
            s = b.sum(axis=1)
            w = np.ones((n, c.R))
            w[k, rr[k]] = 0
            b = b - s[:, None] * w / w.sum(axis=1, keepdims=True)
            d["bal"] = b
            return d
        run.add(np.repeat(RE[:1], n, axis=0), regime, pol)
        run.add(RE, "free", random_policy(c, rng))
    return run


def lim_C21(rng, i):
    mod = pick(rng, ["emissiontrade", "emissiontrade", "emissiontrade", "notrade", "globalcostpool"])
    u = merge(gen_user(rng, i, plain=.2, nreg=int(pick(rng, [1, 2, 2, 3, 4]))), RELAXED)
    u = merge(u, {"model": {"emissiontrade module": mod}})
    if rng.random() < .5:
        u = setu(u, ("economics - MAC - rel_mitigation_costs_min_level", -.5))
    return general(rng, i, {"C21"}, user=u)
