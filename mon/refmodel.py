"""Reference simulator of the documented model, vectorised over a batch of
trajectories.  Written from the documentation (equations as stated in the
properties); shares no code with the repository.

A trajectory is given by its decisions (regional emission paths, trade balances,
damage transfers, common effort level); every other variable follows.  `delta`
lets a caller break one definition at one place (var, t, r) while everything
downstream stays consistent."""
import numpy as np
from . import refdata as R

PI = np.pi


def soft_switch(x, scale=1.0):
    return np.arctan(25.0 / scale * x) / PI + 0.5


def soft_min(x, scale=1.0):
    return soft_switch(x, scale) * x + scale / (25.0 * PI)


def soft_max(x, top, scale=1.0):
    return top - soft_min(top - x, scale)


class Cfg:
    """What the documented parameters mean for the equations."""

    def __init__(self, user, overrides=None):
        p = R.full_params(user)
        self.p = p
        self.regions = list(p["regions"])
        self.years = R.model_years(p)
        self.T, self.R = len(self.years), len(self.regions)
        self.dt = float(p["time"]["dt"])
        self.begin = p["time"]["start"]
        ssp = p["SSP"]
        q = lambda path: R.quantity(R.getp(p, path), R.SPEC_BY[path]["unit"])

        def data(name):
            info = dict(p["input"]["variables"][name])
            info["scenario"] = info["scenario"].replace("{SSP}", ssp)
            return np.array([R.series(info, r, self.years) for r in self.regions]).T
        self.GDP0, self.BL0, self.POP = data("GDP"), data("emissions"), data("population")
        e = p["economics"]
        self.prtp, self.elasmu, self.ia = float(e["PRTP"]), float(e["elasmu"]), float(e["inequal_aversion"])
        self.alpha, self.dk, self.sr = (float(e["GDP"][k]) for k in ("alpha", "depreciation of capital", "savings rate"))
        m = e["MAC"]
        self.beta, self.lbd_rate, self.lot = float(m["beta"]), float(m["LBD_rate"]), float(m["LOT_rate"])
        self.gamma = q("economics - MAC - gamma")
        self.lbd_scaling = q("economics - MAC - LBD_scaling")
        self.minrel = float(m["rel_mitigation_costs_min_level"])
        reg = lambda cat, col: np.array([R.regional(p, cat, col, r) for r in self.regions], dtype=object)
        num = lambda cat, col: reg(cat, col).astype(float)
        self.kappa = num("MAC", m["regional calibration factor"])
        self.K0f = num("economics", "init_capital_factor")
        self.mort = {(g, c): num("mortality", f"{g}_{c}") for g in ("oldest", "older", "young") for c in "abc"}
        d = e["damages"]
        self.dscale, self.ignore = float(d["scale factor"]), bool(d["ignore damages"])
        self.reversible = d["percentage reversible"]
        self.damage_module = p["model"]["damage module"]
        qn, ad = d["quantile"], "Ad" if d["coacch_slr_withadapt"] else "NoAd"
        n = self.R
        if d["coacch_combined_slr_nonslr_damages"]:
            z = np.zeros(n)
            self.tdam = (np.array(["Quadratic"] * n, object), num("COACCH", f"combined_b1_{ad}-q{qn}"),
                         num("COACCH", f"combined_b2_{ad}-q{qn}"), z, np.ones(n))
            self.sdam = (np.array(["Linear"] * n, object), z, z, z, z)
        else:
            self.tdam = (reg("COACCH", "NoSLR_form"), num("COACCH", "NoSLR_b1"), num("COACCH", "NoSLR_b2"),
                         num("COACCH", "NoSLR_b3"), num("COACCH", f"NoSLR_a (q={qn})"))
            self.sdam = (reg("COACCH", f"SLR-{ad}_form"), num("COACCH", f"SLR-{ad}_b1"), num("COACCH", f"SLR-{ad}_b2"),
                         num("COACCH", f"SLR-{ad}_b3"), num("COACCH", f"SLR-{ad}_a (q={qn})"))
        em = p["emissions"]
        self.budget = q("emissions - carbonbudget")
        self.gmin = q("emissions - global min level")
        self.rmin = q("emissions - regional min level")
        fl = lambda x: False if x is False else float(x)
        self.ginert, self.rinert = fl(em["inertia"]["global"]), fl(em["inertia"]["regional"])
        self.netzero = em["not positive after budget year"]
        self.noninc = em["non increasing emissions after 2100"]
        self.ci = em["baseline carbon intensity"]
        self.trapz = em["cumulative_emissions_trapz"]
        self.regime = p["effort sharing"]["regime"]
        self.convyear = fl(p["effort sharing"]["percapconv_year"])
        self.T0, self.tcre, self.ttarget = (q("temperature - " + k) for k in ("initial", "TCRE", "target"))
        # constants of the sea-level equations
        self.th_eq, self.th_0, self.th_rate = .5, 0.0920666936642, 0.024076141150722
        self.gs_rate, self.gs_ice, self.gs_T = .0008, .26, -1.0
        self.gi_above, self.gi_rate, self.gi_ice = 1.11860082, .6, 7.3
        mo = p["model"]
        self.trade, self.transfer = mo["emissiontrade module"], mo["financialtransfer module"]
        self.welfare, self.objective = mo["welfare module"], mo["objective module"]
        self._derive()
        for k, v in (overrides or {}).items():
            setattr(self, k, v)
            self._derive()

    def _derive(self):
        T, n = self.T, self.R
        self.CI = self.BL0 / self.GDP0
        # calibration of productivity on the baseline
        K = self.K0f * self.GDP0[0]
        self.TFP = np.zeros((T, n))
        for t in range(T):
            if t > 0:
                K = (1 - self.dk) ** self.dt * K + self.dt * self.sr * self.GDP0[t - 1]
            self.TFP[t] = self.GDP0[t] / (self.POP[t] ** (1 - self.alpha) * K ** self.alpha)
        g = self.BL0.sum(axis=1)
        self.CBL = np.concatenate([[0.0], np.cumsum((g[1:] + g[:-1]) / 2 * self.dt)])
        share0 = self.BL0[0] / self.BL0[0].sum()
        spop = self.POP / self.POP.sum(axis=1, keepdims=True)
        if self.convyear is False:
            self.pcshare = np.tile(share0, (T, 1))
        elif self.convyear == self.years[0]:
            self.pcshare = spop
        else:
            x = (self.years - self.years[0]) / (self.convyear - self.years[0])
            x = np.minimum(x, 1)[:, None] if self.convyear > self.years[0] else np.ones((T, 1))
            self.pcshare = x * spop + (1 - x) * share0

    # ---- damages
    @staticmethod
    def form(c, x):
        form, b1, b2, b3, a = c
        out = np.empty(x.shape[:-1] + (len(form),))
        for r, f in enumerate(form):
            X = x[..., 0] if x.shape[-1] == 1 else x[..., r]
            if "Linear" in f:
                v = b1[r] * X
            elif "Quadratic" in f:
                v = b1[r] * X + b2[r] * X ** 2
            elif "Logistic" in f:
                v = b1[r] / (1 + b2[r] * np.exp(soft_max(-b3[r] * X, 10, 0.1))) - b1[r] / (1 + b2[r])
            else:
                raise ValueError(f)
            out[..., r] = a[r] * v / 100.0
        return out

    def utility(self, c, L):
        x = soft_min(c / L)
        if self.elasmu == 1:
            return np.log(x)
        return (x ** (1 - self.elasmu) - 1) / (1 - self.elasmu)


GLOBAL_ALWAYS = ["global_emissions", "cumulative_emissions", "emission_relative_cumulative", "temperature",
                 "slr_thermal", "slr_cumgsic", "slr_cumgis", "total_SLR", "LBD_factor", "LOT_factor", "learning_factor",
                 "global_rel_mitigation_costs", "global_emission_reduction_per_cost_unit",
                 "global_cost_per_emission_reduction_unit", "yearly_welfare", "NPV"]
REG_ALWAYS = ["regional_emissions", "baseline", "relative_abatement", "regional_emission_reduction", "damage_costs",
              "carbonprice", "mitigation_costs", "area_under_MAC", "rel_mitigation_costs", "capital_stock", "GDP_gross",
              "GDP_net", "investments", "consumption", "utility"]
REG_COACCH = ["damage_costs_non_slr", "damage_costs_slr", "mortality_oldest", "mortality_older", "mortality_young",
              "mortality_cost_oldest"]
REG_TRADE = ["import_export_mitigation_cost_balance", "import_export_emission_reduction_balance",
             "paid_for_emission_reductions", "regional_emission_allowances"]
REG_POOL = ["import_export_mitigation_cost_balance", "import_export_emission_reduction_balance",
            "paid_for_emission_reductions"]
REG_FIN = ["financial_transfer", "rel_financial_transfer"]
# not determined in the first year
UNDEF0 = {"global_emission_reduction_per_cost_unit", "global_cost_per_emission_reduction_unit",
          "import_export_emission_reduction_balance", "paid_for_emission_reductions", "regional_emission_allowances"}


def variables(c):
    """documented variables: name -> 'g' or 'r' (and the free ones)"""
    v = {n: "g" for n in GLOBAL_ALWAYS}
    v.update({n: "r" for n in REG_ALWAYS})
    if c.damage_module == "COACCH":
        v.update({n: "r" for n in REG_COACCH})
    if c.trade == "emissiontrade":
        v.update({n: "r" for n in REG_TRADE})
        v["global_carbonprice"] = "g"
    if c.trade == "globalcostpool":
        v.update({n: "r" for n in REG_POOL})
    if c.transfer == "globaldamagepool":
        v.update({n: "r" for n in REG_FIN})
    v["effort_sharing_common_level"] = "g"
    return v


def simulate(c, RE, bal=None, fin=None, level=None, delta=None, policy=None, iters=400):
    """RE (N,T,R): regional emissions for t>0 (t=0 follows the scenario).
    bal, fin: (N,T,R) zero-sum trade balance / transfer (money), t=0 ignored (0).
    policy(c, t, cur) -> dict(bal=..., fin=...) may compute them from the current iterate.
    delta: {var: (N,T,R) or (N,T) additive offsets}."""
    N, T, n = RE.shape[0], c.T, c.R
    delta = delta or {}
    X = {}
    for k, kind in variables(c).items():
        X[k] = np.full((N, T, n) if kind == "r" else (N, T), np.nan)
    for k in ("financial_transfer", "rel_financial_transfer", "import_export_mitigation_cost_balance"):
        X.setdefault(k, np.zeros((N, T, n)))

    def D(name, t, val):
        d = delta.get(name)
        return val if d is None else val + d[:, t]

    zero = np.zeros((N, n))
    ok = np.ones(N, bool)
    S = np.sum
    fix = 1 - ((1 - c.dk) ** c.dt - 1)
    with np.errstate(all="ignore"):
        for t in range(T):
            P = c.POP[t]
            re = np.broadcast_to(c.BL0[0], (N, n)) if t == 0 else RE[:, t]
            re = D("regional_emissions", t, re)
            X["regional_emissions"][:, t] = re
            ge = D("global_emissions", t, S(re, axis=1))
            X["global_emissions"][:, t] = ge
            if t == 0:
                ce = np.zeros(N)
            else:
                pe = X["global_emissions"][:, t - 1]
                ce = X["cumulative_emissions"][:, t - 1] + c.dt * ((ge + pe) / 2 if c.trapz else ge)
            ce = D("cumulative_emissions", t, ce)
            X["cumulative_emissions"][:, t] = ce
            X["emission_relative_cumulative"][:, t] = D("emission_relative_cumulative", t,
                                                        np.ones(N) if t == 0 else ce / c.CBL[t])
            temp = D("temperature", t, c.T0 + c.tcre * ce)
            X["temperature"][:, t] = temp
            # sea level
            a = c.th_rate
            if t == 0:
                th = np.full(N, c.th_0 + a * (c.T0 * c.th_eq - c.th_0))
                gs, gi = np.full(N, 0.015), np.full(N, 0.006)
            else:
                tp = X["temperature"][:, t - 1]
                pth, pgs, pgi = (X[k][:, t - 1] for k in ("slr_thermal", "slr_cumgsic", "slr_cumgis"))
                th = (1 - a) ** (c.dt / 10) * pth + a * (c.dt / 10) * tp * c.th_eq
                gs = pgs + c.gs_rate / c.gs_ice * c.dt * (c.gs_ice - pgs) * (tp - c.gs_T)
                gi = pgi + c.dt / 10 / 100 * (c.gi_above * tp + c.gi_rate) * (1 - pgi / c.gi_ice)
            X["slr_thermal"][:, t] = th = D("slr_thermal", t, th)
            X["slr_cumgsic"][:, t] = gs = D("slr_cumgsic", t, gs)
            X["slr_cumgis"][:, t] = gi = D("slr_cumgis", t, gi)
            X["total_SLR"][:, t] = slr = D("total_SLR", t, th + gs + gi)
            # damages
            if c.damage_module == "COACCH":
                base = c.form(c.tdam, np.array([[c.T0 - 0.6]]))
                nd = c.dscale * (c.form(c.tdam, (temp - 0.6)[:, None]) - base)
                sd = c.dscale * (c.form(c.sdam, slr[:, None]) - c.form(c.sdam, X["total_SLR"][:, 0][:, None]))
                X["damage_costs_non_slr"][:, t] = nd = D("damage_costs_non_slr", t, nd)
                X["damage_costs_slr"][:, t] = sd = D("damage_costs_slr", t, sd)
                dam = nd + sd
                for g in ("oldest", "older", "young"):
                    X["mortality_" + g][:, t] = D("mortality_" + g, t, c.mort[g, "a"] + c.mort[g, "b"] * temp[:, None]
                                                  + c.mort[g, "c"] * temp[:, None] ** 2)
                X["mortality_cost_oldest"][:, t] = D("mortality_cost_oldest", t,
                                                     X["mortality_oldest"][:, t] * P * 1e4 * 1.3)
            else:
                dam = zero
            X["damage_costs"][:, t] = dam = D("damage_costs", t, dam)
            # learning
            lbd = soft_min((c.CBL[t] - ce) / c.lbd_scaling + 1.0) ** (np.log(c.lbd_rate) / np.log(2))
            X["LBD_factor"][:, t] = lbd = D("LBD_factor", t, lbd)
            X["LOT_factor"][:, t] = lot = D("LOT_factor", t, np.full(N, 1 / (1 + c.lot) ** t))
            X["learning_factor"][:, t] = lf = D("learning_factor", t, lbd * lot)
            fac = lf[:, None] * c.kappa * c.gamma
            # economy: fixed point in net GDP
            yn = c.GDP0[t] * np.ones((N, n)) if t == 0 else X["GDP_net"][:, t - 1] * (c.GDP0[t] / c.GDP0[t - 1])
            cur = {}
            for it in range(iters):
                inv = D("investments", t, c.sr * yn)
                if t == 0:
                    K = D("capital_stock", t, c.K0f * c.GDP0[0] * np.ones((N, n)))
                    yg = c.GDP0[0] * np.ones((N, n))
                else:
                    K = D("capital_stock", t, (X["capital_stock"][:, t - 1] + c.dt * inv) / fix)
                    yg = c.TFP[t] * P ** (1 - c.alpha) * soft_min(K, 10) ** c.alpha
                yg = D("GDP_gross", t, yg)
                bl = D("baseline", t, c.CI[t] * yn if c.ci else c.BL0[t] * np.ones((N, n)))
                blr = bl if c.ci else c.BL0[t]
                ab = D("relative_abatement", t, np.zeros((N, n)) if t == 0 else 1 - re / blr)
                red = D("regional_emission_reduction", t, bl - re)
                am = D("area_under_MAC", t, fac * ab ** (c.beta + 1) / (c.beta + 1) * bl)
                true_am = am if "area_under_MAC" not in delta else fac * ab ** (c.beta + 1) / (c.beta + 1) * bl
                cur = dict(yg=yg, bl=bl, ab=ab, red=red, am=true_am, dam=dam, re=re, ge=ge, fac=fac, lf=lf, t=t)
                b = f = zero
                if t > 0:
                    pol = policy(c, t, cur) if policy else {}
                    if c.trade != "notrade":
                        b = pol["bal"] if "bal" in pol else (bal[:, t] if bal is not None else zero)
                    if c.transfer == "globaldamagepool":
                        f = pol["fin"] if "fin" in pol else (fin[:, t] if fin is not None else zero)
                b = D("import_export_mitigation_cost_balance", t, b)
                f = D("financial_transfer", t, f)
                mit = D("mitigation_costs", t, true_am + b)
                new = D("GDP_net", t, yg * (1 - (0 if c.ignore else dam)) - mit - f)
                err = np.max(np.abs(new - yn) / (np.abs(new) + 1e-9), axis=1)
                yn = new
                if not (err > 1e-14).any():
                    break
            ok &= err < 1e-11
            cons = D("consumption", t, (1 - c.sr) * yn)
            # the smoothed functions lose all digits for non-positive arguments: not judged
            ok &= (cons / P > 1e-2).all(axis=1)
            rel = D("rel_mitigation_costs", t, mit / yg)
            for k, v in dict(baseline=bl, relative_abatement=ab, regional_emission_reduction=red, area_under_MAC=am,
                             mitigation_costs=mit, rel_mitigation_costs=rel, capital_stock=K, GDP_gross=yg, GDP_net=yn,
                             investments=inv, consumption=cons, financial_transfer=f,
                             import_export_mitigation_cost_balance=b).items():
                X[k][:, t] = v
            X["rel_financial_transfer"][:, t] = D("rel_financial_transfer", t, f / yg)
            cp = D("carbonprice", t, fac * ab ** c.beta)
            X["carbonprice"][:, t] = cp
            sm, sg, sr_ = S(mit, axis=1), S(yg, axis=1), S(red, axis=1)
            X["global_rel_mitigation_costs"][:, t] = D("global_rel_mitigation_costs", t, sm / sg)
            pcu = D("global_emission_reduction_per_cost_unit", t, sr_ / soft_min(sm))
            if t > 0:
                X["global_emission_reduction_per_cost_unit"][:, t] = pcu
                X["global_cost_per_emission_reduction_unit"][:, t] = D("global_cost_per_emission_reduction_unit", t,
                                                                       sm / soft_min(sr_))
            if c.trade == "emissiontrade":
                gp = D("global_carbonprice", t, S(cp * P, axis=1) / S(P))
                X["global_carbonprice"][:, t] = gp
                if t > 0:
                    eb = D("import_export_emission_reduction_balance", t, b / soft_min(gp)[:, None])
                    pf = D("paid_for_emission_reductions", t, red + eb)
                    X["import_export_emission_reduction_balance"][:, t] = eb
                    X["paid_for_emission_reductions"][:, t] = pf
                    X["regional_emission_allowances"][:, t] = D("regional_emission_allowances", t, bl - pf)
            elif c.trade == "globalcostpool" and t > 0:
                pf = D("paid_for_emission_reductions", t, mit * pcu[:, None])
                X["paid_for_emission_reductions"][:, t] = pf
                X["import_export_emission_reduction_balance"][:, t] = D("import_export_emission_reduction_balance", t, pf - red)
            # welfare
            if c.welfare == "welfare_loss_minimising":
                u = D("utility", t, c.utility(cons, P))
                w = S(P * u, axis=1)
            elif c.welfare == "cost_minimising":
                u = D("utility", t, cons / P)
                w = S(P) * c.utility(S(cons, axis=1), S(P))
            else:
                u = D("utility", t, P * soft_min(cons / P) ** (1 - c.ia))
                w = S(P) * soft_min(S(u, axis=1) / S(P)) ** ((1 - c.elasmu) / (1 - c.ia)) / (1 - c.elasmu)
            X["utility"][:, t] = u
            X["yearly_welfare"][:, t] = w = D("yearly_welfare", t, w)
            if t == 0:
                npv = np.zeros(N)
            else:
                term = w if c.objective == "utility" else sm + S(dam * yg, axis=1)
                npv = X["NPV"][:, t - 1] + c.dt * np.exp(-c.prtp * (c.years[t] - c.begin)) * term
            X["NPV"][:, t] = D("NPV", t, npv)
            # common effort level
            if level is not None:
                lev = level[:, t]
            else:
                z = rel if c.regime != "equal_total_costs" else rel + dam + X["rel_financial_transfer"][:, t]
                lev = 0.5 * (z.max(axis=1) + z.min(axis=1))
            X["effort_sharing_common_level"][:, t] = lev
    X["_ok"] = ok & np.isfinite(X["NPV"]).all(axis=1)
    return X


def slacks(c, X):
    """documented inequalities: name -> (slack array (N,T[,R]) >= 0 when respected, mask of
    places where it applies, natural scale).  NaN = does not apply."""
    out = {}
    yrs = c.years
    late = yrs >= 2100 - 1e-9
    T = c.T

    def put(name, s, where=None):
        s = np.array(s, float)
        if where is not None:
            w = np.asarray(where)
            s[:, ~w] = np.nan
        out[name] = s
    a = X["relative_abatement"]
    put("abatement_lo", a)
    put("abatement_hi", 2.5 - a)
    put("price_lo", X["carbonprice"] / c.gamma)
    put("price_hi", (2 * c.gamma - X["carbonprice"]) / c.gamma)
    for k in ("slr_thermal", "slr_cumgsic", "slr_cumgis", "total_SLR"):
        put(k + "_lo", X[k])
    if c.damage_module == "COACCH":
        put("damage_slr_lo", X["damage_costs_slr"] + 0.5)
        put("damage_slr_hi", 0.7 - X["damage_costs_slr"])
    mr = np.full(T, c.minrel)
    mr[0] = 0.0
    put("rel_mitigation_min", X["rel_mitigation_costs"] - mr[None, :, None])
    put("cumulative_nonneg", X["cumulative_emissions"] / 10.0)
    if c.budget is not False:
        put("carbon_budget", (c.budget - X["cumulative_emissions"]) / 10.0, late)
        if c.netzero:
            put("net_zero", -X["global_emissions"], late)
    if c.ttarget is not False:
        put("temperature_target", c.ttarget - X["temperature"], late)
    pos = np.arange(T) > 0

    def diff(v):
        d = np.full(v.shape, np.nan)
        d[:, 1:] = v[:, 1:] - v[:, :-1]
        return d
    if c.ginert is not False:
        put("global_inertia", diff(X["global_emissions"]) - c.dt * c.ginert * c.BL0[0].sum(), pos)
    if c.rinert is not False:
        put("regional_inertia", diff(X["regional_emissions"]) - c.dt * c.rinert * c.BL0[0], pos)
    if c.gmin is not False:
        put("global_min", X["global_emissions"] - c.gmin)
    if c.rmin is not False:
        put("regional_min", X["regional_emissions"] - c.rmin)
    if c.noninc:
        w = np.zeros(T, bool)
        w[1:] = yrs[:-1] > 2100 + 1e-9
        put("non_increasing", -diff(X["regional_emissions"]), w)
    if c.transfer == "globaldamagepool":
        put("transfer_own_damage", X["financial_transfer"] + X["damage_costs"] * X["GDP_gross"])
    if c.regime == "equal_mitigation_costs":
        z, w = X["rel_mitigation_costs"], np.ones(T, bool)
    elif c.regime == "equal_total_costs":
        z, w = X["rel_mitigation_costs"] + X["damage_costs"] + X["rel_financial_transfer"], yrs <= 2100 + 1e-9
    else:
        z = None
    if z is not None:
        l = X["effort_sharing_common_level"][:, :, None]
        put("effort_hi", (1.005 * l - z) * 100, w)
        put("effort_lo", (z - 0.995 * l) * 100, w)
    if c.regime == "per_cap_convergence":
        d = c.pcshare[None] * X["global_emissions"][:, :, None] - X["regional_emission_allowances"]
        put("percap_hi", 0.001 - d, pos)
        put("percap_lo", 0.001 + d, pos)
    return out


# which property a broken limit belongs to
LIMIT_PROP = {
    "abatement_lo": "C17", "abatement_hi": "C17", "price_lo": "C17", "price_hi": "C17", "slr_thermal_lo": "C13",
    "slr_cumgsic_lo": "C13", "slr_cumgis_lo": "C13", "total_SLR_lo": "C13", "damage_slr_lo": "C14", "damage_slr_hi": "C14",
    "rel_mitigation_min": "C17", "cumulative_nonneg": "C19", "carbon_budget": "C19", "net_zero": "C19",
    "temperature_target": "C19", "global_inertia": "C20", "regional_inertia": "C20", "global_min": "C20",
    "regional_min": "C20", "non_increasing": "C20", "transfer_own_damage": "C22", "effort_hi": "C23", "effort_lo": "C23",
    "percap_hi": "C23", "percap_lo": "C23", "trade_zero_sum": "C21", "transfer_zero_sum": "C22", "path": "C26",
}
