"""Compares the verdict of the real problem (what the solver executable is handed)
with the verdict of the documented relations on many trajectories."""
import re
import numpy as np
from . import world as W, refmodel as M, attr

ACC = 1e-8          # rows/bounds with a relative violation below this are respected
TOL = 1e-5          # documented limits closer than this (scaled) are not judged


class Batch:
    """trajectories + how each was made"""

    def __init__(self):
        self.X, self.meta = [], []

    def add(self, X, metas):
        n = X["_ok"].shape[0]
        assert len(metas) == n
        self.X.append(X)
        self.meta += metas

    def merged(self):
        keys = set(self.X[0])
        return {k: np.concatenate([x[k] for x in self.X]) for k in keys}


def subset(X, idx):
    return {k: v[idx] for k, v in X.items()}


def judge(c, X, extra=None):
    """documented limits: per trajectory list of broken (name,t,r), and a 'not judged' flag"""
    N = X["_ok"].shape[0]
    broken = [[] for _ in range(N)]
    vague = ~X["_ok"].copy()
    sl = M.slacks(c, X)
    sl.update(extra or {})
    for name, s in sl.items():
        with np.errstate(invalid="ignore"):
            bad = s < -TOL
            near = (s >= -TOL) & (s < 1e-10)
        near &= ~(np.abs(s) <= 1e-14)          # zero by construction
        vague |= near.reshape(N, -1).any(axis=1)
        for loc in np.argwhere(bad):
            broken[loc[0]].append((name,) + tuple(int(i) for i in loc[1:]))
    return broken, vague


class Instance:
    def __init__(self, user, cfg=None, model=None, overrides=None):
        W.setup()
        self.user = user
        self.c = cfg or M.Cfg(user, overrides)
        self.dead, self.nl = None, None
        try:
            self.model = model or W.build(user)
        except Exception as e:
            self.dead = f"model cannot be built: {type(e).__name__}: {e}"
        if not self.dead:
            try:
                self.nl, self.cols, self.fixed = W.tagmap(self.model)
            except W.NoProblem as e:
                self.dead = f"no problem could be stated: {e}"
        if self.dead:
            return
        self.loose = set()       # variables whose definition was taken out
        self.ridx = {r: i for i, r in enumerate(self.c.regions)}
        self.col_names = {}
        for (name, idx), j in self.cols.items():
            self.col_names.setdefault(j, set()).add(name)

    def get(self, X, name, idx):
        a = X[name]
        return a[:, idx[0]] if a.ndim == 2 else a[:, idx[0], self.ridx[idx[1]]]

    def points(self, X):
        """-> (P (n,N), structural violations: list of (mask, text, prop))"""
        N = X["_ok"].shape[0]
        P = np.full((self.nl.n, N), np.nan)
        issues = []
        for (name, idx), j in self.cols.items():
            if name not in X:
                continue
            v = self.get(X, name, idx)
            if np.isnan(v).all():
                continue
            if not np.isnan(P[j]).all():
                d = np.abs(P[j] - v) > 1e-8 * (np.abs(v) + 1e-6)
                if d.any():
                    issues.append((d, f"{name}{list(idx)} is forced equal to another variable", attr.VAR_PROP.get(name)))
                continue
            P[j] = v
        for (name, idx), f in self.fixed.items():
            if name not in X or f is None or name == "effort_sharing_common_level" or name in self.loose:
                continue
            v = self.get(X, name, idx)
            if np.isnan(v).all():
                continue
            d = ~(np.abs(v - f) <= 1e-8 * (np.abs(v) + 1e-6))
            if d.any():
                issues.append((d, f"{name}{list(idx)} is fixed at {f!r}, documented {v[d][0]!r}", attr.VAR_PROP.get(name)))
        self._fill(P)
        return P, issues

    def _fill(self, P):
        """columns the documentation does not know: follow them from rows with one unknown"""
        unk = set(np.where(np.isnan(P).all(axis=1))[0])
        if not unk:
            return
        nl = self.nl
        eq = nl.is_eq
        rows = [i for i in range(nl.m) if eq[i]]
        for _ in range(50):
            done = True
            for i in rows:
                u = [j for j in nl.row_vars[i] if j in unk]
                if len(u) != 1:
                    continue
                j = u[0]
                x0 = np.full(P.shape[1], 1.0)
                Q = P.copy()

                def f(x):
                    Q[j] = x
                    return nl.body(Q)[0][i] - nl.lo[i]
                x1 = x0 * 1.01 + 1e-3
                f0, f1 = f(x0), f(x1)
                for _ in range(60):
                    with np.errstate(all="ignore"):
                        x2 = x1 - f1 * (x1 - x0) / (f1 - f0)
                    x2 = np.where(np.isfinite(x2), x2, x1)
                    x0, f0, x1 = x1, f1, x2
                    f1 = f(x1)
                    if np.max(np.abs(x1 - x0) / (np.abs(x1) + 1e-9)) < 1e-14:
                        break
                P[j] = x1
                unk.discard(j)
                done = False
            if done or not unk:
                break
        for j in unk:
            P[j] = 0.0     # free as far as anyone can tell

    def evaluate(self, X, chunk=400):
        """-> accepted mask, worst row id per trajectory (or -1 bound / -2 structural), issues"""
        P, issues = self.points(X)
        N = P.shape[1]
        worst = np.zeros(N)
        wrow = np.full(N, -1)
        self.badrows = [None] * N
        for a in range(0, N, chunk):
            Q = P[:, a:a + chunk]
            v = self.nl.violation(Q)
            b = self.nl.bound_violation(Q)
            for k in range(Q.shape[1]):
                bad = np.where(v[:, k] > ACC)[0]
                bb = np.where(b[:, k] > ACC)[0]
                self.badrows[a + k] = (bad, bb)
            worst[a:a + chunk] = np.maximum(v.max(axis=0) if len(v) else 0, b.max(axis=0))
        struct = np.zeros(N, bool)
        for d, _, _ in issues:
            struct |= d
        return (worst <= ACC) & ~struct, worst, issues

    def row_names(self, i):
        s = set()
        for j in self.nl.row_vars[i]:
            s |= self.col_names.get(j, {self.nl.cols[j].split("[")[0]})
        return s

    def row_props(self, i):
        names = self.row_names(i)
        out = attr.row_props(self.nl.rows[i], names, bool(self.nl.is_eq[i]))
        if self.c.trade == "notrade" and "mitigation_costs" in names and "C17" in out and "GDP_gross" not in names:
            out = out | {"C21"}
        if self.c.transfer == "notransfer" and "GDP_net" in names and "C16" in out:
            out = out | {"C22"}
        return out

    def col_props(self, j):
        names = self.col_names.get(j, set())
        out = {attr.VAR_PROP[n] for n in names if n in attr.VAR_PROP}
        if "relative_abatement" in names or "carbonprice" in names:
            out.add("C17")
        return out or {None}

    # -------------------------------------------------------------- the oracle
    def compare(self, X, metas, extra=None):
        """-> (mismatches, stats).  mismatch: dict(prop, what, meta)"""
        broken, vague = judge(self.c, X, extra)
        if self.dead:
            return self._dead(X, metas, broken, vague)
        acc, worst, issues = self.evaluate(X)
        out, stats = [], {"admitted": 0, "refused": 0, "skipped": 0}
        places = set()
        for n, meta in enumerate(metas):
            if vague[n]:
                stats["skipped"] += 1
                continue
            kind = meta["kind"]
            if kind == "mutant" and not broken[n]:
                # one definition broken, every limit respected: must be refused
                if acc[n]:
                    for p in attr.var_props(meta["var"], self.c):
                        out.append(dict(prop=p, meta=meta,
                                    what=f"a trajectory in which {meta['var']}[{meta['t']}{',' + meta['r'] if meta.get('r') else ''}] "
                                         f"is off its documented value by {meta['d']:.4g} satisfies the stated problem"))
                else:
                    stats["refused"] += 1
                    places.add(("def", meta["var"], meta["t"], meta.get("r")))
            elif kind == "mutant":
                stats["skipped"] += 1
            elif broken[n]:
                props = {M.LIMIT_PROP[b[0]] for b in broken[n]}
                if acc[n]:
                    for p in props:
                        b = next(b for b in broken[n] if M.LIMIT_PROP[b[0]] == p)
                        out.append(dict(prop=p, meta=meta, what=f"the limit {b[0]} is broken at year "
                                        f"{self.c.years[b[1]]:g}{' in ' + self.c.regions[b[2]] if len(b) > 2 else ''} "
                                        "but the trajectory satisfies the stated problem"))
                else:
                    stats["refused"] += 1
                    if len({b[0] for b in broken[n]}) == 1:
                        b = broken[n][0]
                        places.add(("limit",) + b[:1] + ((b[1],) if len(broken[n]) == 1 else ("several",)))
            else:
                if not acc[n]:
                    seen = set()
                    bad, bb = self.badrows[n]
                    for i in bad:
                        for p in self.row_props(i) - seen:
                            seen.add(p)
                            out.append(dict(prop=p, meta=meta, row=self.nl.rows[i], what=f"a trajectory obeying every documented relation "
                                            f"is refused by {self.nl.rows[i]}"))
                    for j in bb:
                        for p in self.col_props(j) - seen:
                            seen.add(p)
                            out.append(dict(prop=p, meta=meta, what=f"a trajectory obeying every documented relation is refused by the bounds of {self.nl.cols[j]}"))
                    for d, text, p in issues:
                        if d[n] and p not in seen:
                            seen.add(p)
                            out.append(dict(prop=p, meta=meta, what=text))
                else:
                    stats["admitted"] += 1
                    places.add(("admit", meta.get("tag", "")))
        return out, stats, places

    def _dead(self, X, metas, broken, vague):
        """every trajectory is refused"""
        out, stats = [], {"admitted": 0, "refused": 0, "skipped": 0}
        for n, meta in enumerate(metas):
            if vague[n] or meta["kind"] == "mutant":
                stats["skipped"] += 1
            elif broken[n]:
                stats["refused"] += 1
            else:
                m = re.search(r"(?:variable|constraint) '(\w+)", self.dead)
                name = m.group(1) if m else None
                p = attr.VAR_PROP.get(name) or attr.NAME_PROP.get(re.sub("^constraint_", "", name or "")) or "*"
                out.append(dict(prop=p, meta=meta, what="a trajectory obeying every documented relation is not admitted; " + self.dead[:200]))
                break
        return out, stats, set()

    def check_reported(self, X, n):
        """answer the solve with trajectory n; every reported value must be the documented one"""
        P, _ = self.points(subset(X, [n]))
        W.solve_with(self.model, P[:, 0], self.nl.m)
        vals = W.var_values(self.model)
        bad = []
        cnt = 0
        for name, kind in M.variables(self.c).items():
            for t in range(self.c.T):
                if t == 0 and name in M.UNDEF0:
                    continue
                for r in (self.c.regions if kind == "r" else [None]):
                    idx = (t,) if r is None else (t, r)
                    ref = self.get(X, name, idx)[n]
                    if np.isnan(ref) or name == "effort_sharing_common_level":
                        continue
                    v = vals.get((name, idx))
                    cnt += 1
                    if v is None or not abs(v - ref) <= 1e-7 * (abs(ref) + 1e-4):
                        bad.append((name, idx, v, float(ref)))
        return bad, cnt
