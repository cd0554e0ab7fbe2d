"""Parser and vectorised evaluator for the text .nl problem files that MIMOSA
hands to the solver executable.  Independent of Pyomo."""
import math
import numpy as np
from scipy.sparse import csr_matrix

UNARY = {
    13: np.floor, 14: np.ceil, 15: np.abs, 16: np.negative,
    37: np.tanh, 38: np.tan, 39: np.sqrt, 40: np.sinh, 41: np.sin,
    42: np.log10, 43: np.log, 44: np.exp, 45: np.cosh, 46: np.cos,
    47: np.arctanh, 49: np.arctan, 50: np.arcsinh, 51: np.arcsin,
    52: np.arccosh, 53: np.arccos,
}
BINARY = {0: np.add, 1: np.subtract, 2: np.multiply, 3: np.divide, 5: np.power, 48: np.arctan2}


class NLError(Exception):
    pass


class NL:
    """bodies = A x + nonlinear(x);  lo <= body <= hi;  xl <= x <= xu"""

    def __init__(self, text, colnames, rownames):
        self.cols = colnames
        self.rows = rownames
        self._parse(text)
        self._group()

    # ------------------------------------------------------------------ parse
    def _parse(self, text):
        lines = text.split("\n")
        if not lines[0].startswith("g"):
            raise NLError("not a text nl file")
        strip = lambda s: s.split("#", 1)[0].strip()
        h1 = strip(lines[1]).split()
        self.n, self.m, self.nobj = int(h1[0]), int(h1[1]), int(h1[2])
        n, m = self.n, self.m
        pos = 10
        L = len(lines)
        self.lo = np.full(m, -np.inf)
        self.hi = np.full(m, np.inf)
        self.xl = np.full(n, -np.inf)
        self.xu = np.full(n, np.inf)
        self.x0 = np.zeros(n)
        self.con_expr = [None] * m
        self.obj_expr = None
        self.obj_sense = None
        self.obj_lin = {}
        self.defs = {}
        jr, jc, jv = [], [], []

        def read_expr(p):
            # returns (tree, p)
            tok = strip(lines[p])
            p += 1
            k = tok[0]
            if k == "n":
                return ("n", float(tok[1:])), p
            if k == "v":
                return ("v", int(tok[1:])), p
            if k == "o":
                op = int(tok[1:])
                if op == 54 or op in (11, 12):
                    cnt = int(strip(lines[p]))
                    p += 1
                    args = []
                    for _ in range(cnt):
                        a, p = read_expr(p)
                        args.append(a)
                    return ("o", op, tuple(args)), p
                if op in UNARY:
                    a, p = read_expr(p)
                    return ("o", op, (a,)), p
                if op in BINARY:
                    a, p = read_expr(p)
                    b, p = read_expr(p)
                    return ("o", op, (a, b)), p
                raise NLError(f"operator o{op} not supported")
            raise NLError(f"token {tok!r}")

        while pos < L:
            s = strip(lines[pos])
            if not s:
                pos += 1
                continue
            k = s[0]
            if k == "C":
                i = int(s[1:])
                e, pos = read_expr(pos + 1)
                self.con_expr[i] = e
            elif k == "O":
                parts = s[1:].split()
                self.obj_sense = "max" if int(parts[1]) == 1 else "min"
                e, pos = read_expr(pos + 1)
                self.obj_expr = e
            elif k == "V":
                i, nlin, _ = (int(x) for x in s[1:].split())
                pos += 1
                lin = []
                for _ in range(nlin):
                    a, b = strip(lines[pos]).split()
                    lin.append((int(a), float(b)))
                    pos += 1
                e, pos = read_expr(pos)
                for j, c in lin:
                    e = ("o", 0, (e, ("o", 2, (("n", c), ("v", j)))))
                self.defs[i] = e
            elif k == "x":
                cnt = int(s[1:])
                pos += 1
                for _ in range(cnt):
                    a, b = strip(lines[pos]).split()
                    self.x0[int(a)] = float(b)
                    pos += 1
            elif k == "d":
                pos += 1 + int(s[1:])
            elif k == "r" or k == "b":
                if k == "r":
                    lo, hi, cnt = self.lo, self.hi, m
                else:
                    lo, hi, cnt = self.xl, self.xu, n
                pos += 1
                for i in range(cnt):
                    p = strip(lines[pos]).split()
                    pos += 1
                    t = p[0]
                    if t == "0":
                        lo[i], hi[i] = float(p[1]), float(p[2])
                    elif t == "1":
                        hi[i] = float(p[1])
                    elif t == "2":
                        lo[i] = float(p[1])
                    elif t == "3":
                        pass
                    elif t == "4":
                        lo[i] = hi[i] = float(p[1])
                    else:
                        raise NLError("bound type " + t)
            elif k == "k":
                pos += 1 + int(s[1:])
            elif k == "J":
                i, cnt = (int(x) for x in s[1:].split())
                pos += 1
                for _ in range(cnt):
                    a, b = strip(lines[pos]).split()
                    jr.append(i); jc.append(int(a)); jv.append(float(b))
                    pos += 1
            elif k == "G":
                i, cnt = (int(x) for x in s[1:].split())
                pos += 1
                for _ in range(cnt):
                    a, b = strip(lines[pos]).split()
                    self.obj_lin[int(a)] = float(b)
                    pos += 1
            elif k == "S":
                # suffix: S<kind> <count> <name>
                pos += 1 + int(s[1:].split()[1])
            else:
                raise NLError(f"segment {s!r}")
        self.J_pattern = csr_matrix((np.ones(len(jr)), (jr, jc)), shape=(m, n))
        self.A = csr_matrix((jv, (jr, jc)), shape=(m, n))
        self.Aabs = abs(self.A)
        if len(self.cols) != n or len(self.rows) < m:
            raise NLError("label files do not match the problem size")

    # ------------------------------------------------------------------ group
    def _inline(self, e):
        if not self.defs:
            return e
        if e[0] == "v" and e[1] >= self.n:
            return self._inline(self.defs[e[1]])
        if e[0] == "o":
            return ("o", e[1], tuple(self._inline(a) for a in e[2]))
        return e

    def _group(self):
        groups = {}
        self.row_vars = []
        lin = self.J_pattern.tolil().rows
        for i, e in enumerate(self.con_expr):
            vs, cs = [], []
            if e is not None:
                e = self._inline(e)
                key = _shape(e, vs, cs)
                if key != "n" or cs[0] != 0.0:
                    groups.setdefault(key, ([], [], [], e))
                    g = groups[key]
                    g[0].append(i); g[1].append(vs); g[2].append(cs)
            self.row_vars.append(sorted(set(vs) | set(lin[i])))
        self.groups = []
        for key, (ids, vs, cs, e) in groups.items():
            self.groups.append((np.array(ids), np.array(vs, dtype=int).reshape(len(ids), -1),
                                np.array(cs, dtype=float).reshape(len(ids), -1), e))
        if self.obj_expr is not None:
            self.obj_expr = self._inline(self.obj_expr)

    # --------------------------------------------------------------- evaluate
    def body(self, X):
        """X: (n, N) -> body (m, N), magnitude (m, N)"""
        with np.errstate(all="ignore"):
            out = self.A @ X
            mag = self.Aabs @ np.abs(X)
            for ids, vs, cs, e in self.groups:
                val = _eval(e, X, vs, cs, [0, 0])
                val = np.broadcast_to(val, (len(ids), X.shape[1]))
                out[ids] += val
                mag[ids] += np.abs(val)
        return out, mag

    def violation(self, X, body_mag=None):
        """relative violation of every row, (m, N); nan -> inf"""
        b, mag = body_mag if body_mag is not None else self.body(X)
        lo = self.lo[:, None]; hi = self.hi[:, None]
        with np.errstate(all="ignore"):
            v = np.maximum(np.where(np.isfinite(lo), lo - b, 0.0), np.where(np.isfinite(hi), b - hi, 0.0))
            v = np.maximum(v, 0.0)
            # a row without variables is a difference of constants: nothing tells its scale
            s = mag + np.array([1e-6 if r else 1.0 for r in self.row_vars])[:, None]
            v = v / s
        v[np.isnan(b)] = np.inf
        return v

    def bound_violation(self, X):
        with np.errstate(all="ignore"):
            v = np.maximum(self.xl[:, None] - X, X - self.xu[:, None])
            v = np.where(np.isfinite(v), np.maximum(v, 0), np.where(v == -np.inf, 0, v))
            v = v / (np.abs(X) + 1e-6)
        v[np.isnan(X)] = np.inf
        return v

    @property
    def is_eq(self):
        return self.lo == self.hi

    def objective(self, X):
        val = np.zeros(X.shape[1])
        if self.obj_expr is not None:
            vs, cs = [], []
            _shape(self.obj_expr, vs, cs)
            val = val + np.broadcast_to(_eval(self.obj_expr, X, np.array([vs], dtype=int).reshape(1, -1),
                                              np.array([cs]).reshape(1, -1), [0, 0]), (1, X.shape[1]))[0]
        for j, c in self.obj_lin.items():
            val = val + c * X[j]
        return val


def _shape(e, vs, cs):
    if e[0] == "n":
        cs.append(e[1])
        return "n"
    if e[0] == "v":
        vs.append(e[1])
        return "v"
    return f"o{e[1]}({','.join([_shape(a, vs, cs) for a in e[2]])})"


def _eval(e, X, vs, cs, c):
    k = e[0]
    if k == "n":
        r = cs[:, c[1]][:, None]
        c[1] += 1
        return r
    if k == "v":
        r = X[vs[:, c[0]]]
        c[0] += 1
        return r
    op = e[1]
    if op == 54:
        r = _eval(e[2][0], X, vs, cs, c)
        for a in e[2][1:]:
            r = r + _eval(a, X, vs, cs, c)
        return r
    if op in (11, 12):
        args = [_eval(a, X, vs, cs, c) for a in e[2]]
        f = np.minimum if op == 11 else np.maximum
        r = args[0]
        for a in args[1:]:
            r = f(r, a)
        return r
    if op in UNARY:
        return UNARY[op](_eval(e[2][0], X, vs, cs, c))
    a = _eval(e[2][0], X, vs, cs, c)
    b = _eval(e[2][1], X, vs, cs, c)
    return BINARY[op](a, b)
