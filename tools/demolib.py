"""Helpers of a demonstration: states a problem with the code of the current
directory and asks which of its conditions given values break."""
import contextlib, io, logging, os, sys, tempfile, warnings
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)
import numpy as np
with contextlib.redirect_stdout(io.StringIO()):
    import mimosa
    from mimosa import MIMOSA, load_params
from pyomo.core.expr.visitor import identify_variables
from pyomo.environ import Constraint, Objective, Var, value

SCRATCH = tempfile.mkdtemp(prefix="demo_")
import atexit, shutil
atexit.register(shutil.rmtree, SCRATCH, True)


class Stated(MIMOSA):
    """the problem as stated: nothing eliminated"""

    def preprocessing(self):
        pass

    def postprocessing(self):
        pass


def params(regions=("CAN", "INDIA"), **kw):
    """default parameters; keyword names are the joined nested names"""
    p = load_params()
    p["regions"] = {r: {} for r in regions} if not isinstance(regions, dict) else regions
    return put(p, kw)


def put(p, kw):
    for k, v in kw.items():
        d = p
        *groups, last = k.split(" - ")
        for g in groups:
            d = d[g]
        d[last] = v
    return p


def build(p, cls=None):
    with contextlib.redirect_stdout(io.StringIO()):
        return (cls or Stated)(p)


def stated(regions=("CAN", "INDIA"), **kw):
    m = build(params(regions, **kw)).concrete_model
    m.T = list(m.t)
    m.years = [float(m.year(t)) for t in m.T]
    m.R = list(m.regions)
    return m


def broken(m, values, tol=1e-7):
    """names of active constraints and bounds, all of whose variables are given
    in values {variable: number, {index: number} or function of the index}, that they break"""
    known = {}
    for name, v in values.items():
        for idx in getattr(m, name):
            x = v(*(idx if isinstance(idx, tuple) else (idx,))) if callable(v) else v.get(idx) if isinstance(v, dict) else v
            if x is not None:
                d = getattr(m, name)[idx]
                d.set_value(float(value(x)), skip_validation=True)
                known[id(d)] = d
    bad = []
    for d in known.values():
        lo, hi = d.bounds
        if (lo is not None and d.value < lo - tol) or (hi is not None and d.value > hi + tol):
            bad.append("bounds of " + d.name)
    for c in m.component_data_objects(Constraint, active=True):
        vs = list(identify_variables(c.body, include_fixed=True))
        if not vs or not all(id(x) in known or x.fixed for x in vs):
            continue
        b = value(c.body)
        s = tol * (1 + abs(b))
        if (c.lower is not None and b < value(c.lower) - s) or (c.upper is not None and b > value(c.upper) + s) or b != b:
            bad.append(c.name)
    return bad


def check(ok, what):
    if not ok:
        print("BROKEN:", what)
        sys.exit(1)


def admits(m, values, what, tol=1e-7):
    bad = broken(m, values, tol)
    check(not bad, f"{what}: excluded by {bad[:3]}")


def excludes(m, values, what, tol=1e-7):
    check(broken(m, values, tol), f"{what}: admitted")


def refused(fn, what):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            fn()
    except BaseException as e:
        return e
    check(False, what + ": accepted")
