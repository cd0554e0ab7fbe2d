"""Runs the real code of /repo in this process with a stand-in solver executable
that records what it is given and answers what the monitor decides."""
import contextlib, io, os, shutil, sys, tempfile, warnings, logging

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MON_REPO", "/repo")
sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

import numpy as np
from .nl import NL

_scratch = None


def setup():
    """private scratch directory; solver stand-in first on PATH"""
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        d = tempfile.mkdtemp(prefix="mimosa_mon_")
        _scratch = (os.getpid(), d)
        os.makedirs(d + "/stub"); os.makedirs(d + "/tmp"); os.makedirs(d + "/cwd")
        os.environ["MON_STUB_DIR"] = d + "/stub"
        os.environ["TMPDIR"] = d + "/tmp"
        tempfile.tempdir = d + "/tmp"
        os.environ["PATH"] = HERE + "/stub:" + os.environ["PATH"].replace(HERE + "/stub:", "")
        os.chdir(d + "/cwd")
        warnings.filterwarnings("ignore")
        logging.disable(logging.CRITICAL)
        try:
            from pyomo.common.tempfiles import TempfileManager
            TempfileManager.tempdir = d + "/tmp"
        except Exception:
            pass
    return _scratch[1]


def cleanup():
    if _scratch and _scratch[0] == os.getpid():
        os.chdir("/")
        shutil.rmtree(_scratch[1], ignore_errors=True)


@contextlib.contextmanager
def quiet():
    so, se = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = so, se


def mimosa():
    with quiet():
        import mimosa
    return mimosa


def build(params):
    mi = mimosa()
    with quiet():
        return mi.MIMOSA(params)


def stub_dir():
    return setup() + "/stub"


def behave(script):
    with open(stub_dir() + "/behave.sh", "w") as f:
        f.write(script)


def write_sol(path, x, ncon, code=0, message="Ipopt 3.14.12: Optimal Solution Found"):
    with open(path, "w") as f:
        f.write(f"{message}\n\nOptions\n3\n0\n1\n0\n{ncon}\n0\n{len(x)}\n{len(x)}\n")
        for v in x:
            f.write(repr(float(v)) + "\n")
        f.write(f"objno 0 {code}\n")


ANSWER = 'cp "$D/answer.sol" "$base.sol"\nexit 0\n'


def read_problem():
    d = stub_dir()
    rd = lambda e: open(f"{d}/p.{e}").read()
    return NL(rd("nl"), rd("col").split("\n")[:-1], rd("row").split("\n")[:-1])


class Problem:
    """captured problem of one MIMOSA object + which column stands for which variable"""


def solve_raw(model, **kw):
    kw.setdefault("verbose", False)
    with quiet():
        return model.solve(**kw)


def capture_text(model):
    """let the model solve once with a solver that fails; return the problem files"""
    setup()
    behave("exit 1\n")
    d = stub_dir()
    for e in ("nl", "col", "row"):
        with contextlib.suppress(FileNotFoundError):
            os.remove(f"{d}/p.{e}")
    err = None
    try:
        solve_raw(model)
    except Exception as e:
        err = e
    if not os.path.exists(f"{d}/p.nl"):
        raise NoProblem(f"{type(err).__name__}: {err}")
    return read_problem()


class NoProblem(Exception):
    """nothing was handed to the solver"""


def var_values(model):
    """{(name, index): value} of every model variable (as reported)"""
    from pyomo.environ import Var
    out = {}
    for v in model.concrete_model.component_objects(Var):
        if v.name.startswith("_"):
            continue
        for idx in v:
            out[v.name, idx if isinstance(idx, tuple) else (idx,)] = v[idx].value
    return out


def solve_with(model, x, ncon, code=0, **kw):
    d = stub_dir()
    write_sol(d + "/answer.sol", x, ncon, code)
    behave(ANSWER)
    solve_raw(model, **kw)


UNSET = -54321.875


class Neos:
    """stands in for the remote service: the same stand-in solver, reached through the manager"""
    asked = []
    forced = None

    def __init__(self, *a, **k):
        pass

    def solve(self, model, opt=None, **kw):
        from pyomo.environ import SolverFactory
        Neos.asked.append((opt if isinstance(opt, str) else getattr(opt, "name", opt), os.environ.get("NEOS_EMAIL")))
        # the service always runs ipopt here, whatever local name stands for the remote solver
        res = SolverFactory("ipopt").solve(model)
        if Neos.forced is not None:
            res.solver.status = Neos.forced
        return res


def neos():
    """let the remote solver manager be the stand-in (there is no network here)"""
    mimosa()
    from pyomo.opt import SolverManagerFactory
    if SolverManagerFactory._cls.get("neos") is not Neos:
        SolverManagerFactory.register("neos", doc="stand-in")(Neos)
    Neos.asked.clear()
    Neos.forced = None


def tagmap(model):
    """first capture, then answer with a unique tag per column and read back where it
    ended up.  -> (NL, {(name, idx): column}, {(name, idx): fixed value})"""
    setup()
    nl = capture_text(model)
    tags = 1000.0 + np.arange(nl.n) + 0.123456789
    # whatever neither the solver nor the elimination sets keeps this value
    from pyomo.environ import Var
    for v in model.concrete_model.component_objects(Var):
        for idx in v:
            if not v[idx].fixed:
                v[idx].set_value(UNSET, skip_validation=True)
    solve_with(model, tags, nl.m)
    nl2 = read_problem()
    if nl2.n != nl.n or nl2.m != nl.m:
        raise RuntimeError("the problem changed between two solves of one model")
    vals = var_values(model)
    lookup = {round(t, 6): j for j, t in enumerate(tags)}
    cols, fixed = {}, {}
    for k, v in vals.items():
        if v is None or v == UNSET:
            fixed[k] = None
            continue
        j = lookup.get(round(float(v), 6))
        if j is not None and abs(tags[j] - v) < 1e-5:
            cols[k] = j
        else:
            fixed[k] = float(v)
    return nl2, cols, fixed
