"""Runs the cases of one check on all cores, writes evidence, reports violations."""
import collections, json, os, signal, sys, time, traceback
import multiprocessing as mp
from . import world as W

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")


class CaseTimeout(BaseException):
    pass


def plain(x):
    """the same value with keys and members that JSON can hold"""
    if isinstance(x, dict):
        return {k if isinstance(k, str) else repr(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [plain(v) for v in x]
    if x is None or isinstance(x, (str, bool, int, float)):
        return x
    return str(x)


class Result:
    """what one case observed"""

    def __init__(self):
        self.evals = 0
        self.places = set()          # distinct non-trivial things observed
        self.events = collections.Counter()
        self.bad = []                # violations: (text, detail)
        self.known = []
        self.sample = None
        self.error = None

    def fail(self, what, **detail):
        if len(self.bad) < 5:
            self.bad.append((str(what), detail))
        self.events["violations"] += 1

    def saw(self, *key):
        self.places.add(key)


def repo_frames(exc):
    tb, out = exc.__traceback__, []
    while tb:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(W.REPO + "/"):
            out.append(f"{os.path.relpath(f, W.REPO)}:{tb.tb_lineno}")
        tb = tb.tb_next
    return out


def _alarm(*_):
    raise CaseTimeout()


_FN = {}


def _one(a):
    prop, seed, i, tier, limit = a
    fn = _FN[prop]
    res = Result()
    W.setup()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    so = sys.stdout
    try:
        fn(res, seed, i, tier)
    except CaseTimeout:
        res.error = f"case {i} took longer than {limit} s"
    except Exception as e:
        fr = repo_frames(e)
        if fr and (not isinstance(e, (MemoryError, OSError)) or isinstance(e, (FileNotFoundError, NotADirectoryError, IsADirectoryError))):
            res.fail(f"the code fails on a legal input: {type(e).__name__}: {str(e)[:300]} at {fr[-1]}",
                     trace=traceback.format_exc()[-1500:])
        else:
            res.error = traceback.format_exc()[-2000:]
    finally:
        signal.alarm(0)
        sys.stdout = so
    return i, res


def _init():
    W._scratch = None
    W.setup()
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _stop(*_):
    raise SystemExit(3)


def run(prop, fn, n, rule, level="exploration", limit=90, deadline=600, replay=None, assumptions=(), maxtasks=40):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    os.makedirs(EVID, exist_ok=True)
    scratch = W.setup()
    if replay:
        d = json.load(open(replay))
        seed, tier, todo = d["seed"], d["tier"], [d["case"]]
    else:
        todo = list(range(n[0] if tier == "quick" else n[1]))
    try:
        W.mimosa()
        broken = None
    except Exception as e:
        broken = f"importing mimosa fails: {type(e).__name__}: {e}"
    agg = Result()
    done, errors, first, samples, sets = 0, [], [], [], set()
    if broken:
        errors.append(broken)
    else:
        cut = time.time() + (deadline if tier == "quick" else 3600)
        _FN[prop] = fn
        jobs = [(prop, seed, i, tier, limit if tier == "quick" else 4 * limit) for i in todo]
        nproc = min(int(os.environ.get("MON_PROCS", "8")), len(jobs))
        if replay:
            signal.signal(signal.SIGALRM, _alarm)
            it = map(_one, jobs)
            pool = None
        else:
            pool = mp.get_context("fork").Pool(nproc, _init, maxtasksperchild=maxtasks)
            it = pool.imap_unordered(_one, jobs)
        try:
            while True:
                try:
                    i, r = it.next(timeout=max(1, cut - time.time())) if pool else next(it)
                except StopIteration:
                    break
                except mp.TimeoutError:
                    errors.append("ran out of time")
                    break
                done += 1
                agg.evals += r.evals
                agg.places |= r.places
                agg.events.update(r.events)
                if r.error:
                    errors.append(r.error)
                for k in r.known:
                    sets.add(k)
                if r.sample is not None and len(samples) < 4:
                    samples.append(r.sample)
                for what, detail in r.bad:
                    first.append((i, what, detail))
        finally:
            if pool:
                pool.terminate()
                pool.join()
    first.sort(key=lambda x: x[0])
    for k in sorted(sets):
        print(f"KNOWN-FINDING: property={prop} {k}")
    code = 0
    if first:
        code = 1
        for q, (i, what, detail) in enumerate(first[:3]):
            path = os.path.join("evidence", f"replay_{prop}_{q}.json")
            with open(os.path.join(ROOT, path), "w") as f:
                json.dump(plain(dict(property=prop, seed=seed, tier=tier, case=i, what=what, detail=detail,
                                     how=f"python check.py {prop} --replay {path}")), f, indent=1)
            print(f"  {what[:600]}")
            print(f"VIOLATION property={prop} replay={path}")
    elif errors:
        code = 2
        print("INCONCLUSIVE:", len(errors), "errors; first:", errors[0][-1500:])
    ev = dict(property=prop, tier=tier, seed=seed, level=level,
              coverage=dict(evaluations=agg.evals, distinct_nontrivial=len(agg.places), rule=rule, samples=samples,
                            cases=done, observed={k: int(v) for k, v in sorted(agg.events.items())}),
              assumptions=list(assumptions), wall_s=round(time.time() - t0, 2), violations=len(first))
    if not replay:
        with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
            json.dump(plain(ev), f, indent=1)
    print(f"{prop} tier={tier} seed={seed} cases={done} evaluations={agg.evals} distinct={len(agg.places)} "
          f"observed={dict(agg.events)} wall={ev['wall_s']}s exit={code}")
    W.cleanup()
    return code
