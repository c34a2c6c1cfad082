import argparse
import hashlib
import importlib
import json
import os
import resource
import signal
import sys
import time
import traceback
import warnings

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
os.environ.setdefault("OPENCV_LOG_LEVEL", "ERROR")


class CaseTimeout(BaseException):
    pass


def one(mod, case, tmo):
    """None, or what failed.  An exception of the code under test is a failure
    of the property (all generated cases are within its precondition); a call
    that does not return within tmo seconds is a failure too."""
    from search.common import Broken
    import numpy as np

    def alarm(*a):
        raise CaseTimeout()

    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, tmo)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            return mod.check(case)
    except Broken as e:
        return str(e) or "property broken"
    except CaseTimeout:
        return f"did not return within {tmo} s"
    except SystemExit as e:
        return f"exited the process ({e.code})"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-4:]
        return f"unexpected {type(e).__name__}: {e} at {' > '.join(where)}"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=10)
    ap.add_argument("--max", type=int, default=10 ** 9)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    real_out = os.dup(1)
    quiet = os.open(os.devnull, os.O_WRONLY)
    os.dup2(quiet, 1)               # the code under test prints warnings
    import logging

    logging.disable(logging.CRITICAL)
    import numpy as np

    mod = importlib.import_module("search." + a.pid)
    tmo = getattr(mod, "TIMEOUT", 10)
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        r = one(mod, rep["input"], tmo) if rep.get("input") is not None else None
        sys.stdout.flush()
        os.dup2(real_out, 1)
        print("REPLAY", a.pid, "->", r if r else ("no failing input recorded" if rep.get("input") is None else "property held"))
        sys.exit(1 if r else 0)
    t0 = time.time()
    rng = np.random.default_rng(a.seed)
    n, seen, fails, samples, interesting = 0, set(), [], [], 0
    nontriv = getattr(mod, "nontrivial", lambda c: True)
    corners = list(mod.corners()) if hasattr(mod, "corners") else []
    k = 0
    while n < a.max:
        if k < len(corners):
            case = corners[k]
        else:
            if time.time() - t0 > a.budget or not hasattr(mod, "gen"):
                break
            case = mod.gen(rng, k - len(corners))
        k += 1
        case = json.loads(json.dumps(case))
        r = one(mod, case, tmo)
        n += 1
        h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).digest()[:8]
        if h not in seen:
            seen.add(h)
            if nontriv(case):
                interesting += 1
        if len(samples) < 2:
            s = json.dumps(case)
            samples.append(case if len(s) < 1500 else s[:1500] + "...")
        if r:
            fails.append(dict(input=case, what=r))
            if len(fails) >= 3:
                break
    res = dict(evaluations=n, distinct_nontrivial=interesting, samples=samples, failures=fails, wall=time.time() - t0,
               rule=getattr(mod, "RULE", "random cases; distinct by content"))
    with open(a.out, "w") as f:
        json.dump(res, f)


main()
