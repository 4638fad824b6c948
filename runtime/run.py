"""run.py PROP --seed N --seconds S --out FILE [--hints FILE] [--replay FILE]: search for an input on which the property fails."""
import argparse
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings

warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
import numpy as np
np.seterr(all="ignore")
import lib
import oneka
assert os.path.abspath(oneka.__file__).startswith(os.path.abspath(REPO) + os.sep), oneka.__file__

CASE_CPU = 60


def on_alarm(sig, frm):
    raise lib.Timeout()


def one(mod, case):
    signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, getattr(mod, "CASE_CPU", CASE_CPU))
    try:
        mod.check(case)
        return None
    except lib.Fail as e:
        return str(e)
    except lib.Timeout:
        return "did not finish within %d s of processor time" % getattr(mod, "CASE_CPU", CASE_CPU)
    except AssertionError as e:
        return "AssertionError: %s\n%s" % (e, traceback.format_exc(limit=-4))
    except Exception as e:
        return "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-4))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--seconds", type=float, default=8)
    ap.add_argument("--max", type=int, default=0)
    ap.add_argument("--out")
    ap.add_argument("--hints")
    ap.add_argument("--replay")
    a = ap.parse_args()
    mod = importlib.import_module("p_" + a.prop)
    env = {"inf": float("inf"), "nan": float("nan"), "np": np}
    if a.replay:
        d = json.load(open(a.replay))
        if not d.get("case"):
            print("no failing input recorded; verifier output:\n", d.get("verifier"))
            return 2
        for c in d.get("before", []) + [d["case"]]:
            msg = one(mod, eval(c, env))
        print("FAILS: " + msg if msg else "passes")
        return 1 if msg else 0
    L = lib.Lits(REPO)
    if a.hints:
        try:
            L.hints = [float(x) for x in json.load(open(a.hints))][:200]
        except (OSError, ValueError):
            pass
    rng = random.Random(a.seed * 1000003 + 17)
    np.random.seed(a.seed)
    t0 = time.time()
    n, kinds, history = 0, {}, []
    res = dict(property=a.prop, seed=a.seed, cases=0, failure=None)
    fixed = list(mod.fixed()) if hasattr(mod, "fixed") else []
    most = a.max or getattr(mod, "MAX", 10 ** 9)
    while True:
        if n < len(fixed):
            case = fixed[n]
        else:
            if time.time() - t0 > a.seconds or n >= most + len(fixed):
                break
            case = mod.gen(rng, L)
        n += 1
        k = case.get("kind", "case") if isinstance(case, dict) else "case"
        kinds[k] = kinds.get(k, 0) + 1
        src = repr(case)
        msg = one(mod, case)
        if msg is not None:
            again = one(mod, eval(src, env))
            res["failure"] = dict(case=src, message=msg, index=n - 1, repeats=again is not None,
                                  before=[] if again is not None else history[-20:])
            break
        history.append(src)
        if len(history) > 40:
            del history[:20]
    res.update(cases=n, kinds=kinds, seconds=round(time.time() - t0, 2), directed=min(n, len(fixed)))
    if a.out:
        json.dump(res, open(a.out, "w"))
    else:
        print(json.dumps(res, indent=1)[:3000])
    return 0


if __name__ == "__main__":
    sys.exit(main())
