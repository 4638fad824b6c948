#!/usr/bin/env python3-vt
"""check.py PROPERTY: decides one property of /repo's working tree.

1. Every contract task of the property (contracts/PROPERTY.py) is generated from /repo's current source and its
   obligations are given to the solvers (one process per task).
2. At the same time the project's own interpreter searches for an input on which the property fails (runtime/p_PROPERTY.py):
   this replays the verifier's countermodels, and is the bounded stand-in for what the verifier cannot decide.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from tools.meta import META, TRUST  # noqa: E402

RT_PY = "/opt/venv/bin/python"
RT_ENV = dict(os.environ, MPLBACKEND="Agg", MPLCONFIGDIR="/opt/vp/mplconfig", PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=REPO, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
              PYTHONHASHSEED="0")


def task_count(prop):
    p = os.path.join(VERIF, "contracts", prop + ".py")
    if not os.path.isfile(p):
        return 0, ""
    r = subprocess.run([sys.executable, "-B", "-c", "import sys; sys.path.insert(0, %r); import importlib; print(len(list(importlib.import_module('contracts.%s').tasks())))" % (VERIF, prop)],
                       capture_output=True, text=True, cwd=VERIF)
    try:
        return int(r.stdout.strip().split("\n")[-1]), ""
    except ValueError:
        return 0, r.stderr[-2000:]


class Runtime:
    """Searches for a failing input in the background."""

    def __init__(self, prop, work, seed, seconds, tag, hints=None):
        self.out = os.path.join(work, "runtime%s.json" % tag)
        cmd = [RT_PY, "-B", "-W", "ignore", os.path.join(VERIF, "runtime", "run.py"), prop, "--seed", str(seed), "--seconds", str(seconds), "--out", self.out]
        if hints:
            h = os.path.join(work, "hints%s.json" % tag)
            json.dump(hints, open(h, "w"))
            cmd += ["--hints", h]
        self.log = os.path.join(work, "runtime%s.log" % tag)
        self.limit = time.time() + seconds + 150
        self.p = subprocess.Popen(cmd, env=RT_ENV, stdout=open(self.log, "w"), stderr=subprocess.STDOUT, cwd=work, start_new_session=True)

    def found(self):
        """A failing input has been found already."""
        if self.p.poll() is None:
            return False
        try:
            return bool(json.load(open(self.out)).get("failure"))
        except (OSError, ValueError):
            return False

    def wait(self):
        try:
            self.p.wait(max(1, self.limit - time.time()))
        except subprocess.TimeoutExpired:
            stop(self.p)
            return dict(error="did not finish", cases=0, failure=None)
        try:
            return json.load(open(self.out))
        except (OSError, ValueError):
            return dict(error=open(self.log).read()[-3000:], cases=0, failure=None)


def stop(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass
    p.wait()


def prove(prop, idx, work, scale, limit, width=5, rts=(), grace=30):
    """Runs the contract tasks.  Once a failing input is known they get `grace` more seconds to name what fails."""
    todo = list(idx)
    running, results = {}, {}
    known = None
    while todo or running:
        if known is None and any(r.found() for r in rts):
            known = time.time()
        if known is not None and time.time() - known > grace:
            for i in todo:
                results[i] = dict(task="task %d" % i, status="stopped", reason="a failing input was found first", obligations=[], functions=[], contracts=[], library=[], seconds=0, paths=0)
            todo, limit = [], 0
        while todo and len(running) < width:
            i = todo.pop(0)
            out = os.path.join(work, "task%d.json" % i)
            if os.path.exists(out):
                os.unlink(out)
            log = open(os.path.join(work, "task%d.log" % i), "w")
            running[i] = (subprocess.Popen([sys.executable, "-B", os.path.join(VERIF, "engine", "worker.py"), prop, str(i), REPO, out, str(scale)], stdout=log, stderr=subprocess.STDOUT,
                                           cwd=VERIF, start_new_session=True), time.time(), out)
        time.sleep(0.05)
        for i, (p, t, out) in list(running.items()):
            if p.poll() is None and time.time() - t < limit:
                continue
            if p.poll() is None:
                stop(p)
                results[i] = dict(task="task %d" % i, status="timeout", reason="stopped after %d s" % (time.time() - t), obligations=[], functions=[], contracts=[], library=[], seconds=round(time.time() - t, 2), paths=0)
            else:
                try:
                    results[i] = json.load(open(out))
                except (OSError, ValueError):
                    results[i] = dict(task="task %d" % i, status="unsupported", reason="verifier ended: " + open(os.path.join(work, "task%d.log" % i)).read()[-500:], obligations=[],
                                      functions=[], contracts=[], library=[], seconds=round(time.time() - t, 2), paths=0)
            del running[i]
    return results


def findings(prop):
    """Known findings: lines 'finding: property=<id> match=<regular expression> :: <what fails>'."""
    out = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) match=(.*?) :: (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    meta = META[prop]
    work = os.path.join(VERIF, ".work", "%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        return decide(prop, tier, seed, t0, meta, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, tier, seed, t0, meta, work):
    thorough = tier == "thorough"
    rts = [Runtime(prop, work, seed * 100 + k if k else seed, 150 if thorough else meta.get("rt", 8), "a%d" % k) for k in range(4 if thorough else 1)]
    n, err = task_count(prop)
    results = prove(prop, range(n), work, 2.0 if thorough else 1.0, 400 if thorough else meta.get("limit", 100), rts=rts)
    again = [i for i, r in results.items() if r["status"] == "timeout" or r["status"] == "unknown" and any(o["result"] in ("unknown", "not attempted") for o in r["obligations"])]
    bad = [i for i, r in results.items() if r["status"] != "proved"]
    hints = []
    for i in bad:
        for o in results[i]["obligations"]:
            hints += [float(v) for v in o.get("model", {}).values() if isinstance(v, (int, float)) and not isinstance(v, bool) and abs(v) < 1e15]
    if bad or err:
        # something is not proved: search harder, the countermodels' numbers included
        rts += [Runtime(prop, work, seed + 7000 + k, 150 if thorough else meta.get("rt_more", 40), "b%d" % k, hints) for k in range(3)]
        if again and not any(r.found() for r in rts):
            r2 = prove(prop, again, work, 3.0, 400 if thorough else 150, width=4, rts=rts)
            for i, r in r2.items():
                if r["status"] in ("proved", "refuted"):
                    r["second_attempt"] = True
                    results[i] = r
    bad = [i for i, r in results.items() if r["status"] != "proved"]
    outs = []
    for r in rts:
        outs.append(r.wait())
        if outs[-1].get("failure"):
            for q in rts:
                if q.p.poll() is None:
                    stop(q.p)
            break
    failure = next((o["failure"] for o in outs if o.get("failure")), None)
    broken = [o["error"] for o in outs if o.get("error")]
    obls = [(results[i], o) for i in sorted(results) for o in results[i]["obligations"]]
    failed = [(r, o) for r, o in obls if o["result"] != "proved"]
    definite = [(r, o) for r, o in failed if o.get("definite")]
    lines, code, violations = [], 0, 0
    replay = os.path.join(VERIF, ".work", "replay", "%s-%s-%d.json" % (prop, tier, seed))
    known = findings(prop)
    for _, what in known:
        lines.append("KNOWN-FINDING: property=%s %s" % (prop, what))
    if failure is not None and any(re.search(p, failure["message"]) for p, _ in known):
        failure = None
    if failure is not None or definite:
        os.makedirs(os.path.dirname(replay), exist_ok=True)
        json.dump(dict(property=prop, case=failure["case"] if failure else None, before=failure["before"] if failure else [], message=failure["message"] if failure else None,
                       how="VERIF_REPO=/repo %s %s %s --replay %s" % (RT_PY, os.path.join(VERIF, "runtime", "run.py"), prop, replay),
                       failed_obligations=[dict(o, task=r["task"], function=r["func"]) for r, o in failed][:20],
                       verifier=[dict(task=r["task"], obligation=o["name"], result=o["result"], goal=o.get("goal"), model=o.get("model")) for r, o in failed][:20]), open(replay, "w"), indent=1)
        violations = 1
        code = 1
        if failure:
            lines.append("failing input: %s" % failure["case"][:1500])
            lines.append("what fails: %s" % failure["message"][:1500])
        for r, o in failed[:6]:
            lines.append("obligation not discharged: %s / %s (%s)" % (r["task"], o["name"], o["result"]))
        lines.append("VIOLATION property=%s replay=%s%s" % (prop, replay, "" if failure else " no-failing-input-found"))
    else:
        for r in results.values():
            if r["status"] != "proved":
                lines.append("not proved (bounded search stands in): %s: %s %s" % (r["task"], r["status"], r["reason"]))
        for r, o in failed[:6]:
            lines.append("   open obligation: %s / %s (%s)" % (r["task"], o["name"], o["result"]))
    if code == 0 and len(broken) == len(outs) and bad:
        # nothing was decided at all: neither the verifier nor the search gave an answer
        print("\n".join(lines))
        print("ERROR: no answer: %s" % broken[0])
        code = 2
    real = [(r, o) for r, o in obls if not r.get("bounded")]
    bnd = [(r, o) for r, o in obls if r.get("bounded")]
    ok = [o for r, o in real if o["result"] == "proved"]
    backs = {}
    for r, o in obls:
        if o["result"] == "proved":
            backs[o["backend"]] = backs.get(o["backend"], 0) + 1
    lib = sorted({m for r in results.values() for m in r["library"]})
    cov = dict(
        obligations=len(real), discharged=len(ok), checker_cmd="python3-vt /verif/check.py %s" % prop,
        trusted_base=TRUST + meta.get("trust", []) + ["library model: " + m for m in lib],
        functions_under_contract=sorted({r["func"] for r in results.values() if r.get("func")}),
        functions_verified_inline=sorted({f for r in results.values() for f in r["functions"]}),
        callee_contracts_used=sorted({f for r in results.values() for f in r["contracts"]}),
        back_ends=backs, solver_seconds=round(sum(o["seconds"] for r, o in obls), 2),
        tasks=[dict(task=r["task"], status=r["status"], reason=r["reason"], paths=r["paths"], obligations=len(r["obligations"]), discharged=sum(o["result"] == "proved" for o in r["obligations"]),
                    seconds=r["seconds"], **({"bounded": r["bounded"]} if r.get("bounded") else {})) for _, r in sorted(results.items())],
        open_obligations=[dict(task=r["task"], obligation=o["name"], result=o["result"]) for r, o in failed][:40],
        obligation_names=sorted({o["name"] for r, o in obls})[:120],
        bounded_obligations=len(bnd), bounded_discharged=sum(o["result"] == "proved" for r, o in bnd),
        runtime_search=[dict(cases=o.get("cases"), kinds=o.get("kinds"), seconds=o.get("seconds"), seed=o.get("seed"), error=o.get("error")) for o in outs],
        evaluations=sum(o.get("cases") or 0 for o in outs),
        stand_ins=meta.get("bounded", []) + (["bounded search stands in for the open obligations"] if bad else []))
    ev = dict(property=prop, tier=tier, seed=seed, level=meta["level"], coverage=cov, assumptions=meta.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=violations)
    if err:
        cov["contract_error"] = err
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if code != 2:
        print("%s: %d of %d obligations discharged in %d tasks (%s), %d inputs tried, %.1f s" % (prop, len(ok) + sum(o["result"] == "proved" for r, o in bnd), len(obls), n,
                                                                                        ", ".join("%s %d" % kv for kv in sorted(backs.items())), cov["evaluations"], ev["wall_s"]))
        print("\n".join(lines) if lines else "%s: held on everything explored" % prop)
    return code


if __name__ == "__main__":
    sys.exit(main())
