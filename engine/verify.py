"""Verification tasks: set up a symbolic pre-state, run the real code, collect obligations, discharge them."""
import time
import traceback
import z3
from .vals import *
from .core import Program, Engine, Outcome, Obligation
from . import discharge as D


class Contract:
    """Base class of contracts used at call sites."""
    inline_in_unroll = False

    def call(self, eng, args, kwargs):
        raise NotImplementedError


class Task:
    """One function under contract.

    setup(eng) -> ctx (dict); builds the symbolic pre-state in eng.st
    run(eng, ctx) -> executes the function
    post(eng, ctx, outcome) -> calls eng.oblige(...) for each clause
    """

    def __init__(self, name, func, setup, run, post, contracts=None, unroll=None, hooks=None, ms=6000, seconds=60,
                 bounded=None, oblig=20):
        self.name, self.func, self.setup, self.run, self.post = name, func, setup, run, post
        self.contracts = contracts or {}
        self.unroll, self.hooks, self.ms, self.seconds = unroll, hooks, ms, seconds
        self.bounded = bounded
        self.oblig = oblig      # seconds per obligation


class Result:
    def __init__(self, task):
        self.task = task
        self.status = None          # proved | refuted | unknown | unsupported | error
        self.obls = []
        self.reason = ""
        self.paths = 0
        self.functions = set()
        self.contracts = set()
        self.models = set()
        self.seconds = 0.0
        self.eng = None
        self.ctx = None
        self.truncated = False

    def failed(self):
        return [o for o in self.obls if o.result != "proved"]


def run_task(root, task, solver=None):
    res = Result(task)
    t0 = time.time()
    try:
        prog = Program(root)
        eng = Engine(prog, dict(task.contracts), solver)
        res.eng = eng
        eng.contract = task.hooks
        eng.verifying = task.func
        eng.unroll = task.unroll
        eng.deadline = t0 + task.seconds
        ctx = task.setup(eng)
        res.ctx = ctx
        # vacuity: the precondition is satisfiable
        pre = eng.st.copy()
        outs = eng.explore(lambda: task.run(eng, ctx), eng.st.copy(), None)
        res.paths = eng.paths
        if not outs:
            res.status, res.reason = "unsupported", "no feasible path"
            return res
        for o in outs:
            eng.st = o.st
            n0 = len(eng.obls)
            c2 = dict(ctx or {})
            c2.update(o.st.frames.get("ghost", {}))
            post_out = eng.explore(lambda: task.post(eng, c2, o), o.st, None)
            for p in post_out:
                if p.kind in ("raise", "undef"):
                    eng.st = p.st
                    eng.oblige("the specification is defined on the result (%s)" % (p.val if p.kind == "undef" else p.val.name), False, assume=False)
            for ob in eng.obls[n0:]:
                ob.abstract = ob.abstract or bool(getattr(o.st, "rest_loop", False))
        res.truncated = eng.truncated
        D.discharge_all(eng, eng.obls, pre, task, t0)
        res.obls = eng.obls
        if not res.obls:
            res.status, res.reason = "error", "no obligation was generated"
        elif all(o.result == "proved" for o in res.obls):
            res.status = "proved"
        elif any(o.result == "refuted" for o in res.obls):
            res.status = "refuted"
        else:
            res.status = "unknown"
    except Unsupported as e:
        res.status, res.reason = "unsupported", str(e)
        res.where = traceback.format_exc().strip().split("\n")[-12:]
        if res.eng is not None:
            res.obls = res.eng.obls
    except RecursionError:
        res.status, res.reason = "unsupported", "recursion limit"
    except z3.Z3Exception as e:
        res.status, res.reason = "unsupported", "z3: %s" % e
        res.where = traceback.format_exc().strip().split("\n")[-12:]
    except Exception as e:                      # a defect of the verifier is never a verdict on the code
        res.status, res.reason = "unsupported", "internal: %s: %s" % (type(e).__name__, e)
        res.where = traceback.format_exc().strip().split("\n")[-14:]
    finally:
        res.seconds = time.time() - t0
        if res.eng is not None:
            res.functions = set(res.eng.inlined) | {task.func}
            res.contracts = set(res.eng.used_contracts)
            res.models = set(res.eng.used_models)
    return res
