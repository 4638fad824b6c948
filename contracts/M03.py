from .base import *
from engine.calculus import diff
from .M02 import setup
from . import analysis as A


def run(eng, ctx):
    return eng.call(eng.getattr(ctx["model"], "compute_discharge"), [ctx["x"], ctx["y"]], {})


def post(eng, ctx, o):
    if o.kind != "normal":
        eng.oblige("returns normally away from the wells", False, assume=False)
        return
    qx, qy = [R(as_num(v)) for v in eng.unpack(o.val, 2)]
    x, y = ctx["x"], ctx["y"]
    eng.oblige("divergence of the discharge is -2*(A+B)",
               diff(eng, qx, x) + diff(eng, qy, y) == -2 * (ctx["C"][0] + ctx["C"][1]), assume=False)
    eng.oblige("curl of the discharge is zero", diff(eng, qy, x) - diff(eng, qx, y) == 0, assume=False)


def tasks():
    yield Task("conservation", "oneka.model.Model.compute_discharge", setup, run, post)
    yield A.recharge_task("draw")
    yield A.recharge_task("mean")
