from .base import *
from .M02 import setup


def run1(eng, ctx):
    q = eng.call(eng.getattr(ctx["model"], "compute_discharge"), [ctx["x"], ctx["y"]], {})
    ghost(eng)["q"] = [R(as_num(v)) for v in eng.unpack(q, 2)]
    return eng.call(eng.getattr(ctx["model"], "compute_velocity_confined"), [ctx["x"], ctx["y"]], {})


def post1(eng, ctx, o):
    if o.kind != "normal":
        eng.oblige("the shortcut never refuses and is always defined", False, assume=False)
        return
    for nm, vi, qi in zip("xy", eng.unpack(o.val, 2), ctx["q"]):
        eng.oblige("shortcut V%s == Q%s / (porosity * thickness)" % (nm, nm),
                   R(as_num(vi)) * (ctx["por"] * ctx["thick"]) == qi, assume=False)


def run2(eng, ctx):
    h = eng.call(eng.getattr(ctx["model"], "compute_head"), [ctx["x"], ctx["y"]], {})
    eng.assume(R(as_num(h)) >= ctx["thick"])
    c = eng.call(eng.getattr(ctx["model"], "compute_velocity_confined"), [ctx["x"], ctx["y"]], {})
    ghost(eng)["c"] = [R(as_num(v)) for v in eng.unpack(c, 2)]
    ghost(eng)["reached"] = True
    return eng.call(eng.getattr(ctx["model"], "compute_velocity"), [ctx["x"], ctx["y"]], {})


def post2(eng, ctx, o):
    if o.kind == "raise" and not ctx.get("reached"):
        return          # compute_head refused: the head is not at least the thickness
    if o.kind != "normal":
        eng.oblige("the full velocity is defined where the head is at least the thickness", False, assume=False)
        return
    for nm, a, b in zip("xy", eng.unpack(o.val, 2), ctx["c"]):
        eng.oblige("full V%s == shortcut V%s" % (nm, nm), R(as_num(a)) == b, assume=False)


def tasks():
    yield Task("compute_velocity_confined", "oneka.model.Model.compute_velocity_confined", setup, run1, post1)
    yield Task("agreement", "oneka.model.Model.compute_velocity_confined", setup, run2, post2)
