from .base import *
from engine.calculus import diff


def setup(eng):
    ctx = symbolic_model(eng)
    ctx["x"], ctx["y"] = real("x"), real("y")
    no_well(eng, ctx, ctx["x"], ctx["y"])
    ctx["pre"] = eng.st.copy()
    return ctx


def run(eng, ctx):
    q = eng.call(eng.getattr(ctx["model"], "compute_discharge"), [ctx["x"], ctx["y"]], {})
    mid = eng.st.copy()
    phi = eng.call(eng.getattr(ctx["model"], "compute_potential"), [ctx["x"], ctx["y"]], {})
    return (q, phi, mid)


def post(eng, ctx, o):
    if o.kind != "normal":
        eng.oblige("returns normally away from the wells", False, assume=False)
        return
    q, phi, mid = o.val
    qx, qy = eng.unpack(q, 2)
    phi = R(as_num(phi))
    x, y = ctx["x"], ctx["y"]
    eng.oblige("Qx == -d(potential)/dx", R(as_num(qx)) == -diff(eng, phi, x), assume=False)
    eng.oblige("Qy == -d(potential)/dy", R(as_num(qy)) == -diff(eng, phi, y), assume=False)
    unchanged(eng, ctx["pre"], mid, [("model", ctx["model"]), ("wells", ctx["wells"])])


def tasks():
    yield Task("compute_discharge", "oneka.model.Model.compute_discharge", setup, run, post)
