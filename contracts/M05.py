from .base import *
from .M02 import setup


def run(eng, ctx):
    q = eng.call(eng.getattr(ctx["model"], "compute_discharge"), [ctx["x"], ctx["y"]], {})
    ghost(eng)["q"] = [R(as_num(v)) for v in eng.unpack(q, 2)]
    ghost(eng)["phi"] = R(as_num(eng.call(eng.getattr(ctx["model"], "compute_potential"), [ctx["x"], ctx["y"]], {})))
    # the head specified by M04
    h = real("head")
    phi, k, t = ghost(eng)["phi"], ctx["cond"], ctx["thick"]
    ghost(eng)["h"] = h
    eng.assume(z3.Implies(phi > 0, z3.And(h > 0, z3.Implies(h <= t, phi == k * h * h / 2),
                                          z3.Implies(h >= t, phi == k * t * (h - t / 2)))))
    return eng.call(eng.getattr(ctx["model"], "compute_velocity"), [ctx["x"], ctx["y"]], {})


def post(eng, ctx, o):
    if ctx.get("h") is None:
        eng.oblige("discharge and potential are defined", False, assume=False)
        return
    phi, h, t, n = ctx["phi"], ctx["h"], ctx["thick"], ctx["por"]
    if o.kind == "raise":
        eng.oblige("only the dry-aquifer error is raised", o.val.name == "AquiferError", assume=False)
        eng.oblige("refused only where the aquifer is dry", phi <= 0, assume=False)
        return
    if o.kind != "normal":
        eng.oblige("the velocity is defined (%s)" % (o.val,), False, assume=False)
        return
    eng.oblige("no velocity where the aquifer is dry", phi > 0, assume=False)
    v = eng.unpack(o.val, 2)
    sat = z3.If(h < t, h, t)
    for nm, vi, qi in zip("xy", v, ctx["q"]):
        eng.oblige("V%s == Q%s / (porosity * saturated thickness)" % (nm, nm), R(as_num(vi)) * (n * sat) == qi, assume=False)


def tasks():
    yield Task("compute_velocity", "oneka.model.Model.compute_velocity", setup, run, post)
