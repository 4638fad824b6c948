from .base import *
from .M02 import setup


def exc_is(o, name):
    return o.kind == "raise" and o.val.name == name


def run(eng, ctx):
    phi = eng.call(eng.getattr(ctx["model"], "compute_potential"), [ctx["x"], ctx["y"]], {})
    ghost(eng)["phi"] = R(as_num(phi))
    return eng.call(eng.getattr(ctx["model"], "compute_head"), [ctx["x"], ctx["y"]], {})


def post(eng, ctx, o):
    k, t = ctx["cond"], ctx["thick"]
    phi = ctx.get("phi")
    if phi is None:
        eng.oblige("the potential is defined", False, assume=False)
        return
    if o.kind == "raise":
        eng.oblige("only AquiferError is raised", o.val.name == "AquiferError", assume=False)
        eng.oblige("refused only when the potential is not positive", phi <= 0, assume=False)
        return
    if o.kind != "normal":
        eng.oblige("the head is defined (%s)" % (o.val,), False, assume=False)
        return
    v = as_num(o.val)
    if v is None:
        eng.oblige("the head is a number", False, assume=False)
        return
    h = R(v)
    eng.oblige("a dry aquifer is refused", phi > 0, assume=False)
    eng.oblige("the head is positive", h > 0, assume=False)
    eng.oblige("unconfined: potential == k*h^2/2", z3.Implies(h <= t, phi == k * h * h / 2), assume=False)
    eng.oblige("confined: potential == k*t*(h - t/2)", z3.Implies(h >= t, phi == k * t * (h - t / 2)), assume=False)


def lemma(eng, ctx, o):
    """The specification determines the head: the specified potential is strictly increasing and continuous in it."""
    k, t, h1, h2 = ctx["cond"], ctx["thick"], real("h1"), real("h2")

    def pot(h):
        return z3.If(h <= t, k * h * h / 2, k * t * (h - t / 2))
    eng.oblige("lemma: strictly increasing", z3.Implies(z3.And(0 < h1, h1 < h2, k > 0, t > 0), pot(h1) < pot(h2)), assume=False)
    eng.oblige("lemma: both branches agree at h == t", k * t * t / 2 == k * t * (t - t / 2), assume=False)
    e = real("eps")
    eng.oblige("lemma: Lipschitz, hence continuous",
               z3.Implies(z3.And(0 < h1, h1 < h2, h2 < h1 + e, k > 0, t > 0), pot(h2) - pot(h1) <= k * t * e), assume=False)


def tasks():
    yield Task("compute_head", "oneka.model.Model.compute_head", setup, run, post)
    yield Task("uniqueness lemma", "oneka.model.Model.compute_head", setup, lambda eng, ctx: None, lemma)
