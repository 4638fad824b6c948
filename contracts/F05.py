from .field import *
from . import F02, F03


def with_inv(eng, g):
    """0 <= P <= W at every node."""
    i, j = z3.Int("ui"), z3.Int("uj")
    P = g["P"](i, j)
    eng.st.univ.append(Univ([i, j], z3.And(i >= 0, i < I(g["nr"]), j >= 0, j < I(g["nc"])), z3.And(P >= 0, P <= g["W"]), "0<=P<=W"))
    eng.assume(g["W"] >= 0)
    g["pre"] = eng.st.copy()
    return g


def bounded_at(eng, v, i, j):
    eng.oblige("invariant: 0 <= accumulated weight <= total", z3.And(v["W"] >= 0, v["P"](i, j) >= 0, v["P"](i, j) <= v["W"]), assume=False)


def setup(eng):
    g = symbolic_field(eng)
    g["w"] = real("w")
    eng.assume(g["w"] >= 0)
    return with_inv(eng, g)


def run_reg(eng, ctx):
    return eng.call(eng.getattr(ctx["field"], "register"), [ctx["w"]], {})


def post_reg(eng, ctx, o):
    if o.kind != "normal":
        eng.oblige("registering is defined (%s)" % getattr(o.val, "name", o.val), False, assume=False)
        return
    v = view(eng, ctx["field"])
    same_geometry(eng, "frame", v, ctx)
    inv(eng, v)
    i, j = node(eng, v, "n")
    P, G, w = ctx["P"](i, j), ctx["G"](i, j), ctx["w"]
    # the node's instance of the invariant
    eng.assume(z3.And(P >= 0, P <= ctx["W"]))
    eng.oblige("the weight is added once to the total", v["W"] == ctx["W"] + w, assume=False)
    eng.oblige("the weight is added once to a marked node", z3.Implies(G, v["P"](i, j) == P + w), assume=False)
    eng.oblige("an unmarked node is unchanged", z3.Implies(z3.Not(G), v["P"](i, j) == P), assume=False)
    eng.oblige("all marks are cleared", z3.Not(v["G"](i, j)), assume=False)
    bounded_at(eng, v, i, j)


def run_reset(eng, ctx):
    return eng.call(eng.getattr(ctx["field"], "reset"), [], {})


def post_reset(eng, ctx, o):
    if o.kind != "normal":
        eng.oblige("resetting is defined (%s)" % getattr(o.val, "name", o.val), False, assume=False)
        return
    v = view(eng, ctx["field"])
    same_geometry(eng, "frame", v, ctx)
    inv(eng, v)
    i, j = node(eng, v, "n")
    eng.oblige("resetting clears the marks", z3.Not(v["G"](i, j)), assume=False)
    eng.oblige("resetting changes no probability and not the total", z3.And(v["P"](i, j) == ctx["P"](i, j), v["W"] == ctx["W"]), assume=False)


def setup_expand(eng):
    g = symbolic_field(eng)
    for n in ("bxmin", "bxmax", "bymin", "bymax"):
        g[n] = real(n)
    return with_inv(eng, g)


def post_expand(eng, ctx, o):
    if o.kind not in ("normal", "raise"):
        eng.oblige("growing is defined (%s)" % o.val, False, assume=False)
        return
    v = view(eng, ctx["field"])
    i, j = node(eng, v, "n")
    eng.oblige("growing leaves the total", v["W"] == ctx["W"], assume=False)
    bounded_at(eng, v, i, j)


def setup_insert(eng):
    g = F03.setup(eng)
    return with_inv(eng, g)


def post_insert(eng, ctx, o):
    if o.kind != "normal":
        eng.oblige("inserting is defined (%s)" % getattr(o.val, "name", o.val), False, assume=False)
        return
    v = view(eng, ctx["field"])
    i, j = node(eng, v, "n")
    eng.oblige("inserting leaves probabilities and total", z3.And(v["P"](i, j) == ctx["P"](i, j), v["W"] == ctx["W"]), assume=False)


def post_new(eng, ctx, o):
    if o.kind != "normal":
        return
    v = view(eng, ctx["field"])
    i, j = node(eng, v, "n")
    eng.oblige("a new field has total zero, nothing accumulated, nothing marked",
               z3.And(v["W"] == 0, v["P"](i, j) == 0, z3.Not(v["G"](i, j))), assume=False)


def tasks():
    yield Task("register", PF + ".register", setup, run_reg, post_reg)
    yield Task("reset", PF + ".reset", setup, run_reset, post_reset)
    yield Task("new field", PF + ".__init__", F02.setup0, F02.run0, post_new)
    yield Task("expand keeps the invariant", PF + ".expand", setup_expand, F02.run, post_expand, seconds=120)
    yield Task("insert keeps the accumulated weights", PF + ".insert", setup_insert, F03.run, post_insert, {F03.DS: F03.DistanceSquared()})
