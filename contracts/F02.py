from .field import *


def setup(eng):
    g = symbolic_field(eng)
    for n in ("bxmin", "bxmax", "bymin", "bymax"):
        g[n] = real(n)
    g["pre"] = eng.st.copy()
    return g


def run(eng, ctx):
    return eng.call(eng.getattr(ctx["field"], "expand"), [ctx[n] for n in ("bxmin", "bxmax", "bymin", "bymax")], {})


def grown(eng, g, v, name):
    """v is g grown by whole rows and columns, contents moved with their world coordinates."""
    zero = z3.IntVal(0)
    cs = witness(eng, [zero] + int_subterms(v["xmin"]) + int_subterms(v["nc"]),
                 lambda c: z3.And(c >= 0, v["xmin"] == g["xmin"] - z3.ToReal(c) * g["dx"], c + I(g["nc"]) <= v["nc"]))
    rs = witness(eng, [zero] + int_subterms(v["ymin"]) + int_subterms(v["nr"]),
                 lambda c: z3.And(c >= 0, v["ymin"] == g["ymin"] - z3.ToReal(c) * g["dy"], c + I(g["nr"]) <= v["nr"]))
    if cs is None:
        cs = z3.ToInt((g["xmin"] - v["xmin"]) / g["dx"])
    if rs is None:
        rs = z3.ToInt((g["ymin"] - v["ymin"]) / g["dy"])
    eng.oblige("%s: whole columns are added, old nodes keep their x-coordinates" % name,
               z3.And(cs >= 0, v["xmin"] == g["xmin"] - z3.ToReal(cs) * g["dx"], cs + I(g["nc"]) <= v["nc"]))
    eng.oblige("%s: whole rows are added, old nodes keep their y-coordinates" % name,
               z3.And(rs >= 0, v["ymin"] == g["ymin"] - z3.ToReal(rs) * g["dy"], rs + I(g["nr"]) <= v["nr"]))
    eng.oblige("%s: spacing and total weight unchanged" % name, z3.And(v["dx"] == g["dx"], v["dy"] == g["dy"], v["W"] == g["W"]), assume=False)
    return rs, cs


def post(eng, ctx, o):
    x0, x1, y0, y1 = [ctx[n] for n in ("bxmin", "bxmax", "bymin", "bymax")]
    if o.kind == "raise":
        eng.oblige("refused with the range error", o.val.name == "RangeError", assume=False)
        eng.oblige("only an inverted box is refused", z3.Or(x0 > x1, y0 > y1), assume=False)
        unchanged(eng, ctx["pre"], o.st, [("field", ctx["field"]), ("pgrid", ctx["pre"].heap[ctx["field"].id].attrs["pgrid"]),
                                          ("rgrid", ctx["pre"].heap[ctx["field"].id].attrs["rgrid"])], "inverted box")
        return
    if o.kind != "normal":
        eng.oblige("growing is defined (%s)" % o.val, False, assume=False)
        return
    eng.oblige("an inverted box is refused", z3.And(x0 <= x1, y0 <= y1), assume=False)
    v = view(eng, ctx["field"])
    rs, cs = grown(eng, ctx, v, "growth")
    inv(eng, v)
    eng.oblige("the box lies strictly inside in x", z3.And(v["xmin"] < x0, x1 < v["xmax"]), assume=False)
    eng.oblige("the box lies strictly inside in y", z3.And(v["ymin"] < y0, y1 < v["ymax"]), assume=False)
    i, j = node(eng, v, "n")
    P, G, nr, nc = ctx["P"], ctx["G"], I(ctx["nr"]), I(ctx["nc"])
    old = z3.And(i - rs >= 0, i - rs < nr, j - cs >= 0, j - cs < nc)
    eng.oblige("old nodes keep their probability", z3.Implies(old, v["P"](i, j) == P(i - rs, j - cs)), assume=False)
    eng.oblige("old nodes keep their mark", z3.Implies(old, v["G"](i, j) == G(i - rs, j - cs)), assume=False)
    eng.oblige("new nodes start at zero, unmarked", z3.Implies(z3.Not(old), z3.And(v["P"](i, j) == 0, z3.Not(v["G"](i, j)))), assume=False)


def setup0(eng):
    return {n: real(n) for n in ("dx", "dy", "xo", "yo")}


def run0(eng, ctx):
    C = cls(eng, "oneka.probabilityfield", "ProbabilityField")
    f = eng.instantiate(C, [ctx["dx"], ctx["dy"], ctx["xo"], ctx["yo"]], {})
    ghost(eng)["field"] = f
    return f


def post0(eng, ctx, o):
    if o.kind == "raise":
        eng.oblige("only a non-positive spacing is refused", zand(o.val.name == "RangeError", z3.Or(ctx["dx"] <= 0, ctx["dy"] <= 0)), assume=False)
        return
    if o.kind != "normal":
        eng.oblige("construction is defined (%s)" % o.val, False, assume=False)
        return
    eng.oblige("positive spacing", z3.And(ctx["dx"] > 0, ctx["dy"] > 0), assume=False)
    if set(eng.obj(ctx["field"]).attrs) != ATTRS:
        raise Unsupported("unknown attributes")
    v = view(eng, ctx["field"])
    inv(eng, v, "new field")
    i, j = node(eng, v, "n")
    eng.oblige("a new field is empty", z3.And(v["P"](i, j) == 0, z3.Not(v["G"](i, j)), v["W"] == 0), assume=False)
    eng.oblige("the origin lies strictly inside", z3.And(v["xmin"] < ctx["xo"], ctx["xo"] < v["xmax"], v["ymin"] < ctx["yo"], ctx["yo"] < v["ymax"]), assume=False)


# ---- a field without nodes: nothing is there to move
def setup_e(eng):
    return {n: real(n) for n in ("dx", "dy", "bxmin", "bxmax", "bymin", "bymax")}


def run_e(eng, ctx):
    eng.assume(z3.And(ctx["dx"] > 0, ctx["dy"] > 0))
    f = eng.instantiate(cls(eng, "oneka.probabilityfield", "ProbabilityField"), [ctx["dx"], ctx["dy"]], {})
    g = ghost(eng)
    g["field"], g["made"] = f, dict(eng.obj(f).attrs)
    return eng.call(eng.getattr(f, "expand"), [ctx[n] for n in ("bxmin", "bxmax", "bymin", "bymax")], {})


def post_e(eng, ctx, o):
    x0, x1, y0, y1 = [ctx[n] for n in ("bxmin", "bxmax", "bymin", "bymax")]
    at = eng.obj(ctx["field"]).attrs if "field" in ctx else None
    if o.kind == "raise":
        eng.oblige("no nodes: refused with the range error", o.val.name == "RangeError", assume=False)
        eng.oblige("no nodes: only an inverted box is refused", z3.Or(x0 > x1, y0 > y1), assume=False)
        from engine.loops import same_val
        eng.oblige("no nodes: a refused box leaves the field as it was", at is not None and set(at) == set(ctx["made"])
                   and all(same_val(at[n], ctx["made"][n]) for n in at), assume=False)
        return
    if o.kind != "normal":
        eng.oblige("no nodes: growing is defined (%s)" % o.val, False, assume=False)
        return
    eng.oblige("no nodes: an inverted box is refused", z3.And(x0 <= x1, y0 <= y1), assume=False)
    if set(at) != ATTRS:
        raise Unsupported("unknown attributes")
    v = view(eng, ctx["field"])
    inv(eng, v, "no nodes")
    eng.oblige("no nodes: the box lies strictly inside in x", z3.And(v["xmin"] < x0, x1 < v["xmax"]), assume=False)
    eng.oblige("no nodes: the box lies strictly inside in y", z3.And(v["ymin"] < y0, y1 < v["ymax"]), assume=False)
    i, j = node(eng, v, "n")
    eng.oblige("no nodes: every node is new", z3.And(v["P"](i, j) == 0, z3.Not(v["G"](i, j)), v["W"] == 0,
                                                    v["dx"] == ctx["dx"], v["dy"] == ctx["dy"]), assume=False)


def tasks():
    yield Task("expand, a field without nodes", PF + ".expand", setup_e, run_e, post_e, seconds=60)
    yield Task("new field", PF + ".__init__", setup0, run0, post0)
    yield Task("expand", PF + ".expand", setup, run, post, seconds=120)
