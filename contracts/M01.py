from .base import *

FUNCS = ["oneka.model.Model.compute_potential", "oneka.model.Model.compute_potential_wells_only"]


def phi_regional(ctx, x, y):
    A, B, C, D, E, F = ctx["C"]
    dx, dy = x - ctx["xo"], y - ctx["yo"]
    return A * dx * dx + B * dy * dy + C * dx * dy + D * dx + E * dy + F


def mk(method, n=None):
    def setup(eng):
        ctx = symbolic_model(eng, n=n)
        ctx["x"], ctx["y"] = real("x"), real("y")
        no_well(eng, ctx, ctx["x"], ctx["y"])
        ctx["pre"] = eng.st.copy()
        return ctx

    def run(eng, ctx):
        return eng.call(eng.getattr(ctx["model"], method), [ctx["x"], ctx["y"]], {})

    def post(eng, ctx, o):
        if o.kind != "normal":
            eng.oblige("returns normally away from the wells", False, assume=False)
            return
        x, y = ctx["x"], ctx["y"]
        spec = phi_wells(eng, ctx, x, y)
        if method == "compute_potential":
            spec = phi_regional(ctx, x, y) + spec
        v = as_num(o.val)
        eng.oblige("potential is the documented superposition", R(v) == spec if v is not None else False, assume=False)
        unchanged(eng, ctx["pre"], o.st, [("model", ctx["model"]), ("wells", ctx["wells"])])
    return setup, run, post


def tasks():
    for f in FUNCS:
        s, r, p = mk(f.split(".")[-1])
        yield Task(f.split(".")[-1], f, s, r, p)
