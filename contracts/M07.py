from .base import *
from .M01 import phi_regional

F = "oneka.model.Model.construct_fit"


def setup(eng):
    ctx = symbolic_model(eng)
    obs, m, O = num_seq(eng, "obs", 4)
    ctx.update(obs=obs, m=m, O=O, ox=real("ox"), oy=real("oy"))
    i, k = z3.Int("ui"), z3.Int("uk")
    W = ctx["W"]
    eng.st.univ.append(Univ([i], z3.And(i >= 0, i < m), O[3](i) > 0, "positive standard deviations"))
    eng.st.univ.append(Univ([i, k], z3.And(i >= 0, i < m, k >= 0, k < I(ctx["nw"])),
                            (O[0](i) - W[0](k)) * (O[0](i) - W[0](k)) + (O[1](i) - W[1](k)) * (O[1](i) - W[1](k)) > 0,
                            "no observation at a well"))
    ctx["pre"] = eng.st.copy()
    return ctx


def run(eng, ctx):
    return eng.call(eng.getattr(ctx["model"], "construct_fit"), [ctx["obs"], ctx["ox"], ctx["oy"]], {})


def post(eng, ctx, o):
    m, O = ctx["m"], ctx["O"]
    if o.kind == "raise":
        eng.oblige("refused with the range error", o.val.name == "RangeError", assume=False)
        k = z3.Int("dry")
        eng.oblige("refused only if some level is not above the base",
                   exists_term(eng, k, O[2](k) - ctx["base"] <= 0, m), assume=False)
        return
    if o.kind != "normal":
        eng.oblige("the system is defined (%s)" % (o.val,), False, assume=False)
        return
    WA, Wb = eng.unpack(o.val, 2)
    WA, Wb = eng.obj(WA), eng.obj(Wb)
    i = eng.fresh("row", "int")
    eng.assume(z3.And(i >= 0, i < m))
    eng.oblige("one row per observation, six columns", zand(eq(WA.shape[0], m), eq(WA.shape[1], 6), eq(Wb.shape[0], m)), assume=False)
    eng.oblige("every level is above the base", O[2](i) - ctx["base"] > 0, assume=False)
    c = dict(ctx)
    c["C"] = [real("c%d" % j) for j in range(6)]
    c["xo"], c["yo"] = ctx["ox"], ctx["oy"]
    row = z3.RealVal(0)
    for j in range(6):
        row = row + R(eng.models.arr_get(eng, WA, (i, j))) * c["C"][j]
    rhs = R(eng.models.arr_get(eng, Wb, (i, 0) if Wb.ndim == 2 else (i,)))
    x, y, z, s = [f(i) for f in O]
    W = ctx["W"]
    kk = z3.Int("specw")
    r2 = (x - W[0](kk)) * (x - W[0](kk)) + (y - W[1](kk)) * (y - W[1](kk))
    wells = sum_term(eng, kk, W[3](kk) * eng.LOG(r2) * IPI / 4, ctx["nw"], [i])
    phi_c = phi_regional(c, x, y) + wells
    h, k, t = z - ctx["base"], ctx["cond"], ctx["thick"]
    lhs = row - rhs
    eng.oblige("confined rows are standardized errors", z3.Implies(h >= t, lhs * (k * t * s) == phi_c - k * t * (h - t / 2)), assume=False)
    eng.oblige("unconfined rows are standardized errors",
               z3.Implies(z3.And(h < t, h > 0), lhs * (k * h * s) == phi_c - k * (h * h + s * s) / 2), assume=False)
    unchanged(eng, ctx["pre"], o.st, [("model", ctx["model"]), ("wells", ctx["wells"]), ("observations", ctx["obs"])])


def tasks():
    yield Task("construct_fit", F, setup, run, post, ms=10000)
