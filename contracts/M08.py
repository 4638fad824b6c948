from .base import *
from engine.models import MUL, TR, INV, LSTSQ, SOLVE, ENT, Mat, mk_mat, may_raise, arr_get

F = "oneka.model.Model.fit_regional_flow"


class ConstructFit(Contract):
    """construct_fit(self, obs, xo, yo): proved by M07.  Either raises RangeError or returns the weighted
    system; modifies nothing."""

    def call(self, eng, args, kwargs):
        f = eng.class_member(eng.global_("oneka.model", "Model"), "construct_fit")[1]
        b = eng.bind(f, args, kwargs)
        g = ghost(eng)
        g["system_for"] = g.get("system_for", ()) + ((b["obs"], b["xo"], b["yo"]),)
        if eng.choose(z3.Bool("dry_observation")):
            raise PyRaise(eng.global_("oneka.model", "RangeError"))
        n = z3.Int("n_obs")
        return (mk_mat(eng, z3.Const("WA", Mat), (n, 6)), mk_mat(eng, z3.Const("Wb", Mat), (n, 1)))


def setup(eng):
    ctx = symbolic_model(eng)
    obs, m, O = num_seq(eng, "obs", 4)
    ctx.update(obs=obs, m=m, ox=real("ox"), oy=real("oy"))
    ctx["pre"] = eng.st.copy()
    return ctx


def run(eng, ctx):
    return eng.call(eng.getattr(ctx["model"], "fit_regional_flow"), [ctx["obs"], ctx["ox"], ctx["oy"]], {})


def coefs(eng, ref):
    a = eng.obj(ref)
    return [R(as_num(arr_get(eng, a, (i,) if a.ndim == 1 else (i, 0)))) for i in range(6)]


def post(eng, ctx, o):
    pre = ctx["pre"]
    if o.kind == "raise":
        unchanged(eng, pre, o.st, [("model", ctx["model"]), ("wells", ctx["wells"])], "failed fit")
        now = coefs(eng, eng.getattr(ctx["model"], "coef"))
        eng.oblige("failed fit: coefficients unchanged", zand(*[a == b for a, b in zip(now, ctx["C"])]), assume=False)
        return
    if o.kind != "normal":
        eng.oblige("the fit is defined (%s)" % (o.val,), False, assume=False)
        return
    sysfor = ctx.get("system_for", ())
    eng.oblige("one weighted system is built", len(sysfor) == 1, assume=False)
    if len(sysfor) == 1:
        ob, x, y = sysfor[0]
        eng.oblige("the system is built from all observations about the requested origin",
                   zand(ob == ctx["obs"] if isinstance(ob, Ref) else False, eq(as_num(x), ctx["ox"]), eq(as_num(y), ctx["oy"])), assume=False)
    WA, Wb = z3.Const("WA", Mat), z3.Const("Wb", Mat)
    N = MUL(TR(WA), WA)
    ev, cov = eng.unpack(o.val, 2)
    E, C = eng.obj(ev), eng.obj(cov)
    X = E.mat if E.mat is not None else LSTSQ(WA, Wb)
    eng.oblige("the coefficients satisfy the normal equations", MUL(N, X) == MUL(TR(WA), Wb), assume=False)
    ret = coefs(eng, ev)
    eng.oblige("the returned vector holds the solution", zand(*[ret[i] == ENT(X, i, 0) for i in range(6)]), assume=False)
    eng.oblige("the covariance is the inverse of the normal matrix", C.mat == INV(N) if C.mat is not None else False, assume=False)
    now = coefs(eng, eng.getattr(ctx["model"], "coef"))
    eng.oblige("the model has exactly those coefficients", zand(*[a == b for a, b in zip(now, ret)]), assume=False)
    g = lambda n: R(as_num(eng.getattr(ctx["model"], n)))
    eng.oblige("the model has the requested origin", zand(g("xo") == ctx["ox"], g("yo") == ctx["oy"]), assume=False)
    eng.oblige("everything else about the model is unchanged",
               zand(g("base") == ctx["base"], g("conductivity") == ctx["cond"], g("porosity") == ctx["por"],
                    g("thickness") == ctx["thick"], eng.getattr(ctx["model"], "wells") == ctx["wells"]), assume=False)
    unchanged(eng, pre, o.st, [("wells", ctx["wells"]), ("observations", ctx["obs"])])


def tasks():
    yield Task("fit_regional_flow", F, setup, run, post, {"oneka.model.Model.construct_fit": ConstructFit()})
