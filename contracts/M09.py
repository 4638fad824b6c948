from .base import *
from .M08 import ConstructFit, coefs
from engine.models import arr_get, setitem


def make(eng, coef=None):
    M = cls(eng, "oneka.model", "Model")
    wells = eng.alloc(ListObj(items=[]))
    args = [real("base"), real("cond"), real("por"), real("thick"), wells]
    return eng.instantiate(M, args, {} if coef is None else {"coef": coef})


def setup(eng):
    ctx = dict(v=real("v"), C=[real("coef%d" % i) for i in range(6)], x=real("x"), y=real("y"))
    j = z3.Int("j")
    eng.assume(z3.And(j >= 0, j < 6))
    ctx["j"] = j
    return ctx


def pot(eng, m, ctx):
    return R(as_num(eng.call(eng.getattr(m, "compute_potential"), [ctx["x"], ctx["y"]], {})))


def same(eng, name, a, b):
    eng.oblige(name, a == b, assume=False)


def run_ctor(eng, ctx):
    """The array passed to the constructor is written to afterwards."""
    arr = eng.alloc(ArrObj((6,), items=list(ctx["C"])))
    m = make(eng, arr)
    a = pot(eng, m, ctx)
    eng.setitem(arr, ctx["j"], ctx["v"])
    return a, pot(eng, m, ctx)


def run_setter(eng, ctx):
    """The array assigned to coef is written to afterwards."""
    arr = eng.alloc(ArrObj((6,), items=list(ctx["C"])))
    m = make(eng)
    eng.setattr(m, "coef", arr)
    a = pot(eng, m, ctx)
    eng.setitem(arr, ctx["j"], ctx["v"])
    return a, pot(eng, m, ctx)


def run_other(eng, ctx):
    """Another model built from the same array has its coefficients changed in place."""
    arr = eng.alloc(ArrObj((6,), items=list(ctx["C"])))
    m, m2 = make(eng, arr), make(eng, arr)
    a = pot(eng, m, ctx)
    eng.setitem(eng.getattr(m2, "coef"), ctx["j"], ctx["v"])
    return a, pot(eng, m, ctx)


def run_shared(eng, ctx):
    """A model built from another model's coefficients."""
    arr = eng.alloc(ArrObj((6,), items=list(ctx["C"])))
    m2 = make(eng, arr)
    m = make(eng, eng.getattr(m2, "coef"))
    a = pot(eng, m, ctx)
    eng.setitem(eng.getattr(m2, "coef"), ctx["j"], ctx["v"])
    return a, pot(eng, m, ctx)


def run_default(eng, ctx):
    """Two models built with the default coefficients, one changed in place; then a third one."""
    m, m2 = make(eng), make(eng)
    a = pot(eng, m, ctx)
    eng.setitem(eng.getattr(m2, "coef"), ctx["j"], ctx["v"])
    b = pot(eng, m, ctx)
    m3 = make(eng)
    ghost(eng)["zeros"] = coefs(eng, eng.getattr(m3, "coef"))
    return a, b


def run_fit(eng, ctx):
    """The arrays returned by a fit are written to afterwards."""
    m = make(eng)
    obs, n, O = num_seq(eng, "obs", 4)
    ev, cov = eng.unpack(eng.call(eng.getattr(m, "fit_regional_flow"), [obs, real("ox"), real("oy")], {}), 2)
    a = pot(eng, m, ctx)
    nd = eng.obj(ev).ndim
    eng.setitem(ev, (ctx["j"], 0) if nd == 2 else ctx["j"], ctx["v"])
    return a, pot(eng, m, ctx)


def post(eng, ctx, o):
    if o.kind == "raise" and o.val.name in ("RangeError", "LinAlgError", "numpy.linalg.LinAlgError"):
        return
    if o.kind != "normal":
        eng.oblige("runs normally (%s)" % o.kind, False, assume=False)
        return
    a, b = o.val
    same(eng, "the write leaves what the model computes unchanged", a, b)
    if "zeros" in ctx:
        eng.oblige("a new default model starts from six zeros", zand(*[c == 0 for c in ctx["zeros"]]), assume=False)


def tasks():
    F = "oneka.model.Model."
    yield Task("array passed to the constructor", F + "__init__", setup, run_ctor, post)
    yield Task("array assigned to coef", F + "coef", setup, run_setter, post)
    yield Task("two models from one array", F + "__init__", setup, run_other, post)
    yield Task("model built from a model's coefficients", F + "__init__", setup, run_shared, post)
    yield Task("default coefficients", F + "__init__", setup, run_default, post)
    yield Task("arrays returned by a fit", F + "fit_regional_flow", setup, run_fit, post,
               {"oneka.model.Model.construct_fit": ConstructFit()})
