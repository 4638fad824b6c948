from .field import *
from engine.core import Poison
from engine.models import rec_of

BT = "oneka.capturezone.compute_backtrace"
PX, PY, PN = z3.Function("PX", I_, I_, R_), z3.Function("PY", I_, I_, R_), z3.Function("PN", I_, I_)
NUMS = ("duration", "tol", "maxstep")


class Backtrace(Contract):
    """compute_backtrace(...): proved by T01, T02.  Trace number k has PN(k) >= 1 vertices (PX(k, i), PY(k, i)).
    At the call: particle k starts where the statement says, with the caller's settings."""

    def __init__(self, ctx):
        self.ctx = ctx

    def call(self, eng, args, kwargs):
        c = self.ctx
        b = eng.bind(cls(eng, "oneka.capturezone", "compute_backtrace"), args, kwargs)
        g = ghost(eng)
        k = I(g.get("traces", 0))
        th = 2 * PI * z3.ToReal(k) / z3.ToReal(c["npaths"])
        co, si = eng.COS(th), eng.SIN(th)
        for n in NUMS:
            eng.oblige("trace: %s is the caller's" % n, R(as_num(b[n])) == c[n], assume=False)
        eng.oblige("trace: the caller's velocity function", b["feval"] is c["feval"], assume=False)
        eng.oblige("trace: particle p starts at angle 2*pi*p/npaths (x)", R(as_num(b["xs"])) == (c["rt"] + 1) * co + c["xt"], assume=False)
        eng.oblige("trace: particle p starts at angle 2*pi*p/npaths (y)", R(as_num(b["ys"])) == (c["rt"] + 1) * si + c["yt"], assume=False)
        eng.define(PN(k) >= 1)
        g["traces"] = norm(z3.simplify(k + 1))
        g["__last"] = k
        return eng.alloc(ListObj(n=PN(k), get=lambda i: Vec([PX(k, I(i)), PY(k, I(i))], "np")))


def elem(eng, v, i):
    r = eng.obj(v) if isinstance(v, Ref) else None
    if isinstance(r, ListObj):
        return r.n, R(as_num(r._get(i) if r.items is None else eng.index_items(r.items, i)))
    if isinstance(r, ArrObj) and r.ndim == 1:
        return r.shape[0], R(as_num(eng.models.arr_get(eng, r, (i,))))
    if isinstance(v, Seq):
        return v.n, R(as_num(v.get(i)))
    raise Unsupported("vertices given to rasterize")


class Rasterize(Contract):
    """rasterize(x, y, umbra): proved by F04."""

    def __init__(self, ctx):
        self.ctx = ctx

    def call(self, eng, args, kwargs):
        c = self.ctx
        f = eng.class_member(cls(eng, "oneka.probabilityfield", "ProbabilityField"), "rasterize")[1]
        b = eng.bind(f, args, kwargs)
        g = ghost(eng)
        eng.oblige("rasterize: into the caller's field", b["self"] == c["field"], assume=False)
        eng.oblige("rasterize: the caller's umbra", R(as_num(b["umbra"])) == c["umbra"], assume=False)
        m = I(g.get("rasters", 0))
        k = g.get("__last")
        eng.oblige("rasterize: each trace once, after it was computed", k is not None and k == m, assume=False)
        if k is not None:
            keep = eng.st
            eng.st = keep.copy()
            i = eng.fresh("vertex", "int")
            eng.assume(z3.And(i >= 0, i < PN(k)))
            for nm, F in (("x", PX), ("y", PY)):
                n, v = elem(eng, b[nm], i)
                eng.oblige("rasterize: the whole trace (%s)" % nm, zand(eq(n, PN(k))), assume=False)
                eng.oblige("rasterize: the trace's own vertices in order (%s)" % nm, v == F(k, i), assume=False)
            eng.st = keep
        g["rasters"] = norm(z3.simplify(m + 1))
        return None


class Register(Contract):
    """register(weight): proved by F05."""

    def __init__(self, ctx):
        self.ctx = ctx

    def call(self, eng, args, kwargs):
        c = self.ctx
        f = eng.class_member(cls(eng, "oneka.probabilityfield", "ProbabilityField"), "register")[1]
        b = eng.bind(f, args, kwargs)
        g = ghost(eng)
        eng.oblige("register: the caller's field", b["self"] == c["field"], assume=False)
        eng.oblige("register: the caller's weight", R(as_num(b["weight"])) == c["weight"], assume=False)
        eng.oblige("register: after exactly npaths traces", I(g.get("traces", 0)) == c["npaths"], assume=False)
        eng.oblige("register: after every trace was rasterized", I(g.get("rasters", 0)) == c["npaths"], assume=False)
        g["registered"] = norm(z3.simplify(I(g.get("registered", 0)) + 1))
        return None


class Hooks:
    def loop_iter(self, eng, K):
        ghost(eng).pop("__last", None)


def tasks():
    ctx = {}

    def setup(eng):
        ctx.clear()
        f = eng.alloc(InstObj(cls(eng, "oneka.probabilityfield", "ProbabilityField"), {n: Poison(n) for n in ATTRS}))
        ctx.update(field=f, feval=Opaque("feval"), npaths=z3.Int("npaths"))
        for n in ("xt", "yt", "rt", "umbra", "weight") + NUMS:
            ctx[n] = real(n)
        eng.assume(z3.And(ctx["npaths"] >= 1, ctx["rt"] > 0, ctx["umbra"] > 0, ctx["tol"] > 0, ctx["maxstep"] > 0, ctx["duration"] != 0))
        g = ghost(eng)
        g.update(traces=0, rasters=0, registered=0)
        return dict(ctx)

    def run(eng, c):
        names = dict(xtarget="xt", ytarget="yt", rtarget="rt", pfield="field")
        f = cls(eng, "oneka.capturezone", "compute_capturezone")
        kw = {}
        for x in f.node.args.args + f.node.args.kwonlyargs:
            n = names.get(x.arg, x.arg)
            if n not in c:
                raise Unsupported("unknown parameter %s" % x.arg)
            kw[x.arg] = c[n]
        return eng.call(f, [], kw)

    def post(eng, c, o):
        if o.kind not in ("normal", "return"):
            eng.oblige("computing a capture zone is defined (%s)" % getattr(o.val, "name", o.val), False, assume=False)
            return
        eng.oblige("the result is registered exactly once", eq(c.get("registered", 0), 1), assume=False)
        eng.oblige("exactly npaths traces", eq(c["traces"], c["npaths"]), assume=False)
        eng.oblige("every trace is rasterized", eq(c["rasters"], c["npaths"]), assume=False)
    yield Task("compute_capturezone", "oneka.capturezone.compute_capturezone", setup, run, post,
               {BT: Backtrace(ctx), PF + ".rasterize": Rasterize(ctx), PF + ".register": Register(ctx)}, hooks=Hooks())
