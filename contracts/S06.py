"""The guarantee of a whole run at one node (arbitrary, also one that the field does not have yet): its accumulated weight is the number of
realizations some trace of which comes within the umbra of it.

The field is seen at that node only: is it marked, how much weight has it, and the total weight.  What rasterizing and registering do to a node
is proved by F04 and F05; that growing the grid moves nothing by F02."""
from .T03 import *
from .T03 import Hooks as TraceHooks
from . import analysis as A

NEAR = z3.Function("NEAR", I_, B_)          # trace number k has a segment at less than the umbra from the node
CAPTURED = z3.Function("CAPTURED", I_, B_)  # so has some trace of realization r


class RasterizeAtNode(Rasterize):
    def call(self, eng, args, kwargs):
        super().call(eng, args, kwargs)
        g = ghost(eng)
        k = g.get("__last")
        if k is None:
            raise Unsupported("a track that is not a trace")
        g["mark"] = norm(z3.simplify(z3.Or(Z(g["mark"]), NEAR(k))))
        return None


class RegisterAtNode(Contract):
    def __init__(self, ctx):
        self.ctx = ctx

    def call(self, eng, args, kwargs):
        f = eng.class_member(cls(eng, "oneka.probabilityfield", "ProbabilityField"), "register")[1]
        b = eng.bind(f, args, kwargs)
        g = ghost(eng)
        if b["self"] != self.ctx["field"]:
            raise Unsupported("another field")
        w = R(as_num(b["weight"]))
        g["acc"] = norm(z3.simplify(R(g["acc"]) + z3.If(Z(g["mark"]), w, 0)))
        g["total"] = norm(z3.simplify(R(g["total"]) + w))
        g["mark"] = False
        return None


class ResetAtNode(Contract):
    def call(self, eng, args, kwargs):
        ghost(eng)["mark"] = False
        return None


def capture_task():
    ctx = {}

    def setup(eng):
        ctx.clear()
        f = eng.alloc(InstObj(cls(eng, "oneka.probabilityfield", "ProbabilityField"), {n: Poison(n) for n in ATTRS}))
        ctx.update(field=f, feval=Opaque("feval"), npaths=z3.Int("npaths"))
        for n in ("xt", "yt", "rt", "umbra", "weight") + NUMS:
            ctx[n] = real(n)
        eng.assume(z3.And(ctx["npaths"] >= 1, ctx["rt"] > 0, ctx["umbra"] > 0, ctx["tol"] > 0, ctx["maxstep"] > 0, ctx["duration"] != 0))
        ghost(eng).update(traces=0, rasters=0, mark=False, acc=real("acc0"), total=real("total0"))
        return dict(ctx)

    def run(eng, c):
        names = dict(xtarget="xt", ytarget="yt", rtarget="rt", pfield="field")
        f = cls(eng, "oneka.capturezone", "compute_capturezone")
        kw = {}
        for x in f.node.args.args + f.node.args.kwonlyargs:
            n = names.get(x.arg, x.arg)
            if n not in c:
                raise Unsupported("unknown parameter %s" % x.arg)
            kw[x.arg] = c[n]
        return eng.call(f, [], kw)

    def post(eng, c, o):
        if o.kind not in ("normal", "return"):
            eng.oblige("computing a capture zone is defined (%s)" % getattr(o.val, "name", o.val), False, assume=False)
            return
        k = z3.Int("trace")
        some = exists_term(eng, k, NEAR(k), c["npaths"])
        eng.oblige("the weight goes to the node exactly if some trace comes within the umbra of it",
                   R(c["acc"]) == real("acc0") + z3.If(some, c["weight"], 0), assume=False)
        eng.oblige("the total grows by the weight", R(c["total"]) == real("total0") + c["weight"], assume=False)
        eng.oblige("no mark is left", eq(c["mark"], False), assume=False)
    return Task("compute_capturezone at a node", "oneka.capturezone.compute_capturezone", setup, run, post,
                {BT: Backtrace(ctx), PF + ".rasterize": RasterizeAtNode(ctx), PF + ".register": RegisterAtNode(ctx), PF + ".reset": ResetAtNode()},
                hooks=TraceHooks())


class CaptureAtNode(Contract):
    """compute_capturezone(...): proved by the task above."""

    def __init__(self, ctx):
        self.ctx = ctx

    def call(self, eng, args, kwargs):
        c = self.ctx
        b = eng.bind(cls(eng, "oneka.capturezone", "compute_capturezone"), args, kwargs)
        g = ghost(eng)
        fld = b["pfield"]
        eng.oblige("the field of this run", isinstance(fld, Ref) and g.get("field") == fld.id, assume=False)
        for n in ("xtarget", "ytarget", "rtarget", "npaths", "duration", "umbra", "tol", "maxstep"):
            want = c[{"xtarget": "xt", "ytarget": "yt", "rtarget": "rt"}.get(n, n)]
            eng.oblige("realization: %s is the caller's" % n, R(as_num(b[n])) == R(want), assume=False)
        r = g.get("__epoch", z3.IntVal(0))
        w = R(as_num(b["weight"]))
        g["acc"] = norm(z3.simplify(R(g["acc"]) + z3.If(CAPTURED(r), w, 0)))
        g["total"] = norm(z3.simplify(R(g["total"]) + w))
        return None


class NewFieldAtNode(Contract):
    def __init__(self, ctx):
        self.ctx = ctx

    def call(self, eng, args, kwargs):
        g = ghost(eng)
        eng.oblige("one field for the whole run", g.get("field") is None and "__epoch" not in g, assume=False)
        eng.st.heap[args[0].id] = InstObj(cls(eng, "oneka.probabilityfield", "ProbabilityField"), {n: Poison(n) for n in ATTRS})
        g.update(field=args[0].id, acc=z3.RealVal(0), total=z3.RealVal(0), mark=False)
        self.ctx["field"] = args[0]
        return None


def run_task(kind):
    ctx = {}
    mod, name = {"draw": ("oneka.stochastic", "create_stochastic_capturezone"),
                 "mean": ("oneka.deterministic", "create_deterministic_capturezone")}[kind]
    con = A.contracts(ctx)
    con[A.M + "fit_regional_flow"] = A.FitLight(ctx)
    con[A.CZ] = CaptureAtNode(ctx)
    con[PF + ".__init__"] = NewFieldAtNode(ctx)
    con[PF + ".register"], con[PF + ".reset"] = RegisterAtNode(ctx), ResetAtNode()

    def post(eng, c, o):
        if o.kind == "raise":
            return              # a failing fit: S04, S05
        if o.kind != "normal":
            eng.oblige("the run is defined (%s)" % (o.val,), False, assume=False)
            return
        eng.oblige("the field of the run is returned", isinstance(o.val, Ref) and o.val.id == c.get("field"), assume=False)
        N = c["nrealizations"] if kind == "draw" else z3.IntVal(1)
        r = z3.Int("realization")
        eng.oblige("the weight of the node is the number of realizations that capture it",
                   R(c["acc"]) == sum_term(eng, r, z3.If(CAPTURED(r), z3.RealVal(1), z3.RealVal(0)), N)
                   if kind == "draw" else R(c["acc"]) == z3.If(CAPTURED(z3.IntVal(0)), z3.RealVal(1), z3.RealVal(0)), assume=False)
        eng.oblige("the total weight is the number of realizations", R(c["total"]) == z3.ToReal(N), assume=False)
    return Task(name + " at a node", mod + "." + name, A.setup_for(kind, ctx), A.run_for(mod, name), post, con, hooks=A.Hooks())


def tasks():
    yield capture_task()
    yield run_task("draw")
    yield run_task("mean")
