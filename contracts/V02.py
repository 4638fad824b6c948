"""Head and potential maps."""
from .plots import *
from engine.models import NANC

VIS = "oneka.visualize"
DRY, HEAD, PHI = z3.Function("DRY", R_, R_, B_), z3.Function("HEAD", R_, R_, R_), z3.Function("PHI", R_, R_, R_)


class Value(Contract):
    """compute_head (M02; raises AquiferError where the aquifer is dry) and compute_potential (M01)."""

    def __init__(self, ctx, name):
        self.ctx, self.name = ctx, name

    def call(self, eng, args, kwargs):
        f = eng.class_member(cls(eng, "oneka.model", "Model"), self.name)[1]
        b = eng.bind(f, args, kwargs)
        if b["self"] != self.ctx["model"]:
            raise Unsupported("another model")
        x, y = R(as_num(b["x"])), R(as_num(b["y"]))
        if self.name == "compute_potential":
            return PHI(x, y)
        if eng.choose(DRY(x, y)):
            raise PyRaise(eng.global_("oneka.model", "AquiferError"))
        return HEAD(x, y)


def task(what):
    ctx = {}
    name = "contour_" + what
    canvas = Canvas()

    def setup(eng):
        ctx.clear()
        C = cls(eng, "oneka.model", "Model")
        ctx["model"] = eng.alloc(InstObj(C, {"marker": z3.Real("marker")}))
        for n in ("xmin", "xmax", "ymin", "ymax"):
            ctx[n] = real(n)
        for n in ("nrows", "ncols"):
            ctx[n] = z3.Int(n)
        eng.assume(z3.And(ctx["nrows"] > 1, ctx["ncols"] > 1, ctx["xmin"] < ctx["xmax"], ctx["ymin"] < ctx["ymax"]))
        ctx["pre"] = eng.st.copy()
        return dict(ctx)

    def run(eng, c):
        f = cls(eng, VIS, name)
        return eng.call(f, [], {x.arg: c["model" if x.arg == "mo" else x.arg] for x in f.node.args.args})

    def post(eng, c, o):
        eng.oblige("drawing a map is defined (%s)" % getattr(o.val, "name", o.val), o.kind == "normal", assume=False)
        if o.kind != "normal":
            return
        X = lambda j: c["xmin"] + z3.ToReal(j) * (c["xmax"] - c["xmin"]) / z3.ToReal(c["ncols"] - 1)
        Y = lambda i: c["ymin"] + z3.ToReal(i) * (c["ymax"] - c["ymin"]) / z3.ToReal(c["nrows"] - 1)
        V = lambda i, j: PHI(X(j), Y(i)) if what == "potential" else z3.If(DRY(X(j), Y(i)), NANC, HEAD(X(j), Y(i)))
        d = c.get("drawn", ())
        eng.oblige("a map is drawn", len(d) >= 1, assume=False)
        for s in d:
            check_surface(eng, "map", s, X, Y, V, c["nrows"], c["ncols"])
        unchanged(eng, c["pre"], o.st, [("model", c["model"])])
    M = "oneka.model.Model."
    return Task(name, VIS + "." + name, setup, run, post,
                {M + "compute_head": Value(ctx, "compute_head"), M + "compute_potential": Value(ctx, "compute_potential")}, hooks=canvas)


def tasks():
    yield task("head")
    yield task("potential")
