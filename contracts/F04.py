from .field import *
from .F03 import D2, d2_facts
from engine.models import arr_get


class Expand(Contract):
    """expand: proved by F02.  Refuses an inverted box; otherwise grows by whole rows and columns so that the
    box lies strictly inside, moving contents with their world coordinates; new nodes are zero and unmarked."""

    def call(self, eng, args, kwargs):
        f = eng.class_member(cls(eng, "oneka.probabilityfield", "ProbabilityField"), "expand")[1]
        b = eng.bind(f, args, kwargs)
        fld = b["self"]
        x0, x1, y0, y1 = [R(as_num(b[n])) for n in ("xmin", "xmax", "ymin", "ymax")]
        gh = ghost(eng)
        gh["expands"] = gh.get("expands", ()) + ((x0, x1, y0, y1),)
        if eng.choose(z3.Or(x0 > x1, y0 > y1)):
            raise PyRaise(eng.global_("oneka.probabilityfield", "RangeError"))
        o = eng.obj(fld)
        if norm(o.attrs["nrows"]) == 0 and isinstance(norm(o.attrs["nrows"]), int):
            # a field without nodes
            at = dict(o.attrs)
            nr, nc = eng.fresh("nr", "int"), eng.fresh("nc", "int")
            xmin, ymin, xmax, ymax = [eng.fresh(n) for n in ("xmin", "ymin", "xmax", "ymax")]
            dx, dy = R(as_num(at["deltax"])), R(as_num(at["deltay"]))
            eng.assume(z3.And(nr >= 3, nc >= 3, xmin < x0, x1 < xmax, ymin < y0, y1 < ymax,
                              xmax == xmin + z3.ToReal(nc - 1) * dx, ymax == ymin + z3.ToReal(nr - 1) * dy))
            at.update(xmin=xmin, ymin=ymin, xmax=xmax, ymax=ymax, nrows=nr, ncols=nc, total_weight=Fraction(0),
                      pgrid=eng.alloc(ArrObj((nr, nc), get=lambda ix: z3.RealVal(0))),
                      rgrid=eng.alloc(ArrObj((nr, nc), get=lambda ix: z3.BoolVal(False), dtype="bool")))
            eng.st.heap[fld.id] = InstObj(o.cls, at)
            return None
        v = view(eng, fld)
        cs, rs, nc, nr = [eng.fresh(n, "int") for n in ("cs", "rs", "nc", "nr")]
        xmin, ymin = v["xmin"] - z3.ToReal(cs) * v["dx"], v["ymin"] - z3.ToReal(rs) * v["dy"]
        xmax, ymax = xmin + z3.ToReal(nc - 1) * v["dx"], ymin + z3.ToReal(nr - 1) * v["dy"]
        eng.assume(z3.And(cs >= 0, rs >= 0, nc >= cs + v["nc"], nr >= rs + v["nr"]))
        eng.assume(z3.And(xmin < x0, x1 < xmax, ymin < y0, y1 < ymax))
        o = eng.obj(fld)
        at = dict(o.attrs)
        P0, G0, nr0, nc0 = v["P"], v["G"], v["nr"], v["nc"]
        old = lambda ix: z3.And(I(ix[0]) - rs >= 0, I(ix[0]) - rs < nr0, I(ix[1]) - cs >= 0, I(ix[1]) - cs < nc0)
        at.update(xmin=xmin, ymin=ymin, xmax=xmax, ymax=ymax, nrows=nr, ncols=nc,
                  pgrid=eng.alloc(ArrObj((nr, nc), get=lambda ix: z3.If(old(ix), P0(I(ix[0]) - rs, I(ix[1]) - cs), z3.RealVal(0)))),
                  rgrid=eng.alloc(ArrObj((nr, nc), get=lambda ix: z3.And(old(ix), G0(I(ix[0]) - rs, I(ix[1]) - cs)), dtype="bool")))
        eng.st.heap[fld.id] = InstObj(o.cls, at)
        gh["grown"] = (rs, cs)
        return None


class Insert(Contract):
    """insert: proved by F03.  Marks exactly the nodes whose squared distance to the segment is below the
    squared umbra; changes nothing else."""

    def call(self, eng, args, kwargs):
        f = eng.class_member(cls(eng, "oneka.probabilityfield", "ProbabilityField"), "insert")[1]
        b = eng.bind(f, args, kwargs)
        fld = b["self"]
        a = [R(as_num(b[n])) for n in ("ax", "ay", "bx", "by")]
        u = R(as_num(b["umbra"]))
        eng.spec_defs["D2"] = d2_facts
        eng.oblige("insert: the umbra is positive", u > 0)
        v = view(eng, fld)
        o = eng.obj(fld)
        rg = v["rg"]
        G0 = v["G"]

        def get(ix):
            i, j = I(ix[0]), I(ix[1])
            cx = v["xmin"] + z3.ToReal(j) * v["dx"]
            cy = v["ymin"] + z3.ToReal(i) * v["dy"]
            return z3.Or(G0(i, j), D2(*(a + [cx, cy])) < u * u)
        r = o.attrs["rgrid"]
        eng.st.heap[r.id] = ArrObj(rg.shape, get=get, dtype="bool")
        return None


def setup(eng):
    return track(eng, symbolic_field(eng))


def track(eng, g):
    """A track of any number of vertices and an umbra."""
    n = z3.Int("n_track")
    eng.assume(n >= 1)
    X, Y = z3.Function("X", I_, R_), z3.Function("Y", I_, R_)
    g.update(n=n, X=X, Y=Y, u=real("u"), x=eng.alloc(ListObj(n=n, get=lambda i: X(I(i)), frozen=True)),
             y=eng.alloc(ListObj(n=n, get=lambda i: Y(I(i)), frozen=True)))
    eng.assume(g["u"] > 0)
    g["pre"] = eng.st.copy()
    return g


def run(eng, ctx):
    return eng.call(eng.getattr(ctx["field"], "rasterize"), [ctx["x"], ctx["y"], ctx["u"]], {})


def post(eng, ctx, o):
    if o.kind != "normal":
        eng.oblige("rasterizing is defined (%s)" % getattr(o.val, "name", o.val), False, assume=False)
        return
    v = view(eng, ctx["field"])
    u, X, Y, n = ctx["u"], ctx["X"], ctx["Y"], ctx["n"]
    gr = ctx.get("grown")
    cs, rs = (gr[1], gr[0]) if gr else (z3.IntVal(0), z3.IntVal(0))
    eng.oblige("the field grows by whole columns and rows",
               z3.And(cs >= 0, rs >= 0, v["xmin"] == ctx["xmin"] - z3.ToReal(cs) * ctx["dx"], v["ymin"] == ctx["ymin"] - z3.ToReal(rs) * ctx["dy"],
                      cs + I(ctx["nc"]) <= v["nc"], rs + I(ctx["nr"]) <= v["nr"], v["dx"] == ctx["dx"], v["dy"] == ctx["dy"], v["W"] == ctx["W"]), assume=False)
    inv(eng, v)
    k = eng.fresh("vk", "int")
    eng.assume(z3.And(k >= 0, k < n))
    eng.oblige("the grid extends beyond the umbra of every vertex in x", z3.And(v["xmin"] < X(k) - u, v["xmax"] > X(k) + u), assume=False)
    eng.oblige("the grid extends beyond the umbra of every vertex in y", z3.And(v["ymin"] < Y(k) - u, v["ymax"] > Y(k) + u), assume=False)
    i, j = node(eng, v, "n")
    old = z3.And(i - rs >= 0, i - rs < I(ctx["nr"]), j - cs >= 0, j - cs < I(ctx["nc"]))
    eng.oblige("earlier probabilities keep their world coordinates", z3.Implies(old, v["P"](i, j) == ctx["P"](i - rs, j - cs)), assume=False)
    eng.oblige("new nodes have no probability", z3.Implies(z3.Not(old), v["P"](i, j) == 0), assume=False)
    was = z3.And(old, ctx["G"](i - rs, j - cs))
    cx, cy = v["xmin"] + z3.ToReal(j) * v["dx"], v["ymin"] + z3.ToReal(i) * v["dy"]
    s = z3.Int("spseg")
    near = lambda t: D2(X(t), Y(t), X(t + 1), Y(t + 1), cx, cy) < u * u
    seg = eng.fresh("seg", "int")
    now = v["G"](i, j)
    eng.oblige("earlier marks are kept", z3.Implies(was, now), assume=False)
    eng.oblige("every node near a segment is marked", z3.Implies(z3.And(seg >= 0, seg < n - 1, near(seg)), now), assume=False)
    some = exists_term(eng, s, near(s), n - 1, ())
    eng.oblige("no other node is marked", z3.Implies(now, z3.Or(was, some)), assume=False)
    unchanged(eng, ctx["pre"], o.st, [("x", ctx["x"]), ("y", ctx["y"])], "track")


# ---- the first track of a field without nodes
def setup_e(eng):
    g = {n: real(n) for n in ("dx", "dy")}
    eng.assume(z3.And(g["dx"] > 0, g["dy"] > 0))
    return track(eng, g)


def run_e(eng, ctx):
    f = eng.instantiate(cls(eng, "oneka.probabilityfield", "ProbabilityField"), [ctx["dx"], ctx["dy"]], {})
    ghost(eng)["field"] = f
    return eng.call(eng.getattr(f, "rasterize"), [ctx["x"], ctx["y"], ctx["u"]], {})


def post_e(eng, ctx, o):
    if o.kind != "normal":
        eng.oblige("first track: rasterizing is defined (%s)" % getattr(o.val, "name", o.val), False, assume=False)
        return
    if set(eng.obj(ctx["field"]).attrs) != ATTRS:
        raise Unsupported("unknown attributes")
    v = view(eng, ctx["field"])
    u, X, Y, n = ctx["u"], ctx["X"], ctx["Y"], ctx["n"]
    inv(eng, v, "first track")
    k = eng.fresh("vk", "int")
    eng.assume(z3.And(k >= 0, k < n))
    eng.oblige("first track: the grid extends beyond the umbra of every vertex in x", z3.And(v["xmin"] < X(k) - u, v["xmax"] > X(k) + u), assume=False)
    eng.oblige("first track: the grid extends beyond the umbra of every vertex in y", z3.And(v["ymin"] < Y(k) - u, v["ymax"] > Y(k) + u), assume=False)
    i, j = node(eng, v, "n")
    eng.oblige("first track: no probability, no weight", z3.And(v["P"](i, j) == 0, v["W"] == 0), assume=False)
    cx, cy = v["xmin"] + z3.ToReal(j) * v["dx"], v["ymin"] + z3.ToReal(i) * v["dy"]
    s = z3.Int("spseg")
    near = lambda t: D2(X(t), Y(t), X(t + 1), Y(t + 1), cx, cy) < u * u
    seg = eng.fresh("seg", "int")
    now = v["G"](i, j)
    eng.oblige("first track: every node near a segment is marked", z3.Implies(z3.And(seg >= 0, seg < n - 1, near(seg)), now), assume=False)
    some = exists_term(eng, s, near(s), n - 1, ())
    eng.oblige("first track: no other node is marked", z3.Implies(now, some), assume=False)
    unchanged(eng, ctx["pre"], o.st, [("x", ctx["x"]), ("y", ctx["y"])], "first track")


def tasks():
    yield Task("rasterize, a field without nodes", PF + ".rasterize", setup_e, run_e, post_e, {PF + ".expand": Expand(), PF + ".insert": Insert()})
    yield Task("rasterize", PF + ".rasterize", setup, run, post, {PF + ".expand": Expand(), PF + ".insert": Insert()})
