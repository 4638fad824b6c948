"""Capture-zone plots."""
from .plots import *

VIS = "oneka.visualize"
SMOOTHED = z3.Function("SMOOTHED", I_, I_, R_)


class Plot(Canvas):
    WATCH = SURFACE + ("fill", "plot", "scatter")

    def __init__(self, ctx):
        self.ctx = ctx

    def loop_iter(self, eng, K):
        g = ghost(eng)
        g["__Ks"] = g.get("__Ks", ()) + (K,)

    def other(self, eng, path, a, k):
        if path == "scipy.ndimage.gaussian_filter":
            return self.smoothing(eng, a, k)
        return NotImplemented

    def smoothing(self, eng, a, k):
        c = self.ctx
        z, sigma = a[0], a[1] if len(a) > 1 else k.get("sigma")
        s = by_value(eng, z)
        if not isinstance(s, Seq) or len(getattr(s, "shape", ())) != 2 or not is_num(sigma) or set(k) - {"mode", "cval", "sigma", "truncate"}:
            raise Unsupported("arguments of gaussian_filter")
        eng.oblige("smoothing: by the requested width", R(sigma) == R(c["smooth"]), assume=False)
        keep = eng.st
        eng.st = keep.copy()
        i, j = eng.fresh("row", "int"), eng.fresh("col", "int")
        eng.assume(z3.And(i >= 0, i < I(c["nr"]), j >= 0, j < I(c["nc"])))
        eng.oblige("smoothing: of the whole field", zand(eq(s.shape[0], c["nr"]), eq(s.shape[1], c["nc"])), assume=False)
        eng.oblige("smoothing: of the normalized field", R(as_num(s.get((i, j)))) == c["P"](i, j) / c["W"], assume=False)
        eng.st = keep
        ghost(eng)["smoothed"] = ghost(eng).get("smoothed", 0) + 1
        return eng.alloc(ArrObj((c["nr"], c["nc"]), get=lambda ix: SMOOTHED(I(ix[0]), I(ix[1]))))

    def draw(self, eng, n, a, k):
        if n in SURFACE:
            return Canvas.draw(self, eng, n, a, k)
        if n in ("plot", "scatter"):
            fmt = k.get("marker", a[2] if len(a) > 2 and isinstance(a[2], str) else "")
            if not isinstance(fmt, str):
                raise Unsupported("marker")
            if "*" in fmt:
                g = ghost(eng)
                if "__Ks" in g:
                    raise Unsupported("stars drawn in a loop")
                g["stars"] = g.get("stars", ()) + (tuple(by_value(eng, x) for x in a[:2]),)
            return
        self.fill(eng, a, k)

    def fill(self, eng, a, k):
        """A polygon is filled: it has to be the cell of a node."""
        c = self.ctx
        if len(a) < 2:
            raise Unsupported("form of a fill call")
        xs, ys = [self.corners(eng, v) for v in a[:2]]
        g = ghost(eng)
        if len(xs) != len(ys):
            raise Unsupported("corners of a polygon")
        found = None
        hx, hy = c["X"](z3.IntVal(1)) - c["X"](z3.IntVal(0)), c["Y"](z3.IntVal(1)) - c["Y"](z3.IntVal(0))
        ks = g.get("__Ks", ())

        def sides(vs, at, h, k):
            out = []
            for v in vs:
                for s in (-1, 1):
                    if valid(eng, v == at(k) + s * h / 2):
                        out.append(s)
                        break
                else:
                    return None
            return out
        for j in ks:
            sx = sides(xs, c["X"], hx, j)
            if sx is None:
                continue
            for i in ks:
                sy = sides(ys, c["Y"], hy, i)
                if sy is not None:
                    found = (i, j, sx, sy)
                    break
            if found:
                break
        if found is None:
            raise Unsupported("a filled polygon that is not recognized as the cell of a node")
        i, j, sx, sy = found
        pts = list(zip(sx, sy))
        if len(pts) == 5 and pts[0] == pts[4]:
            pts.pop()
        ring = len(pts) == 4 and len(set(pts)) == 4 and all((p[0] != q[0]) + (p[1] != q[1]) == 1 for p, q in zip(pts, pts[1:] + pts[:1]))
        eng.oblige("a filled polygon is a whole cell", ring, assume=False)
        inside = z3.And(i >= 0, i < I(c["nr"]), j >= 0, j < I(c["nc"]))
        if not eng.quiet:
            eng.oblige("fill: a node of the field", inside, assume=False)
            eng.oblige("fill: only nodes with a positive probability", c["P"](i, j) / c["W"] > 0, assume=False)
            eng.oblige("fill: no node twice", R(as_num(eng.models.arr_get(eng, eng.obj(c["filled"]), (i, j)))) == 0, assume=False)
        eng.models.setitem(eng, c["filled"], (i, j), z3.RealVal(1))
        g["area"] = norm(R(g["area"]) + hx * hy)

    def corners(self, eng, v):
        o = eng.obj(v) if isinstance(v, Ref) else None
        items = v if isinstance(v, tuple) else v.items if isinstance(v, Vec) else getattr(o, "items", None)
        if items is None or len(items) not in (4, 5) or not all(is_num(x) for x in items):
            raise Unsupported("corners of a polygon")
        return [R(as_num(x)) for x in items]


def valid(eng, f):
    if z3.is_true(z3.simplify(f)):
        return True
    return eng.solver.valid(eng.st.pc, f, ms=1500)


def task(kind):
    ctx = {}
    name = "create_%s_plot" % kind

    def setup(eng):
        ctx.clear()
        g = symbolic_field(eng, invariant=True)
        ctx.update(g)
        nw, t = z3.Int("n_wells"), z3.Int("target")
        eng.assume(z3.And(nw >= 1, t >= 0, t < nw))
        wells, _, W = num_seq(eng, "wells", 4, n=nw)
        obs, no, O = num_seq(eng, "obs", 4)
        ctx.update(wells=wells, Wl=W, obs=obs, target=t, smooth=real("smooth"))
        eng.assume(ctx["smooth"] >= 0)
        ctx["X"] = lambda j: g["xmin"] + z3.ToReal(j) * (g["xmax"] - g["xmin"]) / z3.ToReal(I(g["nc"]) - 1)
        ctx["Y"] = lambda i: g["ymin"] + z3.ToReal(i) * (g["ymax"] - g["ymin"]) / z3.ToReal(I(g["nr"]) - 1)
        ctx["filled"] = eng.alloc(ArrObj((g["nr"], g["nc"]), get=lambda ix: z3.RealVal(0)))
        ghost(eng)["area"] = z3.RealVal(0)
        ctx["pre"] = eng.st.copy()
        return dict(ctx)

    def run(eng, c):
        f = cls(eng, VIS, name)
        m = dict(target="target", stochastic_wells="wells", obs="obs", pf="field", smooth="smooth")
        return eng.call(f, [], {x.arg: c[m[x.arg]] for x in f.node.args.args if not (kind == "deterministic" and x.arg == "smooth")})

    def post(eng, c, o):
        drawn = c.get("drawn", ())
        keep = [("field", c["field"]), ("wells", c["wells"]), ("observations", c["obs"])] + \
            [(n, eng.getattr(c["field"], n)) for n in ("pgrid", "rgrid")]
        if o.kind == "raise":
            eng.oblige("only a field without any realization is refused (%s)" % o.val.name, c["W"] <= 0, assume=False)
            unchanged(eng, c["pre"], o.st, keep)
            return
        eng.oblige("the plot is defined (%s)" % (o.val,), o.kind == "normal", assume=False)
        if o.kind != "normal":
            return
        eng.oblige("a field without any realization is refused", c["W"] > 0, assume=False)
        P = lambda i, j: c["P"](i, j) / c["W"]
        if kind == "probability":
            eng.oblige("a map is drawn", len(drawn) >= 1, assume=False)
            eng.oblige("the field is smoothed exactly if this is requested", (c["smooth"] > 0) if c.get("smoothed", 0) else c["smooth"] <= 0, assume=False)
            V = SMOOTHED if c.get("smoothed", 0) else P
        else:
            V = P
        # the true coordinates of a node
        X = lambda j: c["xmin"] + z3.ToReal(j) * c["dx"]
        Y = lambda i: c["ymin"] + z3.ToReal(i) * c["dy"]
        for s in drawn:
            check_surface(eng, "map", s, X, Y, V, c["nr"], c["nc"])
        st = c.get("stars", ())
        eng.oblige("one well is starred", len(st) == 1, assume=False)
        for s in st:
            xy = [v.items[0] if isinstance(v, Vec) and len(v.items) == 1 else v for v in s]
            if not all(is_num(v) for v in xy) or len(xy) != 2:
                raise Unsupported("place of a star")
            eng.oblige("the starred well is the target", z3.And(R(xy[0]) == c["Wl"][0](c["target"]), R(xy[1]) == c["Wl"][1](c["target"])), assume=False)
        if kind == "deterministic":
            save = eng.st
            eng.st = save.copy()
            i, j = eng.fresh("row", "int"), eng.fresh("col", "int")
            eng.assume(z3.And(i >= 0, i < I(c["nr"]), j >= 0, j < I(c["nc"])))
            eng.oblige("the cell of every node with a positive probability is filled",
                       z3.Implies(P(i, j) > 0, R(as_num(eng.models.arr_get(eng, eng.obj(c["filled"]), (i, j)))) == 1), assume=False)
            eng.st = save
            eng.oblige("the cells have the size of the field's spacing", z3.And(c["X"](z3.IntVal(1)) - c["X"](z3.IntVal(0)) == c["dx"],
                                                                                 c["Y"](z3.IntVal(1)) - c["Y"](z3.IntVal(0)) == c["dy"]), assume=False)
            eng.oblige("the area adds up the filled cells", R(as_num(o.val)) == R(c["area"]) if as_num(o.val) is not None else False, assume=False)
        unchanged(eng, c["pre"], o.st, keep)
    return Task(name, VIS + "." + name, setup, run, post, {}, hooks=Plot(ctx))


def tasks():
    yield task("probability")
    yield task("deterministic")
