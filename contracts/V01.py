"""The impact curve.  Sorting is an external function: numpy.sort of the flattened field is the field's node
probabilities in non-decreasing order."""
from .plots import *

VIS = "oneka.visualize"


class Hooks(Canvas):
    WATCH = ()


def tasks():
    ctx = {}

    def setup(eng):
        ctx.clear()
        g = symbolic_field(eng, invariant=True)
        ctx.update(g)
        ctx["spacing"] = real("spacing")
        # the caller's spacing is that of the field
        eng.assume(z3.And(ctx["dx"] == ctx["spacing"], ctx["dy"] == ctx["spacing"]))
        ctx["pre"] = eng.st.copy()
        return dict(ctx)

    def run(eng, c):
        f = cls(eng, VIS, "create_impact_plot")
        return eng.call(f, [], {x.arg: c["field" if x.arg == "pf" else x.arg] for x in f.node.args.args})

    def post(eng, c, o):
        keep = [("field", c["field"])] + [(n, eng.getattr(c["field"], n)) for n in ("pgrid", "rgrid")]
        if o.kind == "raise":
            eng.oblige("only an empty field is refused (%s)" % o.val.name, c["W"] <= 0, assume=False)
            unchanged(eng, c["pre"], o.st, keep)
            return
        eng.oblige("the plot is defined (%s)" % (o.val,), o.kind == "normal", assume=False)
        if o.kind != "normal":
            return
        eng.oblige("an empty field is refused", c["W"] > 0, assume=False)
        unchanged(eng, c["pre"], o.st, keep)
        if not isinstance(o.val, tuple) or len(o.val) != 2:
            raise Unsupported("form of the result")
        pr, area = [eng.models.rec_of(eng, v) for v in o.val]
        if pr.ndim != 1 or area.ndim != 1:
            raise Unsupported("form of the result")
        n = I(c["nr"]) * I(c["nc"])
        # the node probabilities in ascending order
        want = eng.alloc(ArrObj((c["nr"], c["nc"]), get=lambda ix: c["P"](I(ix[0]), I(ix[1])) / c["W"]))
        srt = eng.models.rec_of(eng, eng.models.x_numpy_sort(eng, [want], {"axis": None}))
        eng.oblige("one probability and one area per node", zand(eq(pr.shape[0], n), eq(area.shape[0], n)), assume=False)
        i = eng.fresh("rank", "int")
        eng.assume(z3.And(i >= 0, i < n))
        eng.oblige("the probabilities are those of the nodes, the largest first",
                   R(as_num(arr_get(eng, pr, (i,)))) == R(as_num(arr_get(eng, srt, (n - 1 - i,)))), assume=False)
        eng.oblige("the k-th area is that of k cells", R(as_num(arr_get(eng, area, (i,)))) == z3.ToReal(i + 1) * c["spacing"] * c["spacing"], assume=False)
        j = eng.fresh("rank2", "int")
        eng.assume(z3.And(j == i + 1, j < n))
        eng.oblige("the probabilities do not increase", R(as_num(arr_get(eng, pr, (i,)))) >= R(as_num(arr_get(eng, pr, (j,)))), assume=False)
    yield Task("create_impact_plot", VIS + ".create_impact_plot", setup, run, post, {}, hooks=Hooks())
