from .field import *

DS = PF + ".distancesquared"
D2 = z3.Function("D2", R_, R_, R_, R_, R_, R_, R_)


def d2_facts(a):
    """What F01 proves about the squared distance: it is not below the squared distance to the bounding box."""
    ax, ay, bx, by, cx, cy = a.children()
    lo = lambda p, q: z3.If(p < q, p, q)
    hi = lambda p, q: z3.If(p > q, p, q)
    f = [a >= 0]
    for p, q, c in ((ax, bx, cx), (ay, by, cy)):
        f.append(z3.Implies(c <= lo(p, q), a >= (lo(p, q) - c) * (lo(p, q) - c)))
        f.append(z3.Implies(c >= hi(p, q), a >= (c - hi(p, q)) * (c - hi(p, q))))
    return z3.And(*f)


class DistanceSquared(Contract):
    """distancesquared: proved by F01 (true minimum; bounding-box lemma).  Pure."""
    inline_in_unroll = True

    def call(self, eng, args, kwargs):
        f = eng.class_member(cls(eng, "oneka.probabilityfield", "ProbabilityField"), "distancesquared")[1]
        f = getattr(f, "func", f)
        b = eng.bind(f, args, kwargs)
        if set(b) != {"ax", "ay", "bx", "by", "cx", "cy"}:
            raise Unsupported("distancesquared has other parameters than its contract")
        a = D2(*[R(as_num(b[n])) for n in ("ax", "ay", "bx", "by", "cx", "cy")])
        eng.spec_defs["D2"] = d2_facts
        return a


def box_lemmas(eng, g, d, i, j):
    """A node within the umbra lies in the index range of the segment's bounding box."""
    u = g["u"]
    near = d < u * u
    for p, q, c, k, o, s in ((g["ax"], g["bx"], d.arg(4), j, g["xmin"], g["dx"]), (g["ay"], g["by"], d.arg(5), i, g["ymin"], g["dy"])):
        ordered = p <= q
        lo, hi = (p, q) if eng.choose(ordered) else (q, p)
        h = ordered if lo is p else z3.Not(ordered)
        x = z3.ToReal(k)
        if eng.choose(near):
            eng.assume(d2_facts(d))
            eng.lemma("not before the box", [d2_facts(d), u > 0, near, h], c > lo - u)
            eng.lemma("not beyond the box", [d2_facts(d), u > 0, near, h], c < hi + u)
            eng.assume(s > 0)
            eng.lemma("first index", [s > 0, c > lo - u], (lo - u - o) / s < x)
            eng.lemma("last index", [s > 0, c < hi + u], (hi + u - o) / s > x)


def setup(eng):
    g = symbolic_field(eng)
    for n in ("ax", "ay", "bx", "by", "u"):
        g[n] = real(n)
    eng.assume(g["u"] > 0)
    eng.spec_defs["D2"] = d2_facts
    g["pre"] = eng.st.copy()
    return g


def run(eng, ctx):
    return eng.call(eng.getattr(ctx["field"], "insert"), [ctx[n] for n in ("ax", "ay", "bx", "by", "u")], {})


def post(eng, ctx, o):
    if o.kind != "normal":
        eng.oblige("inserting is defined and stays inside the grid (%s)" % getattr(o.val, "name", o.val), False, assume=False)
        return
    v = view(eng, ctx["field"])
    same_geometry(eng, "frame", v, ctx)
    inv(eng, v)
    i, j = node(eng, v, "n")
    eng.oblige("frame: probabilities and total weight unchanged", z3.And(v["P"](i, j) == ctx["P"](i, j), v["W"] == ctx["W"]), assume=False)
    d = D2(ctx["ax"], ctx["ay"], ctx["bx"], ctx["by"], ctx["xmin"] + z3.ToReal(j) * ctx["dx"], ctx["ymin"] + z3.ToReal(i) * ctx["dy"])
    u = ctx["u"]
    near = d < u * u
    box_lemmas(eng, ctx, d, i, j)
    g0, g1 = ctx["G"](i, j), v["G"](i, j)
    eng.oblige("never unmarks a node", z3.Implies(g0, g1), assume=False)
    eng.oblige("marks no node outside the umbra", z3.Implies(g1, z3.Or(g0, near)), assume=False)
    eng.oblige("marks every node within the umbra", z3.Implies(near, g1), assume=False)


def tasks():
    yield Task("insert", PF + ".insert", setup, run, post, {DS: DistanceSquared()}, seconds=120)
