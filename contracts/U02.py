"""Merging of duplicate observations."""
from . import observations as ob
from .observations import *


def post(eng, c, o):
    if "__merge" not in ghost(eng):
        raise Unsupported("no merging loop")
    sh = c["sh"]
    mg, st = ghost(eng)["__merge"]
    r = eng.st.heap[o.val.id]
    get = eng.models.seq_getter(eng, r)
    q, i, m, P, Q, B, FIN, GRP = st["q"], st["i"], mg.m, st["P"], st["Q"], mg.BEG, mg.FIN, mg.GRP
    t, u, x, a = [eng.fresh(n, "int") for n in ("t", "u", "x", "a")]
    unchanged(eng, c["pre"], o.st, [("observations", c["observations"]), ("wells", c["wellfield"])])
    eng.oblige("all survivors are dealt with", i == m, assume=False)
    eng.oblige("one result per group", eq(r.n, q), assume=False)
    mg.facts(eng, st, [x, a, B(t), B(u), Q(a), B(GRP(Q(a)))], [t, u, t + 1, u + 1, q, GRP(Q(a)), z3.IntVal(0)])
    ok_t = z3.And(0 <= t, t < q)
    v = get(t)
    v = v if isinstance(v, tuple) else eng.unpack(v, 4)
    v = [z3.simplify(R(as_num(e))) for e in v]
    # the t-th result is made of group t: positions B(t) .. B(t+1)-1 of the rearranged survivors
    for name, g in mg.value(eng, B(t), B(t + 1), mg.RET_at(t)):
        eng.assume(z3.Implies(ok_t, g))           # established when the group was completed, see Merge.check
    for name, g in mg.value(eng, B(t), B(t + 1), v):
        eng.oblige("result t: %s" % name, z3.Implies(ok_t, g), assume=False)
    eng.oblige("the groups cover the survivors without overlap",
               z3.And(B(0) == 0, B(q) == m, z3.Implies(ok_t, z3.And(0 <= B(t), B(t) < B(t + 1), B(t + 1) <= m))), assume=False)
    own = z3.And(0 <= a, a < m)
    g = GRP(Q(a))
    eng.oblige("every survivor is in a group", z3.Implies(own, z3.And(0 <= g, g < q, B(g) <= Q(a), Q(a) < B(g + 1), FIN(Q(a)) == a)), assume=False)
    eng.oblige("and in one only", z3.Implies(z3.And(0 <= x, x < m, FIN(x) == a, own), x == Q(a)), assume=False)
    f = FIN(B(t))
    eng.oblige("a group is made of the observations less than a metre from its first",
               z3.Implies(z3.And(ok_t, B(t) < x, x < B(t + 1)), z3.And(sh.near(f, FIN(x)), f < FIN(x))), assume=False)
    eng.oblige("an observation joins the first retained location within a metre",
               z3.Implies(z3.And(ok_t, x >= B(t + 1), x < m), z3.And(z3.Not(sh.near(f, FIN(x))), f < FIN(x))), assume=False)
    sh.define_near(eng, f, FIN(B(u)))
    w = get(u)
    w = w if isinstance(w, tuple) else eng.unpack(w, 4)
    for name, g in mg.value(eng, B(u), B(u + 1), mg.RET_at(u)):
        eng.assume(z3.Implies(z3.And(0 <= u, u < q), g))
    dx, dy = v[0] - R(as_num(w[0])), v[1] - R(as_num(w[1]))
    eng.oblige("retained locations are a metre apart", z3.Implies(z3.And(0 <= t, t < u, u < q), dx * dx + dy * dy >= 1), assume=False)
    eng.oblige("the order is that of the first of each group", z3.Implies(z3.And(0 <= t, t < u, u < q), f < FIN(B(u))), assume=False)


def tasks():
    yield from ob.tasks("duplicates", post)
