"""Removal of the observations near a well: who takes part in what filter_obs returns."""
from . import observations as ob
from .observations import *
from engine.core import Engine


def near_well(c, i):
    """Observation i of the input is within the buffer of some well: (bound variable, formula)."""
    O, W, b = c["O"], c["W"], c["buffer"]
    k = z3.Int("uw")
    dx, dy = O[0](i) - W[0](k), O[1](i) - W[1](k)
    return k, Engine.SQRT(dx * dx + dy * dy) <= b


def post(eng, c, o):
    if "__merge" not in ghost(eng):
        raise Unsupported("no merging loop")
    sh = c["sh"]
    mg, st = ghost(eng)["__merge"]
    r = eng.st.heap[o.val.id]
    get = eng.models.seq_getter(eng, r)
    q, m, P, Q, B, FIN, GRP = st["q"], mg.m, st["P"], st["Q"], mg.BEG, mg.FIN, mg.GRP
    SRC, RANK = sh.SRC, sh.RANK
    unchanged(eng, c["pre"], o.st, [("observations", c["observations"]), ("wells", c["wellfield"])])
    eng.oblige("one result per group", eq(r.n, q), assume=False)
    a, i, t, u, w = [eng.fresh(n, "int") for n in ("a", "i", "t", "u", "well")]
    k, near = near_well(c, SRC(a))
    own = z3.And(0 <= a, a < m)
    eng.oblige("survivors are observations of the input", z3.Implies(own, z3.And(0 <= SRC(a), SRC(a) < c["m"])), assume=False)
    eng.oblige("no observation within the buffer survives", z3.Implies(z3.And(own, 0 <= w, w < I(c["nw"])), z3.Not(z3.substitute(near, (k, w)))), assume=False)
    k, near = near_well(c, i)
    eng.st.univ.append(Univ([k], z3.And(0 <= k, k < I(c["nw"])), z3.Not(near), "no well is near observation i"))
    is_in = z3.And(0 <= i, i < c["m"])
    eng.oblige("every other observation survives", z3.Implies(is_in, z3.And(0 <= RANK(i), RANK(i) < m, SRC(RANK(i)) == i)), assume=False)
    eng.st.univ.pop()
    g = GRP(Q(a))
    mg.facts(eng, st, [a, Q(a), B(t), B(u), B(g), B(g) + 1], [t, u, t + 1, u + 1, g, g + 1, q, z3.IntVal(0)])
    eng.oblige("all survivors are dealt with", st["i"] == m, assume=False)
    eng.oblige("every survivor takes part in a result", z3.Implies(own, z3.And(0 <= g, g < q, B(g) <= Q(a), Q(a) < B(g + 1), FIN(Q(a)) == a)), assume=False)
    f, h = FIN(B(t)), FIN(B(u))
    for v in (f, h):
        eng.assume(z3.Implies(z3.And(0 <= v, v < m), z3.And(0 <= SRC(v), SRC(v) < c["m"])))     # shown above for every survivor
    eng.assume(z3.Implies(z3.And(0 <= f, f < h, h < m), SRC(f) < SRC(h)))                      # a filtered list keeps the order
    eng.oblige("the order is that of the input", z3.Implies(z3.And(0 <= t, t < u, u < q), SRC(f) < SRC(h)), assume=False)
    # an observation without duplicates: no other survivor is less than a metre away
    s = z3.Int("other")
    alone = lambda b: z3.Implies(z3.And(0 <= b, b < m, b != a), z3.And(z3.Not(sh.near(a, b)), z3.Not(sh.near(b, a))))
    for b in (FIN(B(g)), FIN(B(g) + 1)):
        eng.assume(alone(b))
    for name, z in mg.value(eng, B(g), B(g + 1), mg.RET_at(g)):
        eng.assume(z3.Implies(z3.And(0 <= g, g < q), z))                                        # established when the group was completed
    v = get(g)
    v = v if isinstance(v, tuple) else eng.unpack(v, 4)
    eng.oblige("an observation without duplicates is its own group", z3.Implies(own, z3.And(B(g + 1) - B(g) == 1, FIN(B(g)) == a)), assume=False)
    eng.oblige("an observation without duplicates is passed on unchanged", z3.Implies(own, zand(*[eq(e, sh.S(n, a)) for n, e in enumerate(v)])), assume=False)


def tasks():
    yield from ob.tasks("removal", post)
