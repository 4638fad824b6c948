from .base import *
from .field import PF

N = ("ax", "ay", "bx", "by", "cx", "cy")


def setup(eng):
    return {n: real(n) for n in N}


def run(eng, ctx):
    C = cls(eng, "oneka.probabilityfield", "ProbabilityField")
    return eng.call(eng.getattr(C, "distancesquared"), [ctx[n] for n in N], {})


def at(ctx, t):
    ax, ay, bx, by, cx, cy = [ctx[n] for n in N]
    px, py = ax + t * (bx - ax) - cx, ay + t * (by - ay) - cy
    return px * px + py * py


def post(eng, ctx, o):
    if o.kind != "normal":
        eng.oblige("the distance is defined (%s)" % getattr(o.val, "name", o.val), False, assume=False)
        return
    d = R(as_num(o.val))
    ax, ay, bx, by, cx, cy = [ctx[n] for n in N]
    ux, uy = bx - ax, by - ay
    L, dot = ux * ux + uy * uy, ux * (cx - ax) + uy * (cy - ay)
    q = real("q")           # the foot of the perpendicular, clamped to the segment
    q1 = z3.If(L == 0, z3.RealVal(0), z3.If(dot <= 0, z3.RealVal(0), z3.If(dot >= L, z3.RealVal(1), q)))
    for nm, hyp, s in (("zero-length segment", L == 0, z3.RealVal(0)),
                       ("closest to end a", z3.And(L > 0, dot <= 0), z3.RealVal(0)),
                       ("closest to end b", z3.And(L > 0, dot >= L), z3.RealVal(1)),
                       ("closest to the interior", z3.And(L > 0, dot > 0, dot < L), dot / L)):
        eng.oblige("%s: equals the distance at the clamped foot" % nm, z3.Implies(hyp, d == z3.simplify(at(ctx, s))), assume=False)


def lemma(eng, ctx, o):
    """The clamped foot is the closest point of the segment."""
    ax, ay, bx, by, cx, cy = [ctx[n] for n in N]
    ux, uy = bx - ax, by - ay
    L, dot = ux * ux + uy * uy, ux * (cx - ax) + uy * (cy - ay)
    t, q = real("t"), real("q")
    # |a + t u - c|^2 - |a + s u - c|^2 = (t - s) ((t + s) L - 2 dot)
    eng.oblige("lemma: difference of squared distances",
               at(ctx, t) - at(ctx, q) == (t - q) * ((t + q) * L - 2 * dot), assume=False)
    Lc, dc = real("Lc"), real("dc")
    seg = z3.And(t >= 0, t <= 1, Lc >= 0)
    D = (t - q) * ((t + q) * Lc - 2 * dc)
    eng.oblige("lemma: end a", z3.Implies(z3.And(seg, dc <= 0, q == 0), D >= 0), assume=False)
    eng.oblige("lemma: end b", z3.Implies(z3.And(seg, dc >= Lc, q == 1), D >= 0), assume=False)
    eng.oblige("lemma: interior", z3.Implies(z3.And(seg, q * Lc == dc), D >= 0), assume=False)
    # a point of the segment is no closer in x (or y) than the nearer end
    p0, p1, c0, s0 = real("p0"), real("p1"), real("c0"), real("s0")
    off = p0 + s0 * (p1 - p0) - c0
    m0, m1 = z3.If(p0 < p1, p0, p1), z3.If(p0 > p1, p0, p1)
    on = z3.And(s0 >= 0, s0 <= 1)
    for nm, hyp, e in (("left", c0 <= m0, m0 - c0), ("right", c0 >= m1, c0 - m1)):
        e0 = real("e0")
        eng.oblige("lemma: bounding box %s, offset" % nm, z3.Implies(z3.And(on, hyp), (off if nm == "left" else -off) >= e), assume=False)
    o2, r2, e0 = real("o2"), real("r2"), real("e0")
    eng.oblige("lemma: bounding box, squares", z3.Implies(z3.And(e0 >= 0, o2 >= e0), o2 * o2 + r2 * r2 >= e0 * e0), assume=False)
    eng.oblige("lemma: zero length", z3.Implies(z3.And(L == 0), ux == 0), assume=False)
    eng.oblige("lemma: length is not negative", L >= 0, assume=False)


def tasks():
    yield Task("distancesquared", PF + ".distancesquared", setup, run, post)
    yield Task("minimality lemma", PF + ".distancesquared", setup, lambda e, c: None, lemma)
