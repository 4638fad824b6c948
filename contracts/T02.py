from . import trace
from .base import *
from fractions import Fraction as Q
from functools import reduce
from math import comb


def q_(a):
    return z3.RealVal("%d/%d" % (a.numerator, a.denominator))


def trees(n, cap=None):
    """Rooted trees with n vertices, as sorted tuples of their branches."""
    if n == 1:
        return [()]
    out = set()

    def split(left, most, branches):
        if left == 0:
            out.add(tuple(sorted(branches)))
        for m in range(min(left, most), 0, -1):
            for t in trees(m):
                split(left - m, m, branches + [t])
    split(n - 1, n - 1, [])
    return sorted(out)


def size(t):
    return 1 + sum(size(b) for b in t)


def gamma(t):
    return size(t) * reduce(lambda a, b: a * gamma(b), t, 1)


def weight(t, i, S):
    """Elementary weight of the tree at stage i."""
    w = z3.RealVal(1)
    for b in t:
        w = w * sum((q_(a) * weight(b, j, S) for j, a in enumerate(S[i]) if a), z3.RealVal(0))
    return w


def lemma(eng, ctx, o):
    """The formula that the steps are compared with: its order, and the fields for which it is exact."""
    S = trace.A                                     # the last row is also the row of weights
    for nm, b, order in (("step", S[6], 5), ("embedded", trace.B4, 4)):
        for n in range(1, order + 1):
            for t in trees(n):
                eng.oblige("order condition of the %s, tree %s" % (nm, t),
                           sum((q_(w) * weight(t, i, S) for i, w in enumerate(b) if w), z3.RealVal(0)) == q_(Q(1, gamma(t))), assume=False)
    # velocity = v U + p(U.P) N, with N normal to U: along U the stages are evenly driven whatever p is
    a, b, v, h, x, y = [real(n) for n in ("a", "b", "v", "h", "x", "y")]
    U, N, r = (a, b), (-b, a), a * a + b * b
    cs = [sum(row, Q(0)) for row in S]
    w = [real("w%d" % j) for j in range(7)]         # p at the stages
    k = [tuple(v * U[c] + w[j] * N[c] for c in range(2)) for j in range(7)]
    for i in range(1, 7):
        q = [(x, y)[c] + trace.combo(h, k, S[i], c) for c in range(2)]
        eng.oblige("exactness: stage %d lies %s of the step along" % (i + 1, cs[i]),
                   trace.som(a * q[0] + b * q[1] - (a * x + b * y) - q_(cs[i]) * h * v * r) == 0, assume=False)
    for c in range(2):
        new = (x, y)[c] + trace.combo(h, k, S[6], c)
        split = (x, y)[c] + h * v * U[c] + N[c] * h * sum((q_(g) * w[j] for j, g in enumerate(S[6]) if g), z3.RealVal(0))
        eng.oblige("exactness: the step is the uniform motion plus the weighted values across (%s)" % "xy"[c],
                   trace.som(new - split) == 0, assume=False)
    # z = U.P moves at the rate s = v r: the weighted values of z**m sum to its integral over the step
    z, s = real("z"), real("s")
    power = lambda u, m: reduce(lambda p, _: p * u, range(m), z3.RealVal(1))
    for m in range(5):
        got = h * sum((q_(g) * power(z + q_(cs[j]) * h * s, m) for j, g in enumerate(S[6]) if g), z3.RealVal(0))
        exact = sum((q_(Q(comb(m, j), j + 1)) * power(z, m - j) * power(s, j) * power(h, j + 1) for j in range(m + 1)), z3.RealVal(0))
        eng.oblige("exactness: integral of the power %d across" % m, trace.som(got - exact) == 0, assume=False)
        rate = sum((q_(Q(comb(m, j))) * power(z, m - j) * power(s, j) * power(h, j) for j in range(m + 1)), z3.RealVal(0))
        eng.oblige("exactness: its rate of change is the power %d" % m, trace.som(rate - power(z + h * s, m)) == 0, assume=False)


def tasks():
    yield trace.task("compute_backtrace, positive duration", "T02", 1)
    yield trace.task("compute_backtrace, negative duration", "T02", -1)
    yield Task("order and exactness lemma", trace.BT, lambda eng: {}, lambda eng, c: None, lemma)
