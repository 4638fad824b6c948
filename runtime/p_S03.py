from lib import *


class Thing:
    def __repr__(self):
        return "Thing()"


OTHER = ["None", "'abc'", "''", "{}", "{1: 2, 3: 4}", "{1, 2}", "np.array([1.0, 2.0])", "np.array([1.0, 2.0, 3.0])", "np.array(1.0)", "1j", "range(2)", "b'ab'", "object()", "np.array([])",
         "'ab'", "'abc'", "frozenset([1.0, 2.0])", "iter([1, 2])", "type(1.0)", "np.int64(1)", "np.float32(1.0)", "__import__('fractions').Fraction(1, 2)", "__import__('decimal').Decimal(1)"]


def bound(rng, L):
    lo = rng.choice([-inf, 0, 0.0, L.num(rng, 10.0)])
    hi = rng.choice([inf, 1, 1.0, L.num(rng, 10.0), lo])
    return lo, hi


def value(rng, L, lo, hi):
    c = [L.num(rng, 10.0), L.num(rng, 1.0), rng.randint(-2, 3), 0, 0.0, 1, inf, -inf]
    if rng.random() < 0.02:
        return nan
    for b in (lo, hi):
        if math.isfinite(b):
            c += [b, b, b + 1e-9, b - 1e-9, b + rng.random(), b - rng.random()]
    return rng.choice(c)


def gen(rng, L):
    lo, hi = bound(rng, L)
    k = rng.random()
    if k < 0.15:
        return dict(kind="other", e=rng.choice(OTHER), lo=lo, hi=hi)
    if k < 0.3:
        v = value(rng, L, lo, hi)
        if rng.random() < 0.2:
            return dict(kind="scalar", e="np.float64(%r)" % float(v), lo=lo, hi=hi)
        return dict(kind="scalar", e=repr(v), lo=lo, hi=hi)
    n = rng.choice([0, 1, 2, 2, 2, 3, 3, 3, 3, 4, 5, 6])
    v = [value(rng, L, lo, hi) for _ in range(n)]
    r = rng.random()
    if r < 0.6:
        v.sort(key=lambda t: t if t == t else 0.0)
    if r < 0.4 and lo < hi:
        v = [min(max(t, lo), hi) for t in v]
        if n and rng.random() < 0.3:
            i = rng.randrange(n)
            v[i] = value(rng, L, lo, hi)
    if n > 1 and rng.random() < 0.15:
        v[rng.randrange(1, n)] = v[0]
    return dict(kind="seq%d" % n, e=repr(rng.choice([tuple, list])(v)), lo=lo, hi=hi)


def want(v, lo, hi):
    if isinstance(v, (int, float)):
        return lo <= v <= hi
    if isinstance(v, (tuple, list)) and len(v) in (2, 3):
        return all(lo <= t <= hi for t in v) and all(a <= b for a, b in zip(v, v[1:]))
    return False


def check(c):
    import oneka.stochastic as st
    v = eval(c["e"], {"inf": inf, "nan": nan, "np": np})
    before = repr(v)
    try:
        r = st.isdistribution(v, c["lo"], c["hi"])
    except Exception as e:
        fail("isdistribution(%s, %r, %r) raises %r", c["e"], c["lo"], c["hi"], e)
    w = want(v, c["lo"], c["hi"])
    need(bool(r) == w, "isdistribution(%s, %r, %r) is %r, expected %r", c["e"], c["lo"], c["hi"], r, w)
    need(repr(v) == before, "the value was changed")


def fixed():
    for e in OTHER:
        yield dict(kind="other", e=e, lo=-inf, hi=inf)
        yield dict(kind="other", e=e, lo=0, hi=10)
    for e in ("(0, 1)", "[0, 1]", "(1, 0)", "(0, 0.5, 1)", "[0, 0.5, 1]", "(0.5, 0, 1)", "(0, 1, 0.5)", "(0,)", "()", "(0, 0, 0, 0)", "[0.5]", "(0, 1.0000001)", "(-1e-9, 1)", "(0, 0)", "(1, 1, 1)", "0", "1", "1.5", "-0.5",
              "(nan, 1)", "nan", "inf", "-inf", "(0, inf)", "(0, 0.5, 2)", "(-1, 0.5, 1)", "(0.5, 2, 1)", "(0.5, -1, 1)", "[0.3, 0.2]", "[0.3, 0.4, 0.35]", "[0.3, 0.2, 0.4]"):
        yield dict(kind="fixed", e=e, lo=0, hi=1)
        yield dict(kind="fixed", e=e, lo=0, hi=inf)
        yield dict(kind="fixed", e=e, lo=-inf, hi=inf)
