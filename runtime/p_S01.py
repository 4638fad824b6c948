from lib import *


def gen(rng, L):
    k = rng.random()
    if k < 0.15:
        return dict(kind="scalar", d=rng.choice([L.num(rng, 1000.0), rng.randint(-1000, 1000), 0, 0.0]), seed=rng.randrange(10 ** 6), n=5)
    if k < 0.3:
        n = rng.choice([0, 1, 4, 5, rng.randint(4, 12)])
        return dict(kind="badlength", d=rng.choice([tuple, list])([L.num(rng, 10.0) for _ in range(n)]), seed=1, n=1)
    if rng.random() < 0.2:
        # whole numbers, still drawn from a continuous distribution
        a = rng.randint(-50, 50)
        b = a + rng.choice([0, 1, 2, 3, rng.randint(1, 300)])
        d = [a, b] if rng.random() < 0.5 else [a, rng.randint(a, b), b]
        return dict(kind="pair" if len(d) == 2 else "triple", d=rng.choice([tuple, list])(d), seed=rng.randrange(10 ** 6), n=1500)
    a = L.num(rng, 100.0)
    w = rng.choice([0.0, 1, L.pos(rng, 1e-3, 1000), 10 ** rng.uniform(-8, 3)])
    b = a + w
    mk = rng.choice([tuple, list])
    if k < 0.6:
        return dict(kind="pair", d=mk([a, b]), seed=rng.randrange(10 ** 6), n=1500)
    c = rng.choice([a, b, a + rng.random() * (b - a), (a + b) / 2])
    return dict(kind="triple", d=mk([a, min(max(c, a), b), b]), seed=rng.randrange(10 ** 6), n=1500)


def check(c):
    import oneka.stochastic as st
    d = copy.deepcopy(c["d"])
    np.random.seed(c["seed"])
    if c["kind"] == "badlength":
        try:
            r = st.generate_random_variate(d)
        except st.DistributionError:
            return
        except Exception as e:
            fail("a sequence of length %d raises %r, not the distribution error", len(d), e)
        fail("a sequence of length %d is not refused: %r", len(d), r)
    v = [st.generate_random_variate(d) for _ in range(c["n"])]
    need(d == c["d"], "the specification was changed to %r", d)
    if c["kind"] == "scalar":
        need(all(x == c["d"] and not isinstance(x, (tuple, list)) for x in v), "the scalar %r is returned as %r", c["d"], v[:3])
        return
    lo, hi = d[0], d[-1]
    for x in v:
        need(np.isscalar(x) and math.isfinite(float(x)), "%r is not a number", x)
        need(lo - 1e-12 * abs(lo) <= x <= hi + 1e-12 * abs(hi), "%r lies outside of the range of %r", x, d)
    if hi - lo < 1e-9 * max(abs(lo), abs(hi), 1e-300):
        return
    need(len(set(map(float, v))) > c["n"] // 2, "draws from %r repeat: %r", d, v[:4])
    k = ks(v, ucdf(lo, hi) if len(d) == 2 else tcdf(lo, d[1], hi))
    need(k < 3.3, "draws from %r do not follow the %s distribution (Kolmogorov-Smirnov %.2f)", d, "uniform" if len(d) == 2 else "triangular", k)


def fixed():
    for mk in (tuple, list):
        for d in ((1.0, 3.0), (2, 2), (-1.5, 4.0), (0, 1)):
            yield dict(kind="pair", d=mk(d), seed=3, n=1500)
        for d in ((1.0, 2.0, 4.0), (1.0, 1.0, 4.0), (1.0, 4.0, 4.0), (2, 2, 2), (-3.0, -1.0, 7.0), (0, 0, 0)):
            yield dict(kind="triple", d=mk(d), seed=4, n=1500)
        for n in (0, 1, 4, 5):
            yield dict(kind="badlength", d=mk([1.0] * n), seed=1, n=1)
