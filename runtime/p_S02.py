from lib import *
import p_S01


def gen(rng, L):
    while True:
        c = p_S01.gen(rng, L)
        if c["kind"] != "scalar" or rng.random() < 0.3:
            return c


def check(c):
    import oneka.stochastic as st
    d = copy.deepcopy(c["d"])
    if c["kind"] == "badlength":
        try:
            r = st.compute_variate_mean(d)
        except st.DistributionError:
            return
        except Exception as e:
            fail("a sequence of length %d raises %r, not the distribution error", len(d), e)
        fail("a sequence of length %d is not refused: %r", len(d), r)
    state = np.random.get_state()[1:3]
    r = st.compute_variate_mean(d)
    need(d == c["d"], "the specification was changed to %r", d)
    need(np.isscalar(r), "the mean %r of %r is not a number", r, d)
    if c["kind"] == "scalar":
        need(r == c["d"], "the mean of the scalar %r is %r", d, r)
        return
    close(r, dmean(d), 1e-12 * max(map(abs, d)), "mean of %r", d)
    need(d[0] - 1e-12 * abs(d[0]) <= r <= d[-1] + 1e-12 * abs(d[-1]), "the mean %r lies outside of %r", r, d)


def fixed():
    yield from p_S01.fixed()
