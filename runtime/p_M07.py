from fractions import Fraction
from lib import *


def gen_obs(rng, L, m, n, dry=False):
    obs = []
    for _ in range(n):
        x, y = gen_point(rng, L, m)
        h = rng.choice([m["t"], m["t"] * rng.uniform(0.01, 0.999), m["t"] * rng.uniform(1, 4), m["t"] * (1 + rng.choice([-1e-9, 1e-9])), m["t"] * rng.choice([0.5, 0.25, 2])])
        obs.append((x, y, m["base"] + h, L.pos(rng, 0.01, 5 if rng.random() < 0.8 else 2000) if rng.random() < 0.8 else 10 ** rng.uniform(-6, 0)))
    if rng.random() < 0.25 and obs:
        obs.append(rng.choice(obs))
    if dry and obs:
        o = list(obs[rng.randrange(len(obs))])
        o[2] = m["base"] - rng.choice([0, 0.0, 1e-9, 1, 50.5])
        obs[rng.randrange(len(obs))] = tuple(o)
    if rng.random() < 0.3:
        obs = [list(o) for o in obs]
    return obs


def gen(rng, L):
    m = gen_model(rng, L)
    if rng.random() < 0.3:
        # levels at exactly the top of the aquifer
        m["base"], m["t"] = rng.choice([rng.randint(-50, 300), float(rng.randint(-50, 300)), rng.randint(-200, 200) / 4]), rng.choice([rng.randint(1, 60), rng.randint(1, 240) / 4])
    dry = rng.random() < 0.15
    return dict(kind="dry" if dry else "fit", m=m, obs=gen_obs(rng, L, m, L.size(rng, 1, 14, 60, 400), dry), o=[m["cx"] + L.num(rng, 60.0), m["cy"] + L.num(rng, 60.0)],
                cs=[[L.num(rng, s) for s in (0.1, 0.1, 0.1, 1.0, 1.0, 100.0)] for _ in range(2)])


def check(c):
    import oneka.model as om
    m, obs = copy.deepcopy(c["m"]), copy.deepcopy(c["obs"])
    mo = make_model(m)
    before, ob = snap(mo), copy.deepcopy(obs)
    dry = any(o[2] - m["base"] <= 0 for o in obs)
    try:
        WA, Wb = mo.construct_fit(obs, c["o"][0], c["o"][1])
    except om.RangeError:
        need(dry, "an observation set with all levels above the base is refused")
        same_state(before, snap(mo), "a refused fit")
        need(obs == ob, "the observations were modified")
        return
    need(not dry, "an observation at or below the base is not refused")
    same_state(before, snap(mo), "building the system")
    need(obs == ob, "the observations were modified")
    WA, Wb = np.asarray(WA, float), np.ravel(np.asarray(Wb, float))
    n = len(obs)
    need(WA.shape == (n, 6) and Wb.shape == (n,), "system of shape %s, %s for %d observations", WA.shape, Wb.shape, n)
    k, t = m["k"], m["t"]
    ref = dict(m, xo=c["o"][0], yo=c["o"][1])
    for i, (x, y, z, s) in enumerate(obs):
        h = z - m["base"]
        if h >= t:
            phi, sd = k * t * (h - t / 2), k * t * s
        else:
            phi, sd = k * (h * h + s * s) / 2, k * h * s
        exact = Fraction(z) - Fraction(m["base"]) == Fraction(h)
        if not exact and abs(h - t) < 1e-12 * max(abs(z), abs(m["base"]), t):
            continue
        for cf in [[0.0] * 6] + [[1.0 if j == q else 0.0 for j in range(6)] for q in range(6)] + c["cs"]:
            ref["coef"] = cf
            P, mag = ref_pot(ref, x, y)
            left = math.fsum([WA[i, j] * cf[j] for j in range(6)] + [-Wb[i]])
            cancel = 1e-15 * (abs(z) + abs(m["base"])) / max(h, 1e-12) * abs(phi) * 8
            close(left, (P - phi) / sd, ((mag + abs(phi)) * rounding(ref, x, y) + cancel) / sd * (1 + 1e-15 * (abs(z) + abs(m["base"])) / max(h, 1e-12)) + 1e-300,
                  "row %d of the system for the observation %r", i, (x, y, z, s))
