from lib import *
import p_U01


def gen(rng, L):
    c = p_U01.gen(rng, L, dups=True)
    obs = [tuple(o) for o in c["obs"]]
    for _ in range(rng.randint(0, 8)):
        if not obs:
            break
        o = rng.choice(obs)
        if c["kind"] == "exact":
            a, b = rng.choice([(0, 0), (0.5, 0), (0, -0.5), (0.5, 0.5), (1, 0), (0, -1), (0.75, -0.25), (0.75, 0.75), (1, 1)])
        else:
            r, th = rng.choice([0, 1e-6, 0.3, 0.7, 0.95, 0.999, 1.001, 1.05, 1.3]), rng.uniform(0, 6.3)
            a, b = r * math.cos(th), r * math.sin(th)
        new = (o[0] + a, o[1] + b, rng.uniform(0, 300), rng.choice([1, 0.5, 2, rng.uniform(0.01, 5), L.pos(rng, 1e-4, 300)]))
        obs.insert(rng.choice([len(obs), obs.index(o) + 1, rng.randint(0, len(obs))]), new)
    if c["obs"] and isinstance(c["obs"][0], list):
        obs = [list(o) for o in obs]
    c["obs"] = obs
    if rng.random() < 0.3:
        c["wells"] = []
    return c


def check(c):
    import oneka.utilities as ut
    left, tie = p_U01.reference(c["obs"], c["wells"], c["buffer"])
    groups = []
    for o in left:
        for g in groups:
            d2 = (o[0] - g[0][0]) ** 2 + (o[1] - g[0][1]) ** 2
            q = [4 * t for t in (o[0], o[1], g[0][0], g[0][1])]
            if not (all(float(t).is_integer() for t in q) and max(map(abs, q)) < 1e8) and abs(d2 - 1) < 1e-8:
                tie = True
            if d2 < 1.0:
                g.append(o)
                break
        else:
            groups.append([o])
    obs = copy.deepcopy(c["obs"])
    got = ut.filter_obs(obs, copy.deepcopy(c["wells"]), c["buffer"])
    need(repr(obs) == repr(c["obs"]), "the list of observations was changed")
    if tie:
        return
    need(len(got) == len(groups), "%d observations are retained instead of %d", len(got), len(groups))
    for r, g in zip(got, groups):
        if len(g) == 1:
            need(tuple(r) == tuple(g[0]), "the observation %r becomes %r", g[0], r)
            continue
        need(len(r) == 4 and (r[0], r[1]) == (g[0][0], g[0][1]), "the merged observation %r is not at the place of the earliest, %r", r, g[0])
        den = math.fsum(1 / o[3] ** 2 for o in g)
        close(r[2], math.fsum(o[2] / o[3] ** 2 for o in g) / den, 1e-9 * (1 + max(abs(o[2]) for o in g)), "level of the merged observation at %r", r[0:2])
        close(r[3], math.sqrt(1 / den), 1e-9 * r[3], "standard deviation of the merged observation at %r", r[0:2])


def fixed():
    a, b, d = (0.0, 0.0, 10.0, 1.0), (0.5, 0.0, 20.0, 2.0), (50.0, 0.0, 5.0, 1)
    for obs in ([a, b, d], [a, d, b], [d, a, b], [a, d, b, (0.0, 0.7, 1.0, 0.5)], [a, b, (1.2, 0.0, 3.0, 1.0)], [a, a], [a, a, a], [a, d, a, d], [a], []):
        yield dict(kind="fixed", obs=obs, wells=[], buffer=5.0)
        yield dict(kind="fixed", obs=obs, wells=[(200.0, 0.0, 1.0, 5.0)], buffer=5)
