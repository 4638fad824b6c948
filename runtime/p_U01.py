from lib import *


def reference(obs, wells, buffer):
    """(retained, near ties)"""
    out, tie = [], False
    for o in obs:
        keep = True
        for w in wells:
            dx, dy = o[0] - w[0], o[1] - w[1]
            d2, b2 = dx * dx + dy * dy, buffer * buffer
            exact = all(float(t).is_integer() and abs(t) < 1e6 for t in (o[0], o[1], w[0], w[1], buffer))
            if not exact and abs(d2 - b2) < 1e-9 * max(d2, b2, 1e-12) + 1e-14 * max(abs(o[0]), abs(o[1])) * math.sqrt(b2):
                tie = True
            if d2 <= b2:
                keep = False
        if keep:
            out.append(o)
    return out, tie


def gen(rng, L, dups=False):
    cx, cy = rng.choice([(0.0, 0.0), (0.0, 0.0), (437600.0, 5006600.0)])
    exact = rng.random() < 0.4
    num = (lambda s: float(rng.randint(-int(s), int(s)))) if exact else (lambda s: rng.uniform(-s, s))
    buffer = rng.choice([5, 5.0, 10, 13, 25, 1]) if exact else L.pos(rng, 0.01, rng.choice([200, 200, 5000]))
    scale = buffer * rng.choice([1.5, 3, 8]) + 6
    wells = []
    for _ in range(L.size(rng, 0, 5, 40, 300)):
        w = [cx + num(scale), cy + num(scale), 1.0, rng.choice([100.0, (1, 2), (1, 2, 3), 0, 0.0, -50.0, (-5, 5)])]
        wells.append(rng.choice([tuple, list])(w))
    obs = []
    n = L.size(rng, 0, 14, 60, 300)
    for _ in range(n * 4):
        if len(obs) >= n:
            break
        p = [cx + num(scale), cy + num(scale)]
        if wells and rng.random() < 0.35:
            w = rng.choice(wells)
            if exact:
                a, b = rng.choice([(3, 4), (4, -3), (5, 0), (0, -5), (-4, 3), (5, 12), (-12, 5), (7, 24), (0, 13), (6, 8), (10, 0), (0, -1), (1, 0)])
                p = [w[0] + a, w[1] + b]
            else:
                r, th = buffer * rng.choice([0.5, 0.999, 1.001, 1.3, 1.0001, 0.9999, 0.72, rng.uniform(0.6, 1.4)]), rng.choice([rng.uniform(0, 6.3), 0.785, 0.0])
                p = [w[0] + r * math.cos(th), w[1] + r * math.sin(th)]
        if not dups and any((p[0] - o[0]) ** 2 + (p[1] - o[1]) ** 2 < 1.0001 for o in obs):
            continue
        obs.append((p[0], p[1], rng.uniform(0, 300), rng.choice([1, 0.5, rng.uniform(0.01, 5), rng.uniform(0.01, 5), L.pos(rng, 1e-4, 300)])))
    if rng.random() < 0.2:
        obs = [list(o) for o in obs]
    return dict(kind="exact" if exact else "general", obs=obs, wells=wells, buffer=buffer)


def check(c):
    import oneka.utilities as ut
    obs, wells = copy.deepcopy(c["obs"]), copy.deepcopy(c["wells"])
    want, tie = reference(c["obs"], c["wells"], c["buffer"])
    got = ut.filter_obs(obs, wells, c["buffer"])
    need(repr(obs) == repr(c["obs"]), "the list of observations was changed")
    need(repr(wells) == repr(c["wells"]), "the list of wells was changed")
    if tie:
        return
    g, w = [tuple(o) for o in got], [tuple(o) for o in want]
    if g != w:
        fail("with buffer %r: %r; wrongly retained %r, wrongly removed %r", c["buffer"], "wrong order or values" if sorted(g) == sorted(w) else "wrong observations", [o for o in g if o not in w][:3], [o for o in w if o not in g][:3])
