from lib import *


def gen(rng, L):
    g = gen_field(rng, L)
    tracks = []
    for _ in range(rng.randint(1, 3)):
        n = L.size(rng, 1, 12, 80, 600)
        st = rng.choice([0.3, 1.0, 3.0, 10 ** rng.uniform(-3, 0)]) * max(g["dx"], g["dy"])
        turns = rng.choice([0, 0, 0.2, 0.5])
        n = min(n, max(12, int(1000 * math.sqrt(g["dx"] * g["dy"]) / st)))
        x, y = g["xo"] + rng.uniform(-3, 3) * g["dx"], g["yo"] + rng.uniform(-3, 3) * g["dy"]
        X, Y = [x], [y]
        th = rng.uniform(0, 6.3)
        for _ in range(n - 1):
            th += rng.uniform(-0.5, 0.5) + (math.pi if rng.random() < turns else 0)
            if rng.random() < 0.05:
                pass
            else:
                x, y = x + st * math.cos(th), y + st * math.sin(th)
            X.append(x)
            Y.append(y)
        if rng.random() < 0.2:
            # vertices on the nodes, halves or on few lines: coordinates repeat
            q = rng.choice([0.5, 1.0, 1.0, 2.0])
            if rng.random() < 0.7:
                X = [g["xo"] + q * g["dx"] * round((v - g["xo"]) / (q * g["dx"])) for v in X]
            if rng.random() < 0.7:
                Y = [g["yo"] + q * g["dy"] * round((v - g["yo"]) / (q * g["dy"])) for v in Y]
        if rng.random() < 0.1 and n > 1:
            X, Y = X + [X[0]], Y + [Y[0]]
        tracks.append([X, Y, rng.choice(["list", "array", "tuple"])])
    u = rng.choice([L.pos(rng, 0.2, 30), g["dx"], 0.5 * g["dy"]])
    u = min(u, 30 * min(g["dx"], g["dy"]))
    most = max(len(t[0]) for t in tracks)
    st = 3 * max(g["dx"], g["dy"])
    while most * ((st + 2 * u) / g["dx"] + 1) * ((st + 2 * u) / g["dy"] + 1) > 2e5 and u > 0.3 * min(g["dx"], g["dy"]):
        u *= 0.7
    if rng.random() < 0.4:
        X, Y, _ = tracks[0]
        u = just(rng, g, [(X[i], Y[i], X[i + 1], Y[i + 1]) for i in range(len(X) - 1)], u)
    return dict(g=g, tracks=tracks, u=u, first=rng.random() < 0.1)


def check(c):
    if c.get("first"):
        from oneka.probabilityfield import ProbabilityField
        f = ProbabilityField(c["g"]["dx"], c["g"]["dy"])     # no nodes before the first track
    else:
        f = make_field(c["g"])
    u = c["u"]
    for X, Y, kind in c["tracks"]:
        mk = {"list": list, "array": np.array, "tuple": tuple}[kind]
        a = fld_state(f) if f.nrows > 0 else None
        x, y = mk(X), mk(Y)
        f.rasterize(x, y, u)
        need(list(x) == list(X) and list(y) == list(Y), "the track was modified")
        z = fld_consistent(f, "after a track")
        rs, cs = moved(a, z, "rasterizing") if a is not None else (0, 0)
        ex, ey = [0.0 if all(exact(t) for t in V + [u, lo, hi, d]) else 1e-9 * d + 1e-14 * max(map(abs, V + [lo, hi])) for V, lo, hi, d in ((list(X), z["xmin"], z["xmax"], z["dx"]), (list(Y), z["ymin"], z["ymax"], z["dy"]))]
        need(z["xmin"] < min(X) - u + ex and z["xmax"] > max(X) + u - ex and z["ymin"] < min(Y) - u + ey and z["ymax"] > max(Y) + u - ey,
             "the grid %r does not extend beyond the umbra %r of every vertex", (z["xmin"], z["xmax"], z["ymin"], z["ymax"]), u)
        if a is None:
            need(not z["P"].any() and z["W"] == 0, "a first track does not leave the probabilities at zero")
            old = np.zeros(z["G"].shape, dtype=bool)
        else:
            need(np.array_equal(z["P"], lift(a, z, rs, cs, "P", 0.0)) and z["W"] == a["W"], "rasterizing changed or moved accumulated probabilities")
            old = lift(a, z, rs, cs, "G", False)
        segs = [(X[i], Y[i], X[i + 1], Y[i + 1]) for i in range(len(X) - 1)]
        yes, no = near_masks(z, segs, u)
        miss = (yes | old) & ~z["G"]
        need(not miss.any(), "the nodes %r (row, column) are near the track (or were marked) and are not marked", np.argwhere(miss)[:5].tolist())
        extra = no & z["G"] & ~old
        need(not extra.any(), "the nodes %r (row, column) are marked although they are not near the track", np.argwhere(extra)[:5].tolist())
