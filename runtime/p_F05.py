from lib import *


def gen(rng, L):
    g = gen_field(rng, L)
    ops = []
    for _ in range(rng.randint(1, 8)):
        k = rng.choice(["register", "register", "reset", "marks", "track", "expand", "segment"])
        ops.append((k, rng.choice([1.0, 1.0, 0.0, 0, 1, L.pos(rng, 0.01, 10), L.pos(rng, 1e-6, 1e6), 0.5]), rng.randrange(10 ** 6)))
    return dict(g=g, ops=ops)


def check(c):
    g = c["g"]
    f = make_field(g)
    u = 1.3 * min(g["dx"], g["dy"])
    bounds(f, "start")
    for k, w, sd in c["ops"]:
        r = np.random.RandomState(sd)
        a = fld_state(f)
        if k == "register":
            f.register(w)
            z = fld_state(f)
            t = 1e-12 * (abs(a["W"]) + w + 1)
            close(z["W"], a["W"] + w, t, "total weight after registering %r", w)
            need(z["P"].shape == a["P"].shape, "registering changed the grid")
            e = a["P"] + np.where(a["G"], w, 0.0)
            need(np.max(np.abs(z["P"] - e)) <= t, "registering %r does not add it once to exactly the marked nodes: %r", w, np.argwhere(np.abs(z["P"] - e) > t)[:5].tolist())
            need(not z["G"].any(), "registering does not clear all marks")
        elif k == "reset":
            f.reset()
            z = fld_state(f)
            need(not z["G"].any(), "resetting does not clear all marks")
            need(np.array_equal(z["P"], a["P"]) and z["W"] == a["W"], "resetting changes more than the marks")
        elif k == "marks":
            f.rgrid[:] = r.rand(*a["G"].shape) < r.rand()
            z = fld_state(f)
        else:
            p = [g["xo"] + r.uniform(-6, 6) * g["dx"], g["yo"] + r.uniform(-6, 6) * g["dy"], g["xo"] + r.uniform(-6, 6) * g["dx"], g["yo"] + r.uniform(-6, 6) * g["dy"]]
            if k == "track":
                f.rasterize([p[0], p[2], p[0]], [p[1], p[3], p[3]], u)
            elif k == "segment":
                f.insert(p[0], p[1], p[2], p[3], u)
            else:
                f.expand(min(p[0], p[2]), max(p[0], p[2]), min(p[1], p[3]), max(p[1], p[3]))
            z = fld_state(f)
            rs, cs = moved(a, z, k)
            need(np.array_equal(z["P"], lift(a, z, rs, cs, "P", 0.0)) and z["W"] == a["W"], "%s changed accumulated probabilities or the total", k)
        if k in ("register", "reset"):
            for q in ("xmin", "xmax", "ymin", "ymax", "dx", "dy", "nr", "nc"):
                need(a[q] == z[q], "%s changed %s", k, q)
        bounds(f, k)


def bounds(f, what):
    z = fld_state(f)
    e = 1e-9 * (1 + z["W"])
    need(z["W"] >= 0 and (z["P"] >= -e).all() and (z["P"] <= z["W"] + e).all(), "after %s: accumulated weights are not between 0 and the total %r", what, z["W"])
