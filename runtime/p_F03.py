from lib import *


def gen_seg(rng, L, g):
    w, h = g["nc"] * g["dx"], g["nr"] * g["dy"]
    x0, y0 = g["xo"] - g["off"][1] * g["dx"], g["yo"] - g["off"][0] * g["dy"]
    p = lambda: [x0 + rng.uniform(-0.4, 1.4) * w, y0 + rng.uniform(-0.4, 1.4) * h]
    a, b = p(), p()
    k = rng.random()
    if k < 0.1:
        b = list(a)
    elif k < 0.25:
        b[rng.randrange(2)] = 0.0
        b = [a[0], p()[1]] if rng.random() < 0.5 else [p()[0], a[1]]
    elif k < 0.35:
        a = [x0 + rng.randint(-2, g["nc"]) * g["dx"], y0 + rng.randint(-2, g["nr"]) * g["dy"]]
        b = [x0 + rng.randint(-2, g["nc"]) * g["dx"], y0 + rng.randint(-2, g["nr"]) * g["dy"]]
    elif k < 0.42:
        a = [x0 - 3 * w, y0 - 2 * h]
        b = [x0 - 2.5 * w, y0 + rng.uniform(-1, 2) * h]
    elif k < 0.5:
        b = [a[0] + rng.uniform(-1, 1) * g["dx"], a[1] + rng.uniform(-1, 1) * g["dy"]]
    return a + b


def gen(rng, L):
    g = gen_field(rng, L)
    u = rng.choice([L.pos(rng, 0.2, 30), g["dx"], g["dy"], 0.5 * g["dx"], rng.uniform(0.05, 4) * g["dx"]])
    segs = [gen_seg(rng, L, g) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.3:
        u = just(rng, g, [segs[0]], u)
    return dict(g=g, segs=segs, u=u)


def check(c):
    f = make_field(c["g"])
    u = c["u"]
    for seg in c["segs"]:
        a = fld_state(f)
        f.insert(seg[0], seg[1], seg[2], seg[3], u)
        z = fld_state(f)
        for k in ("xmin", "xmax", "ymin", "ymax", "dx", "dy", "nr", "nc", "W"):
            need(a[k] == z[k], "inserting a segment changed %s", k)
        need(np.array_equal(a["P"], z["P"]), "inserting a segment changed accumulated probabilities")
        need(z["G"].shape == a["G"].shape, "inserting a segment changed the shape of the marks")
        need(not (a["G"] & ~z["G"]).any(), "inserting a segment unmarked a node")
        yes, no = near_masks(a, [seg], u)
        miss = yes & ~z["G"]
        need(not miss.any(), "the nodes %r lie within the umbra %r of the segment %r and are not marked", np.argwhere(miss)[:5].tolist(), u, seg)
        extra = no & z["G"] & ~a["G"]
        need(not extra.any(), "the nodes %r are marked although they lie outside the umbra %r of the segment %r", np.argwhere(extra)[:5].tolist(), u, seg)
