from lib import *


def gen_box(rng, L, g):
    w, h = g["nc"] * g["dx"], g["nr"] * g["dy"]
    k = rng.random()
    xs = sorted([g["xo"] + rng.uniform(-2, 2) * w, g["xo"] + rng.uniform(-2, 2) * w])
    ys = sorted([g["yo"] + rng.uniform(-2, 2) * h, g["yo"] + rng.uniform(-2, 2) * h])
    if k < 0.15:
        xs[1] = xs[0]
    elif k < 0.3:
        ys[1] = ys[0]
    elif k < 0.45:      # on nodes
        xs = sorted(g["xo"] + g["dx"] * rng.randint(-20, 20) for _ in range(2))
        ys = sorted(g["yo"] + g["dy"] * rng.randint(-20, 20) for _ in range(2))
    elif k < 0.55:      # one-sided
        xs = sorted([g["xo"], g["xo"] + rng.choice([-1, 1]) * rng.uniform(0, 30) * g["dx"]])
        ys = [g["yo"], g["yo"]]
    elif k < 0.6:       # far in one direction
        n = rng.choice([200, 1000, 6000] + [min(int(1.3 * v), 12000) for v in L.novel_counts])
        if n * max(g["nr"], g["nc"]) < 3e5:
            d = rng.choice([-1, 1]) * n
            xs, ys = [g["xo"], g["xo"]], [g["yo"], g["yo"]]
            if rng.random() < 0.5:
                xs = sorted([g["xo"], g["xo"] + d * g["dx"]])
            else:
                ys = sorted([g["yo"], g["yo"] + d * g["dy"]])
    b = [float(xs[0]), float(xs[1]), float(ys[0]), float(ys[1])]
    if rng.random() < 0.1:
        i = rng.choice([0, 2])
        d = rng.choice([1, 1e-6, 1e-9, 1e-12, 0])
        b[i], b[i + 1] = max(b[i + 1] + d, math.nextafter(b[i + 1], inf)), b[i]
        if b[i + 1] < b[i] and rng.random() < 0.3:
            b[i + 1] = math.nextafter(b[i], -inf)
    return b


def gen(rng, L):
    if rng.random() < 0.1:
        return dict(kind="new", dx=rng.choice([L.pos(rng, 0.1, 20), 0, -1.0]), dy=rng.choice([L.pos(rng, 0.1, 20), L.pos(rng, 0.1, 20), 0]), o=[L.num(rng, 100.0), L.num(rng, 100.0)], boxes=[])
    g = gen_field(rng, L)
    return dict(kind="empty" if rng.random() < 0.1 else "grow", g=g, boxes=[gen_box(rng, L, g) for _ in range(rng.randint(1, 4))])


def inside(s, b):
    # strictly, where the coordinates are exact in floating point; up to rounding otherwise
    e = [0.0 if all(exact(t) for t in q) else 1e-9 * s[d] + 1e-14 * max(map(abs, q)) for d, q in (("dx", (s["dx"], s["xmin"], s["xmax"], b[0], b[1])), ("dy", (s["dy"], s["ymin"], s["ymax"], b[2], b[3])))]
    need(s["xmin"] < b[0] + e[0] and b[1] < s["xmax"] + e[0] and s["ymin"] < b[2] + e[1] and b[3] < s["ymax"] + e[1], "the box %r does not lie strictly inside %r", b,
         (s["xmin"], s["xmax"], s["ymin"], s["ymax"]))


def check(c):
    from oneka.probabilityfield import ProbabilityField
    if c["kind"] == "new":
        bad = c["dx"] <= 0 or c["dy"] <= 0
        try:
            f = ProbabilityField(c["dx"], c["dy"], c["o"][0], c["o"][1])
        except Exception as e:
            need(bad, "a field with positive spacing is refused: %r", e)
            return
        need(not bad, "a non-positive spacing is accepted")
        s = fld_consistent(f, "new field")
        need(not s["P"].any() and not s["G"].any() and s["W"] == 0, "a new field is not empty")
        inside(s, [c["o"][0]] * 2 + [c["o"][1]] * 2)
        return
    if c["kind"] == "empty":
        f = ProbabilityField(c["g"]["dx"], c["g"]["dy"])
        b = c["boxes"][0]
        if b[0] > b[1] or b[2] > b[3]:
            return
        f.expand(*b)
        s = fld_consistent(f, "first box")
        inside(s, b)
        need(not s["P"].any() and not s["G"].any() and s["W"] == 0, "a first box does not give an empty field")
    else:
        f = make_field(c["g"])
    for b in c["boxes"]:
        a = fld_state(f)
        try:
            f.expand(*b)
        except Exception as e:
            need(b[0] > b[1] or b[2] > b[3], "a proper box %r is refused: %r", b, e)
            z = fld_state(f)
            for k in a:
                need(np.array_equal(a[k], z[k]), "a refused box changed %s", k)
            continue
        need(b[0] <= b[1] and b[2] <= b[3], "the inverted box %r is accepted", b)
        z = fld_consistent(f, "grown field")
        inside(z, b)
        rs, cs = moved(a, z, "growing")
        need(np.array_equal(z["P"], lift(a, z, rs, cs, "P", 0.0)), "probabilities moved or new nodes are not zero (shift %d rows, %d columns)", rs, cs)
        need(np.array_equal(z["G"], lift(a, z, rs, cs, "G", False)), "marks moved or new nodes are marked (shift %d rows, %d columns)", rs, cs)
        need(z["W"] == a["W"], "growing changed the total weight")
