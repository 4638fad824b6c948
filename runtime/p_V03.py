import inspect
from lib import *
import matplotlib.patches
import matplotlib.collections
from p_V02 import watching, surface, plt
CASE_CPU = 120


def gen(rng, L):
    f = gen_field(rng, L)
    if rng.random() < 0.7:
        f["nr"], f["nc"] = rng.randint(3, 6), rng.randint(3, 6)
    nw = L.size(rng, 1, 5, 20, 300)
    cx, cy = f["xo"], f["yo"]
    wells = [(cx + rng.uniform(-50, 50), cy + rng.uniform(-50, 50), 1.0, (1.0, 2.0)) for _ in range(nw)]
    obs = [(cx + rng.uniform(-50, 50), cy + rng.uniform(-50, 50), 100.0, 1.0) for _ in range(rng.randint(0, 9))]
    if rng.random() < 0.2:
        s = rng.choice([0.3, 0.5, 1, 1.0, 1.7, 2, 3.2, L.pos(rng, 0.1, 4)])
        return dict(kind="smoothed", f=f, wells=wells, obs=obs, target=rng.randrange(nw), empty=False, ones=False, smooth=s, core=[rng.randint(1, 12), rng.randint(1, 12)])
    d = dict(kind=rng.choice(["probability", "deterministic", "deterministic"]), f=f, wells=wells, obs=obs, target=rng.randrange(nw), empty=rng.random() < 0.08, ones=rng.random() < 0.6, smooth=rng.choice([0, 0, 0.0, None]))
    if d["kind"] == "deterministic" and rng.random() < 0.3:
        d["smooth"] = rng.choice([1, 2.5])
    return d


def cells(ax):
    """Centres and sizes of the filled polygons."""
    out = []
    for p in ax.patches:
        if isinstance(p, (matplotlib.patches.Polygon, matplotlib.patches.Rectangle)) and p is not ax.patch:
            out.append(p.get_transform().transform(p.get_path().vertices) if False else p.get_patch_transform().transform(p.get_path().vertices))
    for k in ax.collections:
        if isinstance(k, (matplotlib.collections.PolyCollection, matplotlib.collections.PatchCollection)):
            out += [q.vertices for q in k.get_paths()]
    return [(v[:, 0].min(), v[:, 0].max(), v[:, 1].min(), v[:, 1].max()) for v in out]


def smoothed_field(c):
    """A field with contents that are so far from its boundary that the treatment of the boundary does not matter."""
    from oneka.probabilityfield import ProbabilityField
    g, s = c["f"], c["smooth"]
    m = math.ceil(6 * s) + 2
    f = ProbabilityField(g["dx"], g["dy"], g["xo"], g["yo"])
    nr, nc = c["core"][0] + 2 * m, c["core"][1] + 2 * m
    f.expand(f.xmin, f.xmin + (nc - 3) * g["dx"], f.ymin, f.ymin + (nr - 3) * g["dy"])
    r = np.random.RandomState(g["seed"])
    for _ in range(max(1, min(g["W"], 50))):
        f.rgrid[m:m + c["core"][0], m:m + c["core"][1]] = r.rand(*c["core"]) < 0.5
        f.register(g.get("w", 1.0))
    return f


def gaussian(P, s):
    """P convolved with the sampled, normalized Gaussian of width s in both directions."""
    k = np.arange(-math.ceil(6 * s) - 1, math.ceil(6 * s) + 2)
    w = np.exp(-0.5 * (k / s) ** 2)
    w /= w.sum()
    a = np.apply_along_axis(lambda v: np.convolve(v, w, "same"), 0, P)
    return np.apply_along_axis(lambda v: np.convolve(v, w, "same"), 1, a)


def check(c):
    import oneka.visualize as vi
    g = dict(c["f"])
    g["W"] = 0 if c["empty"] else max(1, min(g["W"], 1 if c["ones"] else 1300))
    f = smoothed_field(c) if c["kind"] == "smoothed" else make_field(g)
    keep = fld_state(f)
    wells, obs = copy.deepcopy(c["wells"]), copy.deepcopy(c["obs"])
    try:
        with watching() as calls:
            try:
                if c["kind"] != "deterministic":
                    r = vi.create_probability_plot(c["target"], wells, obs, f, *([] if c["smooth"] is None else [c["smooth"]]))
                else:
                    more = [c["smooth"]] if c["smooth"] is not None and "smooth" in inspect.signature(vi.create_deterministic_plot).parameters else []
                    r = vi.create_deterministic_plot(c["target"], wells, obs, f, *more)
            except Exception as e:
                need(c["empty"], "drawing raises %r", e)
                return
            need(not c["empty"], "a field without any realization is not refused")
            ax = plt.gcf().axes[0]
            fills = cells(ax)
            lines = [(l.get_marker(), np.asarray(l.get_xdata(), float).ravel(), np.asarray(l.get_ydata(), float).ravel()) for l in ax.lines]
            inverted = ax.xaxis_inverted() or ax.yaxis_inverted()
    finally:
        plt.close("all")
    z = fld_state(f)
    need(all(np.array_equal(keep[k], z[k]) for k in keep), "the field was modified")
    need((wells, obs) == (c["wells"], c["obs"]), "the lists of wells or observations were changed")
    P = keep["P"] / keep["W"]
    X = np.linspace(keep["xmin"], keep["xmax"], keep["nc"])
    Y = np.linspace(keep["ymin"], keep["ymax"], keep["nr"])
    big = max(abs(keep["xmin"]), abs(keep["ymin"]), 1.0)
    if c["kind"] != "deterministic":
        s = [k for k in calls if k[0] in ("contourf", "contour", "pcolormesh")]
        need(any(k[0] in ("contourf", "pcolormesh") for k in s), "no filled map is drawn")
        for k in s:
            x, y, v = surface(k)
            need(v.shape == P.shape, "the map has %s nodes instead of %s", v.shape, P.shape)
            need(np.allclose(x, X, rtol=0, atol=1e-6 * keep["dx"]) and np.allclose(y, Y, rtol=0, atol=1e-6 * keep["dy"]), "nodes are displayed at other coordinates: %r, %r", x[:3].tolist(), y[:3].tolist())
            if c["kind"] == "smoothed":
                R = gaussian(P, c["smooth"])
                need(np.allclose(v, R, rtol=0, atol=2e-3 * P.max()), "the displayed probabilities are not those smoothed with a Gaussian of %r cells at %r", c["smooth"],
                     np.argwhere(~np.isclose(v, R, rtol=0, atol=2e-3 * P.max()))[:4].tolist())
                continue
            need(np.allclose(v, P, rtol=1e-12, atol=1e-15), "the displayed probabilities are wrong at %r", np.argwhere(~np.isclose(v, P))[:4].tolist())
    else:
        want = {(i, j) for i, j in np.argwhere(keep["P"] > 0).tolist()}
        got = set()
        for x0, x1, y0, y1 in fills:
            close(x1 - x0, keep["dx"], 1e-6 * keep["dx"] + 1e-12 * big, "width of a filled cell")
            close(y1 - y0, keep["dy"], 1e-6 * keep["dy"] + 1e-12 * big, "height of a filled cell")
            a, b = ((y0 + y1) / 2 - keep["ymin"]) / keep["dy"], ((x0 + x1) / 2 - keep["xmin"]) / keep["dx"]
            need(abs(a - round(a)) < 1e-5 and abs(b - round(b)) < 1e-5, "a filled cell is not centred at a node (row %r, column %r)", a, b)
            need((round(a), round(b)) not in got, "the cell of node %r is filled twice", (round(a), round(b)))
            got.add((round(a), round(b)))
        need(got == want, "cells filled for the wrong nodes: missing %r, extra %r", sorted(want - got)[:4], sorted(got - want)[:4])
        close(r, len(want) * keep["dx"] * keep["dy"], 1e-6 * len(want) * keep["dx"] * keep["dy"] + 1e-300, "returned area of %d cells", len(want))
    stars = [(a, b) for m, xs, ys in lines if m == "*" for a, b in zip(xs, ys)]
    t = c["wells"][c["target"]]
    need(stars == [(t[0], t[1])], "the stars are at %r, the target is at %r", stars, t[0:2])
    pts = {(a, b) for m, xs, ys in lines if m == "o" for a, b in zip(xs, ys)}
    need(pts >= {(w[0], w[1]) for i, w in enumerate(c["wells"]) if i != c["target"]}, "not every well is displayed")
