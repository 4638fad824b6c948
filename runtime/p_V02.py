from lib import *
import matplotlib
matplotlib.use("Agg")
import matplotlib.axes
import matplotlib.pyplot as plt


class Stop(Exception):
    pass


@contextlib.contextmanager
def watching(names=("contourf", "contour", "pcolormesh", "imshow", "plot", "fill"), real=True):
    """Records the calls of the drawing methods of all axes."""
    ax = matplotlib.axes.Axes
    calls = []
    pairs = []
    for n in names:
        def w(self, *a, _n=n, _f=getattr(ax, n), **k):
            if self.get_label() != "<colorbar>":
                calls.append((_n, [np.array(t, copy=True) if isinstance(t, (np.ndarray, list, tuple)) and not isinstance(t, str) else t for t in a], dict(k)))
            return _f(self, *a, **k)
        pairs.append((ax, n, w))
    with patched(pairs):
        try:
            yield calls
        finally:
            plt.close("all")


def surface(call):
    """(x of columns, y of rows, values) of a contour call."""
    n, a, k = call
    need(len(a) >= 3, "%s is called without coordinates", n)
    x, y, z = np.asarray(a[0], float), np.asarray(a[1], float), np.ma.filled(np.ma.asarray(a[2], float), nan)
    if x.ndim == 2:
        need(np.allclose(x, x[0:1, :]) and np.allclose(y, y[:, 0:1]), "the coordinates do not form a grid")
        x, y = x[0], y[:, 0]
    need(z.shape == (len(y), len(x)), "the values have the shape %s for %d rows and %d columns", z.shape, len(y), len(x))
    return x, y, z


def gen(rng, L):
    m = gen_model(rng, L, nmax=3)
    m["k"], m["t"] = L.pos(rng, 0.5, 100), L.pos(rng, 1, 50)
    lim = lambda c: sorted([c + rng.uniform(-200, 200), c + rng.uniform(-200, 200)])
    (x0, x1), (y0, y1) = lim(m["cx"]), lim(m["cy"])
    if x1 - x0 < 1 or y1 - y0 < 1:
        x1, y1 = x0 + 10, y0 + 7
    # make the surface partly dry now and then
    s = 0.5 * m["k"] * m["t"] ** 2
    m["coef"] = [rng.uniform(-1, 1) * s * 1e-5, rng.uniform(-1, 1) * s * 1e-5, rng.uniform(-1, 1) * s * 1e-5, rng.uniform(-1, 1) * s * 5e-3, rng.uniform(-1, 1) * s * 5e-3, s * rng.choice([0.1, 0.5, 1.5, 3])]
    nr, nc = L.size(rng, 2, 14, 20), L.size(rng, 2, 14, 20)
    big = [v for v in L.novel_counts if v <= 20000]
    if big and rng.random() < 0.05:
        nr = int(math.sqrt(rng.choice(big)) * rng.uniform(0.5, 2)) + 1
        nc = int(rng.choice(big) / nr * rng.choice([0.95, 1.05])) + 1
        nc = max(2, min(nc, 30000 // nr))
    return dict(kind=rng.choice(["head", "potential"]), m=m, lim=[x0, x1, y0, y1], nr=nr, nc=nc)


def check(c):
    import oneka.visualize as vi
    import oneka.model as om
    m = copy.deepcopy(c["m"])
    mo = make_model(m)
    ref = make_model(copy.deepcopy(m))
    before = snap(mo)
    f = vi.contour_head if c["kind"] == "head" else vi.contour_potential
    x0, x1, y0, y1 = c["lim"]
    X, Y = np.linspace(x0, x1, c["nc"]), np.linspace(y0, y1, c["nr"])
    Z = np.full((c["nr"], c["nc"]), nan)
    for i in range(c["nr"]):
        for j in range(c["nc"]):
            try:
                Z[i, j] = ref.compute_head(X[j], Y[i]) if c["kind"] == "head" else ref.compute_potential(X[j], Y[i])
            except om.AquiferError:
                pass
    with watching() as calls:
        plt.figure()
        try:
            f(mo, x0, x1, y0, y1, c["nr"], c["nc"])
        except Exception as e:
            if np.isfinite(Z).sum() >= 1:
                fail("contour_%s raises %r with %d dry locations of %d", c["kind"], e, np.isnan(Z).sum(), Z.size)
        same_state(before, snap(mo), "drawing a map")
        s = [k for k in calls if k[0] in ("contourf", "contour", "pcolormesh")]
    need(len(s) >= 1, "no map is drawn")
    for k in s:
        x, y, z = surface(k)
        need(z.shape == Z.shape, "the map has %s nodes instead of %s", z.shape, Z.shape)
        need(np.allclose(x, X, rtol=1e-12, atol=1e-9 * (x1 - x0)), "the columns are placed at %r, expected %r", x[:4].tolist(), X[:4].tolist())
        need(np.allclose(y, Y, rtol=1e-12, atol=1e-9 * (y1 - y0)), "the rows are placed at %r, expected %r", y[:4].tolist(), Y[:4].tolist())
        sc = np.nanmax(np.abs(Z)) if np.isfinite(Z).any() else 1.0
        dry = np.isnan(Z)
        need(np.array_equal(np.isnan(z), dry), "dry locations are not left blank, or others are: %r", np.argwhere(np.isnan(z) != dry)[:4].tolist())
        need(np.allclose(z[~dry], Z[~dry], rtol=1e-7, atol=1e-7 * sc), "the displayed values are wrong, first at %r", np.argwhere(~np.isclose(z, Z, rtol=1e-7, atol=1e-7 * sc, equal_nan=True))[:3].tolist())
