from lib import *
import runs
CASE_CPU = 120


def gen(rng, L):
    k = rng.random()
    if k < 0.12:
        s = runs.gen_setting(rng, L, nreal=300)
        s["npaths"] = 1
        return dict(kind="many", s=s, seed=rng.randrange(10 ** 6))
    if k < 0.25:
        s = runs.gen_setting(rng, L, nreal=rng.randint(1, 3))
        s["npaths"] = rng.randint(1, 3)
        s["duration"] = rng.choice([1, 5.0, -3.0])
        return dict(kind="traced", s=s, seed=rng.randrange(10 ** 6))
    if k < 0.3:
        return dict(kind="refused", s=runs.low(rng, runs.gen_setting(rng, L, nreal=rng.choice([1, 2, 5]))), seed=rng.randrange(10 ** 6))
    if k < 0.33:
        return dict(kind="singular", s=runs.flat(rng, runs.gen_setting(rng, L, nreal=rng.choice([1, 2, 5]))), seed=rng.randrange(10 ** 6))
    if k < 0.4:
        s = runs.gen_setting(rng, L, nreal=rng.choice([1, 2, 3, 7]))
        if rng.random() < 0.5:
            # nothing but the coefficients is random
            mid = lambda d: sum(d) / len(d) if isinstance(d, (tuple, list)) else d
            s["c_dist"], s["p_dist"], s["t_dist"] = mid(s["c_dist"]), mid(s["p_dist"]), mid(s["t_dist"])
            s["stochastic_wells"] = [tuple(w[:3]) + (mid(w[3]),) for w in s["stochastic_wells"]]
        return dict(kind="twice", s=s, seed=rng.randrange(10 ** 6))
    return dict(kind="few", grow=rng.random() < 0.1, s=runs.gen_setting(rng, L, nreal=rng.choice([1, 2, 3, L.size(rng, 4, 12, 30, 300)]), steep=True), seed=rng.randrange(10 ** 6))


def normal(v):
    return 0.5 * (1 + math.erf(v / math.sqrt(2)))


@contextlib.contextmanager
def normals():
    """Records every draw from a multivariate normal distribution: (mean, covariance, result)."""
    out = []

    def noted(f):
        def g(*a, **k):
            r = f(*a, **k)
            m, v = [a[i] if i < len(a) else k.get(n) for i, n in enumerate(("mean", "cov"))]
            if m is not None and v is not None:
                out.append((np.array(m, dtype=float), np.array(v, dtype=float), np.array(r, dtype=float)))
            return r
        return g

    class Noting(np.random.Generator):
        def __init__(self, b):
            super().__init__(b)
            self.multivariate_normal = noted(super().multivariate_normal)
    real = np.random.default_rng
    with patched([(np.random, "default_rng", lambda *a, **k: Noting(real(*a, **k).bit_generator)), (np.random, "multivariate_normal", noted(np.random.multivariate_normal))]):
        yield out


def twice(c):
    """Two runs, one after the other, have no draw in common."""
    import oneka.stochastic as st
    np.random.seed(c["seed"])
    both = []
    for _ in range(2):
        s = copy.deepcopy(c["s"])
        with runs.recording() as (models, shots):
            st.create_stochastic_capturezone(**runs.args_of(s))
        both.append([sh.m for sh in shots])
    wide = lambda d: isinstance(d, (tuple, list)) and d[-1] - d[0] > 1e-2 * max(map(abs, d))
    for i, (a, b) in enumerate(zip(*both)):
        for n, d in (("k", s["c_dist"]), ("por", s["p_dist"]), ("t", s["t_dist"])):
            need(not wide(d) or a[n] != b[n], "realization %d of a second run has the same draw from %r as that of the first: %r", i, d, a[n])
        for j, w in enumerate(s["stochastic_wells"]):
            need(not wide(w[3]) or a["wells"][j][3] != b["wells"][j][3], "realization %d of a second run has the same discharge of well %d as that of the first", i, j)
        ev, cov = runs.refit(a, s)
        if runs.whiten(a["coef"], ev, cov) is not None:
            need(a["coef"] != b["coef"], "realization %d of a second run has the same coefficients as that of the first: %r", i, a["coef"])


def check(c):
    import oneka.stochastic as st
    if c["kind"] == "twice":
        return twice(c)
    s = copy.deepcopy(c["s"])
    np.random.seed(c["seed"])
    with normals() as drawn, runs.recording(c["kind"] != "traced", c.get("grow")) as (models, shots):
        try:
            pf = st.create_stochastic_capturezone(**runs.args_of(s))
        except Exception:
            if c["kind"] not in ("refused", "singular"):
                raise
            return
    need(c["kind"] != "refused", "realizations are computed although the model cannot be fitted to all observations: one of them is not above the base")
    need(repr(s) == repr(c["s"]), "the caller's inputs were changed")
    n = s["nrealizations"]
    need(len(shots) == n, "%d capture zones were computed for %d realizations", len(shots), n)
    need(abs(pf.total_weight - n) < 1e-9 * n, "the total weight is %r after %d realizations", pf.total_weight, n)
    if c["kind"] == "singular":
        return
    need(pf.deltax == s["spacing"] and pf.deltay == s["spacing"], "the spacing of the field is (%r, %r), not %r", pf.deltax, pf.deltay, s["spacing"])
    xt, yt = s["stochastic_wells"][s["target"]][0:2]
    if c["kind"] == "traced":
        z = fld_consistent(pf)
        for a, o, d in ((xt, z["xmin"], z["dx"]), (yt, z["ymin"], z["dy"])):
            r = (a - o) / d
            need(abs(r - round(r)) < 1e-6 * max(1.0, abs(r)), "the target is not a node of the field")
    draws, zs = [], []
    for i, sh in enumerate(shots):
        need(sh.kw["pfield"] is pf, "capture zone %d is registered in another field", i)
        runs.check_shot(sh, s, i)
        m = sh.m
        for a, b in zip(m["wells"], s["stochastic_wells"]):
            runs.inside(a[3], b[3], "the discharge of well %r" % (b[0:2],))
        runs.inside(m["k"], s["c_dist"], "the conductivity")
        runs.inside(m["por"], s["p_dist"], "the porosity")
        runs.inside(m["t"], s["t_dist"], "the thickness")
        draws.append([m["k"], m["por"], m["t"]] + [w[3] for w in m["wells"]])
        if i < 12 or c["kind"] == "many":
            ev, cov = runs.refit(m, s)
            for mean, var, r in drawn:
                if r.shape == (6,) and np.array_equal(r, m["coef"]):
                    d = np.sqrt(np.abs(np.diag(cov))) + 1e-300
                    need(mean.size == 6 and np.all(np.abs(mean.ravel() - ev) <= 1e-3 * d + 1e-6 * np.abs(ev)), "the coefficients of realization %d are drawn about %r, the fit is %r", i, mean.tolist(), ev.tolist())
                    need(var.shape == (6, 6) and np.all(np.abs(var - cov) <= 1e-3 * np.outer(d, d)), "the coefficients of realization %d are drawn with the variances %r, those of the fit are %r", i, np.diag(var).tolist(), np.diag(cov).tolist())
            z = runs.whiten(m["coef"], ev, cov)
            if z is not None:
                need(np.all(np.abs(z) < 8), "the coefficients of realization %d are %r standard deviations from the fit", i, z.round(2).tolist())
                need(np.linalg.norm(z) > 1e-3, "the coefficients of realization %d are the fitted ones, not a draw about them", i)
                zs.append(z)
        if i < 12:
            runs.check_velocity(sh, s["confined"])
    ds = [s["c_dist"], s["p_dist"], s["t_dist"]] + [w[3] for w in s["stochastic_wells"]]
    names = ["conductivity", "porosity", "thickness"] + ["discharge of well %d" % i for i in range(len(s["stochastic_wells"]))]
    cols = []
    for j, d in enumerate(ds):
        col = [r[j] for r in draws]
        if isinstance(d, (tuple, list)) and d[-1] - d[0] > 1e-9 * max(map(abs, d)):
            if n > 1:
                need(len(set(col)) == n, "the %s is not drawn anew in every realization: %r", names[j], col[:5])
            if n >= 200:
                k = ks(col, ucdf(*d) if len(d) == 2 else tcdf(*d))
                need(k < 3.3, "the %s does not follow %r (Kolmogorov-Smirnov %.2f)", names[j], d, k)
            cols.append((names[j], np.argsort(np.argsort(col)).astype(float)))
    # one independent draw per quantity and realization: no two draws sit at the same (or the mirrored) quantile
    us = []
    for j, d in enumerate(ds):
        if isinstance(d, (tuple, list)) and d[-1] - d[0] > 1e-2 * max(map(abs, d)):
            F = ucdf(*d) if len(d) == 2 else tcdf(*d)
            us += [(float(F(r[j])), names[j], i) for i, r in enumerate(draws[:40])]
    us = [u for u in us if 1e-6 < u[0] < 1 - 1e-6]
    for what in ("same", "mirrored"):
        q = sorted(us + ([(1 - u[0],) + u[1:] for u in us] if what == "mirrored" else []))
        for a, b in zip(q, q[1:]):
            need(a[1:] == b[1:] or b[0] - a[0] > 1e-12, "one draw serves for two: the %s of realization %d and the %s of realization %d are both at quantile %.15f", a[1], a[2], b[1], b[2], a[0])
    if len(zs) >= 200:
        Z = np.array(zs)
        for j in range(6):
            need(ks(list(Z[:, j]), normal) < 3.3, "the drawn coefficients do not follow the fitted normal distribution")
            cols.append(("coefficient direction %d" % j, np.argsort(np.argsort(Z[:, j])).astype(float)))
    if n >= 200:
        for i in range(len(cols)):
            a = cols[i][1] - cols[i][1].mean()
            r = float(a[1:] @ a[:-1] / (a @ a))
            need(abs(r) < 6.5 / math.sqrt(n), "successive draws of the %s are correlated: %.2f", cols[i][0], r)
            for j in range(i):
                b = cols[j][1] - cols[j][1].mean()
                if len(a) != len(b):
                    continue
                r = float(a @ b / math.sqrt((a @ a) * (b @ b)))
                need(abs(r) < 6.5 / math.sqrt(n), "the draws of the %s and the %s are correlated: %.2f", cols[i][0], cols[j][0], r)


def fixed():
    import random
    rng = random.Random(5)
    L = Lits(REPO)
    for i in range(2):
        s = runs.gen_setting(rng, L, nreal=300)
        s["npaths"] = 1
        s["c_dist"], s["p_dist"], s["t_dist"] = (1.0, 20.0), (0.1, 0.2, 0.4), (5.0, 10.0, 30.0)
        s["confined"] = bool(i)
        s["stochastic_wells"] = [(0.0, 0.0, 0.3, (100.0, 900.0)), (300.0, -100.0, 0.5, (10.0, 500.0)), (-200.0, 80.0, 1.0, (0.0, 50.0, 300.0))]
        s["target"] = 1
        cx = sum(o[0] for o in s["observations"]) / len(s["observations"])
        cy = sum(o[1] for o in s["observations"]) / len(s["observations"])
        s["observations"] = [(o[0] - cx, o[1] - cy, o[2], o[3]) for o in s["observations"]]
        yield dict(kind="many", s=s, seed=i)
