from lib import *
import p_M07


def gen(rng, L):
    kind = rng.choice(["ok", "ok", "ok", "dry", "few", "line"])
    m = gen_model(rng, L, nmax=3)
    m["coef"] = [L.num(rng, 1.0) for _ in range(6)]
    o = [m["cx"] + L.num(rng, 10.0), m["cy"] + L.num(rng, 10.0)]
    obs = []
    sc = rng.choice([1.0, 10.0, 100.0])
    for _ in range(rng.randint(1, 5) if kind == "few" else L.size(rng, 7, 20, 60, 400)):
        h = m["t"] * rng.uniform(0.2, 3)
        obs.append((o[0] + rng.uniform(-3, 3) * sc, o[1] + rng.uniform(-3, 3) * sc, m["base"] + h, L.pos(rng, 0.1, 3)))
    if kind == "line":
        # all observations on a line through the origin: the normal matrix has rows of zeros
        obs = [(o[0],) + p[1:] for p in obs] if rng.random() < 0.5 else [p[:1] + (o[1],) + p[2:] for p in obs]
    if kind == "dry":
        q = rng.randrange(len(obs))
        obs[q] = obs[q][:2] + (m["base"] - rng.choice([0, 1, 20.0]),) + obs[q][3:]
    return dict(kind=kind, m=m, obs=obs, o=o, again=rng.random() < 0.5)


def once(mo, obs, o, kind):
    before, ob = snap(mo), copy.deepcopy(obs)
    try:
        ev, cov = mo.fit_regional_flow(obs, o[0], o[1])
    except Exception as e:
        same_state(before, snap(mo), "a fit that failed (%s)" % type(e).__name__)
        need(obs == ob, "the observations were modified")
        need(kind != "ok", "a well-posed fit failed: %r", e)
        return
    if kind == "line":
        N = np.asarray(mo.construct_fit(obs, o[0], o[1])[0], float)
        N = N.T @ N
        need(not np.any(np.all(N == 0, axis=0)), "a fit succeeds although the normal matrix has no inverse (a row of zeros)")
        return
    need(kind != "dry", "a fit with an observation not above the base succeeds")
    need(obs == ob, "the observations were modified")
    after = snap(mo)
    ev = np.ravel(np.asarray(ev, float))
    need(ev.shape == (6,), "six coefficients expected")
    need(after["coef"] == [float(v) for v in ev], "the model's coefficients %r are not the returned ones %r", after["coef"], list(ev))
    need((after["xo"], after["yo"]) == (o[0], o[1]), "the model's origin is %r, not the requested %r", (after["xo"], after["yo"]), tuple(o))
    for k in ("base", "k", "por", "t", "wells"):
        need(after[k] == before[k], "the fit changed %s", k)
    if kind != "ok":
        return
    WA, Wb = mo.construct_fit(obs, o[0], o[1])
    WA, Wb = np.asarray(WA, float), np.ravel(np.asarray(Wb, float))
    r = WA @ ev - Wb
    g = WA.T @ r
    nA = np.linalg.norm(WA, 2)
    tol = 1e-9 * (nA * np.linalg.norm(Wb) + nA * nA * np.linalg.norm(ev))
    need(np.all(np.isfinite(ev)) and np.max(np.abs(g)) <= tol, "the coefficients do not satisfy the normal equations: residual %r, tolerance %r", np.max(np.abs(g)), tol)
    N = WA.T @ WA
    D = 1 / np.sqrt(np.diag(N))
    Ns = N * np.outer(D, D)
    cond = np.linalg.cond(N)
    cs = np.linalg.cond(Ns)
    sol = np.linalg.solve(Ns, D * (WA.T @ Wb)) * D
    if cs < 1e6 and cond < 1e13:
        q = np.abs(ev - sol) * np.sqrt(np.diag(N))
        need(np.max(q) <= 1e-5 * (np.linalg.norm(Wb) + np.linalg.norm(WA @ sol)), "the coefficients %r are not the least-squares solution %r", list(ev), list(sol))
    if cond < 1e12 and cs < 1e6:
        C = np.asarray(cov, float)
        need(C.shape == (6, 6), "the covariance has shape %s", C.shape)
        E = (C / np.outer(D, D)) @ Ns - np.eye(6)
        need(np.max(np.abs(E)) < 1e-3, "the covariance is not the inverse of the normal matrix: off by %r", np.max(np.abs(E)))


def check(c):
    m = copy.deepcopy(c["m"])
    mo = make_model(m)
    once(mo, copy.deepcopy(c["obs"]), c["o"], c["kind"])
    if c["again"]:
        once(mo, copy.deepcopy(c["obs"])[::-1], [c["o"][0] + 5.5, c["o"][1] - 3], c["kind"])
