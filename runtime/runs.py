"""Recording stochastic and deterministic runs."""
from lib import *


class Shot:
    """What one capture-zone computation was given."""
    def __init__(self, kw, model, m):
        self.kw, self.model, self.m = kw, model, m


NAMES = ("xtarget", "ytarget", "rtarget", "npaths", "duration", "pfield", "umbra", "weight", "tol", "maxstep", "feval")


def gen_setting(rng, L, nreal=None, steep=False):
    """Arguments of a run; the observations make the fit well posed."""
    nw = L.size(rng, 1, 4, 8, 120)
    cx, cy = rng.choice([(0.0, 0.0), (437600.0, 5006600.0)])
    wells = []
    for _ in range(nw):
        wells.append((cx + rng.uniform(-200, 200), cy + rng.uniform(-200, 200), L.pos(rng, 0.1, 2), gen_dist(rng, L, -500, 2000)))
    if rng.random() < 0.15:
        # a well that does not pump
        i = rng.randrange(nw)
        wells[i] = wells[i][:3] + (rng.choice([0, 0.0, (0, 0), (0.0, 0.0, 0.0)]),)
    if nw > 1 and rng.random() < 0.15:
        # a well nest: two wells at one place
        i, j = rng.sample(range(nw), 2)
        wells[i] = wells[j][:2] + wells[i][2:]
    if rng.random() < 0.2:
        wells = [list(w) for w in wells]
    if nw > 1 and rng.random() < 0.35:
        d = gen_dist(rng, L, -500, 2000) if rng.random() < 0.3 else rng.choice([(100.0, 900.0), (10, 50, 400.0), [0.0, 300.0]])
        for i in range(nw):
            if rng.random() < 0.7:
                wells[i] = type(wells[i])(list(wells[i][:3]) + [copy.copy(d)])
    target = rng.randrange(nw)
    base = rng.choice([0, 100.0, rng.uniform(-50, 200)])
    t_dist = gen_dist(rng, L, 5, 40)
    c_dist = gen_dist(rng, L, 1, 60)
    p_dist = gen_dist(rng, L, 0.05, 0.4)
    if rng.random() < 0.15:
        # one and the same specification for several quantities
        d = rng.choice([(0.2, 0.4), (0.5, 0.75), [0.5, 0.6, 0.8], (0.1, 0.3, 0.9)])
        c_dist, p_dist, t_dist = [copy.copy(d) if rng.random() < 0.75 else e for e in (c_dist, p_dist, t_dist)]
    obs = []
    xt, yt = wells[target][0:2]
    span, relief = rng.choice([(800, 3), (800, 3), (800, 3), (100, 20), (3000, 0.1)]) if steep else (800, 3)
    for _ in range(L.size(rng, 8, 14, 30, 200)):
        obs.append((xt + rng.uniform(-span, span), yt + rng.uniform(-span, span), base + 30 + rng.uniform(-relief, relief), rng.uniform(0.2, 2)))
    return dict(target=target, npaths=rng.randint(1, 6), duration=rng.choice([5, 20.0, 100.0, -50.0]), nrealizations=nreal or rng.randint(1, 4), base=base, c_dist=c_dist,
                p_dist=p_dist, t_dist=t_dist, stochastic_wells=wells, observations=obs, spacing=L.pos(rng, 2, 20), umbra=L.pos(rng, 2, 20),
                confined=rng.random() < 0.5, tol=L.pos(rng, 0.1, 2), maxstep=L.pos(rng, 2, 20))


def low(rng, s):
    """One observation at or below the base."""
    o = s["observations"]
    i = rng.randrange(len(o))
    o[i] = tuple(o[i][:2]) + (s["base"] - rng.choice([0, 0, 1e-3, 5, 40.0]),) + tuple(o[i][3:])
    return s


def flat(rng, s):
    """All observations on one line through the target: the coefficients across it are not determined."""
    t, ax = s["stochastic_wells"][s["target"]], rng.randrange(2)
    s["observations"] = [tuple(t[ax] if i == ax else v for i, v in enumerate(o)) for o in s["observations"]]
    return s


def args_of(s, det=False):
    k = ["target", "npaths", "duration"] + ([] if det else ["nrealizations"]) + ["base", "c_dist", "p_dist", "t_dist", "stochastic_wells", "observations", "spacing", "umbra",
                                                                                 "confined", "tol", "maxstep"]
    return {n: s[n] for n in k}


@contextlib.contextmanager
def recording(quick=True, grow=False, after=None):
    """Record every model built and every capture zone computed; with quick, capture zones are not traced."""
    import inspect
    import oneka.model as om
    import oneka.capturezone as oc
    import oneka.stochastic as st
    import oneka.deterministic as de
    models, shots = [], []
    init = om.Model.__init__
    real = oc.compute_capturezone
    sig = inspect.signature(real)

    def new_init(self, *a, **k):
        init(self, *a, **k)
        models.append(self)

    def zone(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        m = models[-1] if models else None
        s = None
        if m is not None:
            s = dict(base=m.base, k=m.conductivity, por=m.porosity, t=m.thickness, wells=[tuple(w) for w in m.wells], xo=m.xo, yo=m.yo, coef=[float(v) for v in np.ravel(m.coef)])
        sh = Shot(dict(b.arguments), m, s)
        shots.append(sh)
        sh.at = len(shots)
        probe(sh)
        if quick and grow and len(shots) == 1:
            f = sh.kw["pfield"]
            f.expand(f.xmin - 300 * f.deltax, f.xmax + 800 * f.deltax, f.ymin - 700 * f.deltay, f.ymax + 300 * f.deltay)
        if quick:
            sh.kw["pfield"].register(sh.kw["weight"])
            return None
        r = real(*a, **k)
        if after is not None:
            after(sh)
        return r

    def probe(sh):
        sh.vel = []
        m = sh.m
        if m is None:
            return
        for dx, dy in ((30.0, 10.0), (-120.0, 55.0), (3.0, -7.0)):
            x, y = sh.kw["xtarget"] + dx, sh.kw["ytarget"] + dy
            try:
                v = sh.kw["feval"](np.array([x, y]))
                v = [float(v[0]), float(v[1])]
            except om.AquiferError:
                v = "dry"
            sh.vel.append((x, y, v))
    with patched([(om.Model, "__init__", new_init), (st, "compute_capturezone", zone), (de, "compute_capturezone", zone), (oc, "compute_capturezone", zone)]):
        yield models, shots


def check_velocity(sh, confined):
    """feval is the reverse of the model's own velocity."""
    m = sh.m
    for x, y, v in sh.vel:
        if min(math.hypot(x - w[0], y - w[1]) for w in m["wells"]) < 0.5:
            continue
        qx, qy, s = ref_q(m, x, y)
        P, ps = ref_pot(m, x, y)
        crit = m["k"] * m["t"] ** 2 / 2
        if confined:
            d = m["por"] * m["t"]
        else:
            if abs(P) < 1e-6 * ps:
                continue
            if P <= 0:
                need(v == "dry", "a velocity %r is used although the aquifer is dry at (%r, %r)", v, x, y)
                continue
            h = math.sqrt(2 * P / m["k"]) if P < crit else (P + crit) / (m["k"] * m["t"])
            d = m["por"] * min(h, m["t"])
        need(v != "dry", "the traced velocity is refused as dry at (%r, %r) (potential %r, confined=%r)", x, y, P, confined)
        tol = 1e-6 * s / d + 1e-6 * ps / max(abs(P), 1e-9) * s / d * (0 if confined else 1)
        close(v[0], -qx / d, tol, "traced x-velocity at (%r, %r) with confined=%r", x, y, confined)
        close(v[1], -qy / d, tol, "traced y-velocity at (%r, %r) with confined=%r", x, y, confined)


def inside(v, d, what):
    lo, hi = (d[0], d[-1]) if isinstance(d, (tuple, list)) else (d, d)
    need(math.isfinite(float(v)) and lo - 1e-12 * abs(lo) <= v <= hi + 1e-12 * abs(hi), "%s is %r, its distribution is %r", what, v, d)


def check_shot(sh, s, i):
    """What a realization of either kind must satisfy."""
    m = sh.m
    need(m is not None, "no model was built before capture zone %d", i)
    xt, yt, rt = s["stochastic_wells"][s["target"]][0:3]
    for k, v in dict(xtarget=xt, ytarget=yt, rtarget=rt, npaths=s["npaths"], duration=s["duration"], umbra=s["umbra"], tol=s["tol"], maxstep=s["maxstep"], weight=1.0).items():
        need(sh.kw[k] == v, "capture zone %d is computed with %s = %r instead of %r", i, k, sh.kw[k], v)
    need(m["base"] == s["base"], "the model's base is %r, not %r", m["base"], s["base"])
    need(len(m["wells"]) == len(s["stochastic_wells"]), "the model has %d wells instead of %d", len(m["wells"]), len(s["stochastic_wells"]))
    for a, b in zip(m["wells"], s["stochastic_wells"]):
        need(tuple(a[0:3]) == tuple(b[0:3]), "the model has the well %r in the place of %r", a, b)
    need(m["xo"] == xt and m["yo"] == yt, "the origin of the model is (%r, %r), the target is at (%r, %r)", m["xo"], m["yo"], xt, yt)


def refit(m, s):
    """Expected coefficients and covariance of a fresh model like m, fitted to all observations about the target."""
    from oneka.model import Model
    f = Model(m["base"], m["k"], m["por"], m["t"], [list(w) for w in m["wells"]])
    xt, yt = s["stochastic_wells"][s["target"]][0:2]
    ev, cov = f.fit_regional_flow([tuple(o) for o in s["observations"]], xt, yt)
    return np.ravel(np.array(ev, dtype=float)), np.array(cov, dtype=float)


def whiten(c, ev, cov):
    """Independent standard normal numbers if c is a draw from N(ev, cov); None when cov is nearly singular."""
    s = np.sqrt(np.diag(cov))
    if not np.all(s > 0):
        return None
    w, V = np.linalg.eigh(cov / np.outer(s, s))
    if w[0] < 1e-9 * w[-1]:
        return None
    return (V.T @ ((np.array(c) - ev) / s)) / np.sqrt(w)
