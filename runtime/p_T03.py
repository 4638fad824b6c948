from lib import *
import contextlib
import inspect
import traces
CASE_CPU = 60


def gen(rng, L):
    if rng.random() < 0.15:
        n = L.size(rng, 1, 400, 1000, 1300)
        return dict(kind="dry", p=[rng.choice([0.0, L.num(rng, 100.0)]), rng.choice([0.0, L.num(rng, 100.0)])], r=rng.choice([L.pos(rng, 0.05, 5), 10 ** rng.uniform(-3, 4)]), npaths=n, dur=rng.choice([10.0, -5.0]), tol=1.0, maxstep=5.0,
                    sp=L.pos(rng, 2, 10), u=L.pos(rng, 1, 8), w=rng.choice([1, 0.5, 2.25]))
    d = traces.gen_field(rng, L, ("uniform", "rot", "smooth", "shear", "bump", "fail"))
    if d["kind"] == "fail":
        d["kind"] = "uniform"
    r = rng.choice([L.pos(rng, 0.05, 5), L.pos(rng, 0.05, 40), 1, 0.5])
    if rng.random() < 0.3:
        # the aquifer is dry beyond a line, which may pass between the starting points
        d["wall"] = [rng.uniform(0, 2 * math.pi), (r + 1) * rng.choice([rng.uniform(-1, 1), rng.uniform(-1, 1), -2.0, rng.uniform(1, 4)])]
    ms = L.pos(rng, 2, 20)
    sp = L.pos(rng, 1, 10)
    dur = traces.bounded_duration(d, min(10 ** rng.uniform(-3 if rng.random() < 0.3 else -1, 2), 30 * sp / d["v"]), ms, 10) * rng.choice([1, 1, 1, -1])
    return dict(kind=d["kind"], d=d, p=[L.num(rng, 100.0), L.num(rng, 100.0)], r=r, npaths=L.size(rng, 1, 12, 40), dur=dur,
                tol=L.pos(rng, 1e-3, 2) if rng.random() < 0.8 else ms * rng.uniform(0.5, 20), maxstep=ms, sp=sp, u=L.pos(rng, 0.5, 8), w=rng.choice([1.0, 1, 0.5, 2.25, L.pos(rng, 0.1, 3)]), before=rng.random() < 0.3)


def particles(c):
    """With a velocity function that always fails, every particle ends where it starts."""
    import oneka.capturezone as oc
    from oneka.probabilityfield import ProbabilityField
    x, y = c["p"]
    n, at = c["npaths"], []

    def dry(*a):
        q = a[0] if len(a) == 1 else a
        at.append((float(q[0]), float(q[1])))
        raise ValueError("no velocity here")
    pf = ProbabilityField(c["sp"], c["sp"], x, y)
    oc.compute_capturezone(x, y, c["r"], n, c["dur"], pf, c["u"], c["w"], c["tol"], c["maxstep"], dry)
    close(pf.total_weight, c["w"], 1e-12 * (1 + c["w"]), "total weight after one capture zone")
    need(len(at) > 0 and len(at) % n == 0, "the velocity function, which always fails, is called %d times for %d particles", len(at), n)
    k = len(at) // n
    big = 1e-9 * max(abs(x), abs(y), c["r"] + 1, 1)
    hits = [0] * n
    for q in at:
        p = round(math.atan2(q[1] - y, q[0] - x) * n / (2 * math.pi)) % n
        th = 2 * math.pi * p / n
        px, py = x + (c["r"] + 1.0) * math.cos(th), y + (c["r"] + 1.0) * math.sin(th)
        need(math.hypot(q[0] - px, q[1] - py) < big, "a particle starts at %r, none of the %d starting points", q, n)
        hits[p] += 1
    need(all(h == k for h in hits), "particle %d of %d does not start at its angle", [h == k for h in hits].index(False) if k * n != sum(hits) or len(set(hits)) > 1 else 0, n)


@contextlib.contextmanager
def settings(oc, c):
    """Every backtrace that is asked for by name is asked for with the caller's settings."""
    real = oc.compute_backtrace
    sig = inspect.signature(real)

    def traced(*a, **k):
        got = sig.bind(*a, **k).arguments
        for name, mine in (("duration", c["dur"]), ("tol", c["tol"]), ("maxstep", c["maxstep"])):
            if name in got:
                need(float(got[name]) == float(mine), "a backtrace is computed with %s = %r, the caller's is %r", name, got[name], mine)
        return real(*a, **k)
    oc.compute_backtrace = traced
    try:
        yield
    finally:
        oc.compute_backtrace = real


def check(c):
    import oneka.capturezone as oc
    from oneka.probabilityfield import ProbabilityField
    if c["kind"] == "dry":
        return particles(c)
    x, y = c["p"]
    f = traces.velocity(c["d"], x, y)
    pf = ProbabilityField(c["sp"], c["sp"], x, y)
    if c["before"]:
        pf.rasterize([x, x + 3 * c["sp"]], [y, y + c["sp"]], c["u"])
        pf.register(1.0)
    a = fld_state(pf)
    with settings(oc, c):
        r = oc.compute_capturezone(x, y, c["r"], c["npaths"], c["dur"], pf, c["u"], c["w"], c["tol"], c["maxstep"], f)
    z = fld_consistent(pf)
    rs, cs = moved(a, z, "the capture zone")
    close(z["W"], a["W"] + c["w"], 1e-12 * (1 + z["W"]), "total weight after one capture zone")
    need(not z["G"].any(), "marks are left after registering")
    segs = []
    for p in range(c["npaths"]):
        th = 2 * math.pi * p / c["npaths"]
        v = oc.compute_backtrace(x + (c["r"] + 1.0) * math.cos(th), y + (c["r"] + 1.0) * math.sin(th), c["dur"], c["tol"], c["maxstep"], traces.velocity(c["d"], x, y))
        v = [(float(q[0]), float(q[1])) for q in v]
        need(all(z["xmin"] < q[0] - c["u"] + 1e-7 and z["xmax"] > q[0] + c["u"] - 1e-7 and z["ymin"] < q[1] - c["u"] + 1e-7 and z["ymax"] > q[1] + c["u"] - 1e-7 for q in v),
             "the field does not contain the trace of particle %d", p)
        segs += [(v[i][0], v[i][1], v[i + 1][0], v[i + 1][1]) for i in range(len(v) - 1)]
    yes, no = near_masks(z, segs, c["u"])
    # starting points are recomputed here: leave a little room
    yes &= near_masks(z, segs, c["u"] * (1 - 1e-6))[0]
    no &= near_masks(z, segs, c["u"] * (1 + 1e-6))[1]
    base = lift(a, z, rs, cs, "P", 0.0)
    t = 1e-9 * (1 + z["W"])
    miss = yes & (np.abs(z["P"] - base - c["w"]) > t)
    need(not miss.any(), "nodes %r lie near a traced path of the %d particles and did not get the weight %r once: %r", np.argwhere(miss)[:5].tolist(), c["npaths"], c["w"], (z["P"] - base)[miss][:5].tolist())
    extra = no & (np.abs(z["P"] - base) > t)
    need(not extra.any(), "nodes %r are not near a traced path and got a weight: %r", np.argwhere(extra)[:5].tolist(), (z["P"] - base)[extra][:5].tolist())
