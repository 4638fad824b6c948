from lib import *
import traces
CASE_CPU = 30


def gen(rng, L, kinds=None):
    d = traces.gen_field(rng, L, *([kinds] if kinds else []))
    x0, y0 = rng.choice([(0.0, 0.0), (L.num(rng, 100.0), L.num(rng, 100.0)), (437600.5, 5006600.5)])
    maxstep = L.pos(rng, 0.5, 50)
    dur = rng.choice([rng.uniform(0.001, 1), 0.1, 0.05, 10 ** rng.uniform(0, 3), rng.randint(1, 500), L.pos(rng, 1e-9, 1e-2)])
    dur = traces.bounded_duration(d, dur, maxstep)
    if not kinds and rng.random() < (0.15 if L.novel_counts else 0.004):
        # a long trace
        d = traces.gen_field(rng, L, ("uniform",))
        maxstep = rng.uniform(0.5, 2)
        dur = rng.uniform(1.0, 1.3) * rng.choice(L.novel_counts or [500, 1100, 3000]) * maxstep / d["v"]
    if rng.random() < 0.25:
        dur = -dur
    tol = L.pos(rng, 1e-4, 5)
    if "h" in d and rng.random() < 0.6:
        # only the very end of the track sees the spike
        d["s0"], d["w"] = d["v"] * dur, 10 ** rng.uniform(1.5, 4) / abs(d["v"] * dur)
        d["h"] = 40 * tol / abs(d["v"] * min(abs(dur), 0.1, maxstep / d["v"])) * 10 ** rng.uniform(-0.3, 1)
    return dict(kind=d["kind"], d=d, p=[x0, y0], dur=dur, tol=tol, maxstep=maxstep)


def trace(c):
    import oneka.capturezone as oc
    f = traces.velocity(c["d"], *c["p"])
    try:
        v = oc.compute_backtrace(c["p"][0], c["p"][1], c["dur"], c["tol"], c["maxstep"], f)
    except Exception as e:
        fail("the trace raises %r", e)
    v = [(float(q[0]), float(q[1])) for q in v]
    need(len(v) >= 1 and v[0] == (c["p"][0], c["p"][1]), "the trace does not begin with the starting point: %r", v[:1])
    return f, v


def bounds(c, v):
    """Every vertex is finite and no step is longer than the maximum."""
    big = max(abs(c["p"][0]), abs(c["p"][1]), 1.0)
    for p, q in zip(v, v[1:]):
        need(math.isfinite(q[0]) and math.isfinite(q[1]), "a vertex is not finite: %r", q)
        ds = math.hypot(q[0] - p[0], q[1] - p[1])
        need(ds < c["maxstep"] * (1 + 1e-9) + 1e-14 * big, "consecutive vertices %r, %r are %r apart, the maximum step is %r", p, q, ds, c["maxstep"])


def along(c, q):
    dx, dy = q[0] - c["p"][0], q[1] - c["p"][1]
    cs, sn = math.cos(c["d"]["th"]), math.sin(c["d"]["th"])
    return cs * dx + sn * dy, -sn * dx + cs * dy


def check(c):
    f, v = trace(c)
    bounds(c, v)
    # the forward velocity is constant, so the trace time of a vertex is its forward distance over that velocity
    big = max([abs(w) for q in v for w in q] + [1.0])
    vel = c["d"]["v"]
    eps = 4e-16 * big * (len(v) + 5) / vel + 1e-9 * abs(c["dur"])
    t, sg = [along(c, q)[0] / vel for q in v], 1.0 if c["dur"] > 0 else -1.0
    for i, (a, b) in enumerate(zip(t, t[1:])):
        need((b - a) * sg > -2 * eps, "the time step %r from vertex %d goes against the duration %r", b - a, i, c["dur"])
        need(abs(b) <= abs(c["dur"]) + eps, "the trace time %r of vertex %d passes the duration %r", b, i + 1, c["dur"])
    k = c["d"]["kind"]
    if k in ("fail", "dry", "nan") and f.count["n"] > c["d"]["after"]:
        return
    need(abs(t[-1] - c["dur"]) <= eps, "the trace ends at time %r, not at the duration %r", t[-1], c["dur"])


def fixed():
    for dur in (1.0, -1.0, 0.05, 100):
        yield dict(kind="uniform", d=dict(kind="uniform", v=1.0, th=0.0), p=[0.0, 0.0], dur=dur, tol=1.0, maxstep=10.0)
    for how in ("nan", "inf"):
        for after in (0, 1, 2, 7, 13):
            yield dict(kind="nan", d=dict(kind="nan", v=1.0, th=0.0, after=after, how=how), p=[0.0, 0.0], dur=50.0, tol=1.0, maxstep=10.0)
    for how in ("Boom", "AquiferError", "Exception"):
        for after in (0, 1, 3, 6, 8, 30):
            yield dict(kind="fail", d=dict(kind="fail", v=1.0, th=1.0, after=after, how=how), p=[0.0, 0.0], dur=50.0, tol=1.0, maxstep=10.0)
