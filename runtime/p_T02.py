from lib import *
import traces
import p_T01
CASE_CPU = 30


def gen(rng, L):
    c = p_T01.gen(rng, L, ("uniform", "poly", "poly", "shear", "wave", "wave", "bump"))
    if c["kind"] not in traces.FORWARD and abs(c["p"][1]) > 1e5:
        c["p"] = [0.0, 0.0]
    return c


def check(c):
    f, v = p_T01.trace(c)
    d = c["d"]
    big = max([abs(w) for q in v for w in q] + [1.0])
    eps = 1e-15 * big
    sg = 1.0 if c["dur"] > 0 else -1.0
    fwd = c["kind"] in traces.FORWARD
    for i, (p, q) in enumerate(zip(v, v[1:])):
        if i > 250:
            break
        ds = math.hypot(q[0] - p[0], q[1] - p[1])
        if ds < 1e6 * eps:
            continue                        # too short to tell the time step from rounding
        if fwd:
            dt = (p_T01.along(c, q)[0] - p_T01.along(c, p)[0]) / d["v"]
            n = traces.step(f.raw, p, dt)[0]
            miss = math.hypot(n[0] - q[0], n[1] - q[1])
            slack = 8 * eps / d["v"] * (1 + math.hypot(*f.raw(*p)) + math.hypot(*f.raw(*q)))
        else:
            dt, miss = traces.find_dt(f.raw, p, q, sg)
            slack = 0.0
            if dt is None:
                continue
        need(dt * sg > 0, "the time step %r from %r to %r goes against the duration %r", dt, p, q, c["dur"])
        need(miss <= 1e-7 * ds + 20 * eps + slack, "the step from %r to %r is not a Dormand-Prince step of the velocity function: off by %r", p, q, miss)
        e = traces.step(f.raw, p, dt)[1]
        need(e < c["tol"] * (1 + 1e-5) + 20 * eps + slack, "the error estimate %r of the step from %r to %r is not below the tolerance %r", e, p, q, c["tol"])
    if d["kind"] in ("uniform", "poly"):
        # exact pathline: s = v t along th, the other coordinate is the integral of the polynomial
        for q in v:
            s, n = p_T01.along(c, q)
            if d["kind"] == "uniform":
                e, mag = 0.0, abs(s)
            else:
                z = s / d["s"]
                terms = [a * d["s"] * z ** (i + 1) / (i + 1) for i, a in enumerate(d["c"])]
                e, mag = math.fsum(terms), sum(map(abs, terms)) + abs(s)
            need(abs(n - e) <= 1e-7 * mag + 1e-13 * len(v) * big * (1 + sum(map(abs, d.get("c", [0]))) * (1 + abs(s / d.get("s", 1.0))) ** 4), "the vertex %r is off the exact pathline by %r", q, n - e)


def fixed():
    for deg in range(1, 6):
        yield dict(kind="poly", d=dict(kind="poly", v=1.0, th=0.3, c=[0.1] * (deg - 1) + [0.7], s=10.0), p=[0.0, 0.0], dur=30.0, tol=0.01, maxstep=5.0)
