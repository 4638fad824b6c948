"""Velocity functions given by JSON descriptions, and a reference Dormand-Prince 5(4) step."""
from lib import *

C = [0, 1 / 5, 3 / 10, 4 / 5, 8 / 9, 1, 1]
A = [[], [1 / 5], [3 / 40, 9 / 40], [44 / 45, -56 / 15, 32 / 9], [19372 / 6561, -25360 / 2187, 64448 / 6561, -212 / 729],
     [9017 / 3168, -355 / 33, 46732 / 5247, 49 / 176, -5103 / 18656], [35 / 384, 0, 500 / 1113, 125 / 192, -2187 / 6784, 11 / 84]]
B4 = [5179 / 57600, 0, 7571 / 16695, 393 / 640, -92097 / 339200, 187 / 2100, 1 / 40]


class Boom(Exception):
    pass


def gen_field(rng, L, kinds=("uniform", "poly", "poly", "shear", "wave", "bump", "fail", "nan", "dry")):
    """Velocity fields; in those marked forward one component is constant, so that time can be read off positions exactly."""
    k = rng.choice(kinds)
    v = 10 ** (rng.uniform(-2, 1.3) if rng.random() < 0.85 else rng.uniform(-7, 7))
    th = rng.uniform(0, 2 * math.pi)
    if rng.random() < 0.15:
        th = rng.choice([0, math.pi / 2, math.pi, -math.pi / 2])
    d = dict(kind=k, v=v, th=th)
    if k == "poly":
        d["c"] = [rng.uniform(-1, 1) * 10 ** rng.uniform(-1, 0.5) for _ in range(rng.randint(1, 5))]
        d["s"] = 10 ** rng.uniform(0, 2)
    if k in ("fail", "nan", "dry"):
        d["after"] = rng.randint(0, 40)
        d["how"] = rng.choice(["Boom", "ValueError", "ZeroDivisionError", "Exception", "AquiferError", "RuntimeError", "OverflowError"]) if k != "nan" else rng.choice(["nan", "inf", "-inf"])
    if k in ("rot", "smooth", "saddle", "sink", "shear", "wave", "bump"):
        d["w"] = rng.choice([-1, 1]) * 10 ** rng.uniform(-3, -0.5)
    if k == "bump" and rng.random() < 0.4:
        d["h"] = 10 ** rng.uniform(0, 6)                # a narrow and high spike
        d["w"] = 10 ** rng.uniform(-1, 3)
    return d


FORWARD = ("uniform", "poly", "shear", "wave", "bump", "fail", "nan", "dry")


def bounded_duration(d, dur, maxstep, n=150):
    """Shortens the duration so that the path is at most about n maximum steps long."""
    lim = n * maxstep
    dur = min(abs(dur), lim / d["v"] / 1.5)
    if d["kind"] == "poly":
        for _ in range(200):
            z = d["v"] * dur / d["s"]
            if sum(abs(a) * d["s"] * z ** (i + 1) / (i + 1) for i, a in enumerate(d["c"])) <= lim and z < 50:
                break
            dur *= 0.8
    elif "h" in d:
        d["h"] = min(d["h"], max(2.0, n * maxstep * d["w"] / 4))
        d["s0"] = 0.6 * d["v"] * dur
    elif "w" in d:
        dur = min(dur, 6 / abs(d["w"]) / (d["v"] if d["kind"] not in ("rot", "saddle") else 1.0))
    return dur


def velocity(d, x0, y0):
    """The velocity function, with a call counter attached."""
    import oneka.model as om
    cs, sn = math.cos(d["th"]), math.sin(d["th"])
    k, v = d["kind"], d["v"]
    st = {"n": 0}

    def raw(x, y):
        dx, dy = x - x0, y - y0
        if k == "poly":
            s = (cs * dx + sn * dy) / d["s"]
            p = 0.0
            for q in reversed(d["c"]):
                p = p * s + q
            u, w = v, v * p
            return cs * u - sn * w, sn * u + cs * w
        if k in ("shear", "wave", "bump"):
            s, n = cs * dx + sn * dy, -sn * dx + cs * dy
            w = v * (0.8 * d["w"] * n if k == "shear" else 0.7 * math.sin(d["w"] * (s + 0.5 * n)) if k == "wave" else d.get("h", 2.0) / (1 + (d["w"] * (s - d.get("s0", 7.0))) ** 2))
            return cs * v - sn * w, sn * v + cs * w
        if k == "rot":
            return v * cs - d["w"] * dy, v * sn + d["w"] * dx
        if k == "saddle":
            return v * cs + d["w"] * dx * 0.1, v * sn - d["w"] * dy * 0.1
        if k == "sink":
            r2 = (dx - 50 * cs) ** 2 + (dy - 50 * sn) ** 2 + 4.0
            return v * cs - 30 * d["w"] * (dx - 50 * cs) / r2, v * sn - 30 * d["w"] * (dy - 50 * sn) / r2
        if k == "smooth":
            return v * (cs + 0.5 * math.sin(d["w"] * dy)), v * (sn + 0.5 * math.cos(d["w"] * dx))
        return v * cs, v * sn

    def feval(xy):
        st["n"] += 1
        if k in ("fail", "dry") and st["n"] > d["after"]:
            if d["how"] == "AquiferError":
                raise om.AquiferError("dry")
            if d["how"] == "Boom":
                raise Boom()
            raise {"ValueError": ValueError, "ZeroDivisionError": ZeroDivisionError, "Exception": Exception, "RuntimeError": RuntimeError, "OverflowError": OverflowError}[d["how"]]("unusable")
        if k == "nan" and st["n"] > d["after"]:
            return np.array([float(d["how"]), 0.0])
        if "wall" in d and (xy[0] - x0) * math.cos(d["wall"][0]) + (xy[1] - y0) * math.sin(d["wall"][0]) > d["wall"][1]:
            raise om.AquiferError("dry")
        return np.array(raw(float(xy[0]), float(xy[1])))
    feval.raw = raw
    feval.count = st
    return feval


def step(raw, p, dt):
    """One step: (next point, embedded error estimate)."""
    ks = []
    for i in range(7):
        x = p[0] + dt * sum(a * k[0] for a, k in zip(A[i], ks))
        y = p[1] + dt * sum(a * k[1] for a, k in zip(A[i], ks))
        if i == 6:
            nxt = (x, y)
        ks.append(raw(x, y))
    b5 = A[6] + [0]
    ex = dt * sum((a - b) * k[0] for a, b, k in zip(b5, B4, ks))
    ey = dt * sum((a - b) * k[1] for a, b, k in zip(b5, B4, ks))
    return nxt, max(abs(ex), abs(ey))


def find_dt(raw, p, q, sign):
    """The time step that leads from p to q (the speeds here are not zero along the step), and the distance missed."""
    ds = math.hypot(q[0] - p[0], q[1] - p[1])
    u = raw(*p)
    sp = math.hypot(*u)
    if sp == 0:
        return None, None
    ux, uy = (q[0] - p[0]) / ds, (q[1] - p[1]) / ds
    f = lambda dt: (lambda n: (n[0] - p[0]) * ux + (n[1] - p[1]) * uy - ds)(step(raw, p, dt)[0])
    a = sign * ds / sp
    fa = f(a)
    b = a * (1 - fa / ds) if fa != 0 else a * 1.0001
    fb = f(b)
    for _ in range(60):
        if fb == fa or abs(fb) < 1e-14 * ds:
            break
        a, fa, b = b, fb, b - fb * (b - a) / (fb - fa)
        fb = f(b)
    n = step(raw, p, b)[0]
    return b, math.hypot(n[0] - q[0], n[1] - q[1])
