"""Runtime oracles: support.  Runs under the project's own interpreter, against /repo's working tree."""
import ast
import contextlib
import copy
import glob
import json
import logging
import math
import os
import random
import signal
import sys
import tempfile

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
inf, nan = float("inf"), float("nan")
logging.getLogger("Oneka").setLevel(logging.INFO)
logging.getLogger("Oneka").propagate = False
logging.getLogger("Oneka").addHandler(logging.NullHandler())
logging.getLogger("oneka").setLevel(logging.CRITICAL)
logging.getLogger("oneka.capturezone").setLevel(logging.CRITICAL)


class Fail(Exception):
    """The property does not hold on this input."""


class Timeout(BaseException):
    pass


def fail(msg, *a):
    raise Fail(msg % a if a else msg)


def need(cond, msg, *a):
    if not cond:
        fail(msg, *a)


def close(a, b, tol, msg, *args):
    if not (math.isfinite(float(a)) and abs(float(a) - float(b)) <= tol):
        raise Fail((msg % args if args else msg) + ": got %.17g, expected %.17g (tolerance %.3g)" % (a, b, tol))


class Lits:
    """Numbers and strings that appear in the code under test: inputs are also drawn from around these."""

    def __init__(self, root):
        self.nums, self.ints = set(), set()
        # numbers that were not in the code when the oracles were written are tried more often (a search heuristic only)
        try:
            known = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "literals.json")))
        except (OSError, ValueError):
            known = None
        novel = set()
        for f in glob.glob(os.path.join(root, "oneka", "*.py")) + [os.path.join(root, "runme.py")]:
            try:
                t = ast.parse(open(f).read())
            except (OSError, SyntaxError):
                continue
            for n in ast.walk(t):
                if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                    v = n.value
                    if abs(v) < 1e12:
                        self.nums.add(float(v))
                        if known is not None and v != 0:
                            here, any_ = known.get(os.path.basename(f)), any(abs(v) in k for k in known.values())
                            if not any_ or here is not None and abs(v) not in here and (abs(v) >= 20 or abs(v) != int(abs(v))):
                                novel.add(abs(float(v)))
                    if isinstance(v, int) and 0 <= v <= 400:
                        self.ints.add(v)
        self.novel = sorted(novel)
        self.novel_sizes = sorted({k + d for v in self.novel for w in (v, 1 / v) for k in [int(round(w))] if 1 <= k <= 1300 for d in (-1, 0, 1, 2)})
        self.novel_counts = sorted({int(w) for v in self.novel for w in (v, 1 / v) if 100 <= w <= 20000})
        self.nums = sorted(self.nums)
        self.ints = sorted(self.ints)
        self.hints = []

    def num(self, rng, scale=100.0):
        k = rng.random()
        if self.novel and rng.random() < 0.15:
            return rng.choice(self.novel) * rng.choice([1, 1, -1]) * rng.choice([1, 1, 1.001, 0.999, 1.3, 0.8, 2])
        if self.hints and k < 0.1:
            return rng.choice(self.hints)
        if k < 0.15 and self.nums:
            v = rng.choice(self.nums) * rng.choice([1, 1, -1])
            return v + rng.choice([0, 0, 1e-9, -1e-9, 1, -1, 0.5])
        if k < 0.25:
            return float(rng.randint(-5, 5))
        if k < 0.3:
            return rng.randint(-5, 5)
        if k < 0.65:
            return rng.uniform(-1, 1) * scale
        return rng.choice([-1, 1]) * 10 ** rng.uniform(-3, 1) * scale

    def pos(self, rng, lo, hi):
        """Positive number, log-uniform in [lo, hi], sometimes a literal."""
        if self.novel and rng.random() < 0.2:
            v = rng.choice(self.novel) ** rng.choice([1, 1, 1, 0.5, 2]) * rng.choice([1, 1, 1.001, 0.999, 1.3, 0.8, 2])
            if lo <= v <= hi:
                return v
        if self.hints and rng.random() < 0.05:
            v = abs(rng.choice(self.hints))
            if lo <= v <= hi:
                return v
        if self.nums and rng.random() < 0.15:
            v = abs(rng.choice(self.nums)) + rng.choice([0, 0, 1e-9, -1e-9])
            if lo <= v <= hi:
                return v
        if rng.random() < 0.1 and hi >= 1:
            return rng.randint(max(1, int(lo)), max(1, int(min(hi, 50))))
        return 10 ** rng.uniform(math.log10(lo), math.log10(hi))

    def size(self, rng, lo, hi, big=0, most=0):
        """Usually in [lo, hi]; literals up to big, new literals up to most."""
        if self.novel_sizes and rng.random() < 0.25:
            v = rng.choice(self.novel_sizes)
            if lo <= v <= max(hi, big, most):
                return v
        if self.ints and rng.random() < 0.1:
            v = rng.choice(self.ints) + rng.choice([-1, 0, 1])
            if lo <= v <= (max(hi, big, most) if rng.random() < 0.25 else max(hi, big)):
                return v
        return rng.randint(lo, hi)


# ------------------------------------------------------------------ models
def gen_model(rng, L, nmax=5, coef=True):
    utm = rng.random() < 0.3
    cx, cy = (rng.choice([(437600.0, 5006600.0), (1.0e5, 2.0e5)]) if utm else (0.0, 0.0))
    wells = []
    for _ in range(L.size(rng, 0, nmax, 40, 300)):
        if wells and rng.random() < 0.1:
            w = rng.choice(wells)
            wells.append((w[0], w[1], w[2], L.num(rng, 1000.0)))
            continue
        wells.append((cx + L.num(rng, 100.0), cy + L.num(rng, 100.0), L.pos(rng, 0.05, 10), rng.choice([L.num(rng, 1000.0), L.num(rng, 1000.0), 0, rng.randint(-2000, 2000)])))
    if rng.random() < 0.3:
        wells = [list(w) for w in wells]
    c = [L.num(rng, s) for s in (0.01, 0.01, 0.01, 1.0, 1.0, 1000.0)] if coef else [0.0] * 6
    if rng.random() < 0.2:
        c[rng.randrange(6)] = 0.0
    wide = rng.random() < 0.15
    return dict(base=L.num(rng, 50.0), k=L.pos(rng, *((1e-4, 1e4) if wide else (0.01, 200))), por=L.pos(rng, 0.01, 1.0), t=L.pos(rng, *((1e-2, 3e3) if wide else (0.1, 100))), wells=wells,
                xo=cx + L.num(rng, 50.0) if rng.random() < 0.8 else 0, yo=cy + L.num(rng, 50.0) if rng.random() < 0.8 else 0, coef=c, cx=cx, cy=cy)


def gen_point(rng, L, m):
    for _ in range(50):
        k = rng.random()
        ws = m["wells"]
        if ws and k < 0.45:
            w = rng.choice(ws)
            d, th = 10 ** rng.uniform(-2, 2), rng.uniform(0, 6.3)
            if k < 0.1:
                d = w[2] * rng.choice([0.5, 0.999, 1, 1.001, 2])
            x, y = w[0] + d * math.cos(th), w[1] + d * math.sin(th)
            if k < 0.2:
                x = w[0]
            elif k < 0.25:
                y = w[1]
        elif k < 0.5:
            x, y = m["xo"], m["yo"]
        else:
            x, y = m["cx"] + L.num(rng, 100.0), m["cy"] + L.num(rng, 100.0)
        if all((x - w[0]) ** 2 + (y - w[1]) ** 2 > 1e-6 for w in ws):
            return [x, y]
    return [m["cx"] + 1234.5, m["cy"] - 987.6]


def make_model(m, arr=True):
    from oneka.model import Model
    mo = Model(m["base"], m["k"], m["por"], m["t"], m["wells"], m["xo"], m["yo"], np.array([float(c) for c in m["coef"]]))
    return mo


def ref_terms(m, x, y):
    """Terms of the documented discharge potential at (x, y)."""
    dx, dy = x - m["xo"], y - m["yo"]
    A, B, C, D, E, F = m["coef"]
    t = [A * dx * dx, B * dy * dy, C * dx * dy, D * dx, E * dy, F]
    return t, [w[3] / (4 * math.pi) * math.log((x - w[0]) ** 2 + (y - w[1]) ** 2) for w in m["wells"]]


def ref_pot(m, x, y):
    t, w = ref_terms(m, x, y)
    return math.fsum(t + w), sum(map(abs, t + w))


def ref_q(m, x, y):
    dx, dy = x - m["xo"], y - m["yo"]
    A, B, C, D, E, F = m["coef"]
    qx, qy = [-2 * A * dx, -C * dy, -D], [-2 * B * dy, -C * dx, -E]
    for w in m["wells"]:
        ex, ey = x - w[0], y - w[1]
        r2 = ex * ex + ey * ey
        qx.append(-w[3] * ex / r2 / (2 * math.pi))
        qy.append(-w[3] * ey / r2 / (2 * math.pi))
    s = sum(map(abs, qx)) + sum(map(abs, qy))
    return math.fsum(qx), math.fsum(qy), s


def rounding(m, x, y):
    """Relative effect of rounding in coordinate differences (large coordinates, nearby wells)."""
    big = max([abs(x), abs(y), 1.0])
    d = min([math.hypot(x - w[0], y - w[1]) for w in m["wells"]] + [math.hypot(x - m["xo"], y - m["yo"]) + 1.0, 1e9])
    return 1e-9 + 1e-15 * big / max(d, 1e-9) * 10


def snap(mo):
    """Observable state of a model."""
    return dict(base=mo.base, k=mo.conductivity, por=mo.porosity, t=mo.thickness, wells=copy.deepcopy(mo.wells), xo=mo.xo, yo=mo.yo,
                coef=[float(c) for c in np.asarray(mo.coef).ravel()])


def same_state(a, b, msg):
    for key in a:
        need(a[key] == b[key], "%s: %s changed from %r to %r", msg, key, a[key], b[key])


# ------------------------------------------------------------------ containment
@contextlib.contextmanager
def scratch():
    """Run with a fresh scratch directory as working directory."""
    old = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="verif_rt_") as d:
        os.chdir(d)
        try:
            yield d
        finally:
            os.chdir(old)


@contextlib.contextmanager
def patched(pairs):
    """Temporarily replace attributes: [(object, name, value)] (names that do not exist are left alone)."""
    done = []
    try:
        for o, n, v in pairs:
            if o is not None and hasattr(o, n):
                done.append((o, n, o.__dict__[n] if n in getattr(o, "__dict__", {}) else getattr(o, n)))
                setattr(o, n, v)
        yield
    finally:
        for o, n, v in reversed(done):
            setattr(o, n, v)


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.msgs = []

    def emit(self, r):
        try:
            self.msgs.append(r.getMessage())
        except Exception:
            self.msgs.append(str(r.msg))


@contextlib.contextmanager
def logs():
    h = Capture()
    lg = logging.getLogger("Oneka")
    old = lg.level
    lg.setLevel(logging.INFO)
    lg.addHandler(h)
    try:
        yield h.msgs
    finally:
        lg.removeHandler(h)
        lg.setLevel(old)


def ks(sample, cdf):
    """Kolmogorov-Smirnov statistic times sqrt(n)."""
    s = sorted(sample)
    n = len(s)
    d = 0.0
    for i, v in enumerate(s):
        c = cdf(v)
        d = max(d, abs(c - i / n), abs(c - (i + 1) / n))
    return d * math.sqrt(n)


def ucdf(a, b):
    return lambda v: min(1.0, max(0.0, (v - a) / (b - a)))


def tcdf(a, c, b):
    def f(v):
        if v <= a:
            return 0.0
        if v >= b:
            return 1.0
        if v <= c and c > a:
            return (v - a) ** 2 / ((b - a) * (c - a))
        return 1 - (b - v) ** 2 / ((b - a) * (b - c)) if b > c else (v - a) ** 2 / ((b - a) * (c - a))
    return f


def gen_dist(rng, L, lo, hi, kinds="snpt"):
    """A valid specification within [lo, hi] (finite)."""
    k = rng.choice(kinds)
    v = sorted(rng.choice([rng.uniform(lo, hi), rng.uniform(lo, hi), float(rng.randint(int(math.ceil(lo)), int(math.floor(hi)))) if math.floor(hi) >= math.ceil(lo) else rng.uniform(lo, hi)]) for _ in range(3))
    if k == "s":
        return v[0]
    if k == "n":
        return v[0]
    mk = tuple if rng.random() < 0.6 else list
    if rng.random() < 0.15:
        v[1] = v[0]
    if rng.random() < 0.15:
        v[1] = v[2]
    if rng.random() < 0.08:
        v = [v[0]] * 3
    return mk([v[0], v[2]]) if k == "p" else mk(v)


def dmean(d):
    return d if not isinstance(d, (tuple, list)) else math.fsum(d) / len(d)


# ------------------------------------------------------------------ grid oracles
def exact(v):
    """Sums of such numbers are exact in floating point."""
    return abs(v) < 1e9 and float(v * 1024).is_integer()


def d2seg(ax, ay, bx, by, cx, cy):
    ux, uy = bx - ax, by - ay
    L = ux * ux + uy * uy
    s = 0.0 if L == 0 else min(1.0, max(0.0, (ux * (cx - ax) + uy * (cy - ay)) / L))
    px, py = ax + s * ux - cx, ay + s * uy - cy
    return px * px + py * py


def fld_state(f):
    return dict(xmin=f.xmin, xmax=f.xmax, ymin=f.ymin, ymax=f.ymax, dx=f.deltax, dy=f.deltay, nr=f.nrows, nc=f.ncols, W=f.total_weight,
                P=np.array(f.pgrid, dtype=float), G=np.array(f.rgrid).astype(bool))


def drift(lo, hi, n):
    """Rounding of an extent that was moved n times by one spacing."""
    return 2e-16 * max(abs(lo), abs(hi)) * n


def fld_consistent(f, msg="field"):
    s = fld_state(f)
    need(s["P"].shape == (s["nr"], s["nc"]) and s["G"].shape == (s["nr"], s["nc"]), "%s: arrays %s, %s do not have one entry per node (%s, %s)",
         msg, s["P"].shape, s["G"].shape, s["nr"], s["nc"])
    tx, ty = 1e-6 * s["dx"] + drift(s["xmin"], s["xmax"], s["nc"]), 1e-6 * s["dy"] + drift(s["ymin"], s["ymax"], s["nr"])
    close(s["xmax"], s["xmin"] + (s["nc"] - 1) * s["dx"], tx, "%s: xmax does not agree with xmin, deltax, ncols", msg)
    close(s["ymax"], s["ymin"] + (s["nr"] - 1) * s["dy"], ty, "%s: ymax does not agree with ymin, deltay, nrows", msg)
    return s


def moved(a, b, msg):
    """Whole rows/columns by which the field grew from state a to state b: (rshift, cshift)."""
    need(b["dx"] == a["dx"] and b["dy"] == a["dy"], "%s: the node spacing changed", msg)
    c, r = (a["xmin"] - b["xmin"]) / a["dx"], (a["ymin"] - b["ymin"]) / a["dy"]
    cs, rs = int(round(c)), int(round(r))
    need(abs(c - cs) < 1e-6 + drift(b["xmin"], b["xmax"], b["nc"]) / a["dx"] and abs(r - rs) < 1e-6 + drift(b["ymin"], b["ymax"], b["nr"]) / a["dy"] and cs >= 0 and rs >= 0, "%s: old nodes do not keep their world coordinates (shift %r rows, %r columns)", msg, r, c)
    need(rs + a["nr"] <= b["nr"] and cs + a["nc"] <= b["nc"], "%s: old nodes were dropped", msg)
    return rs, cs


def lift(a, b, rs, cs, key, fill):
    z = np.full((b["nr"], b["nc"]), fill)
    z[rs:rs + a["nr"], cs:cs + a["nc"]] = a[key]
    return z


def just(rng, g, segs, u):
    """An umbra about u that just reaches, or just misses, one node."""
    if not segs:
        return u
    s = rng.choice(segs)
    th = rng.uniform(0, 2 * math.pi)
    j, i = round((s[0] + u * math.cos(th) - g["xo"]) / g["dx"]), round((s[1] + u * math.sin(th) - g["yo"]) / g["dy"])
    cx, cy = g["xo"] + j * g["dx"], g["yo"] + i * g["dy"]
    d = math.sqrt(min(d2seg(*t, cx, cy) for t in segs))
    return d * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-6, -2)) if 0.3 * u < d < 3 * u else u


def near_masks(s, segs, u):
    """(surely within the umbra, surely not) of any of the segments."""
    yes = np.zeros((s["nr"], s["nc"]), bool)
    no = np.ones((s["nr"], s["nc"]), bool)
    X = s["xmin"] + np.arange(s["nc"]) * s["dx"]
    Y = s["ymin"] + np.arange(s["nr"]) * s["dy"]
    CX, CY = np.meshgrid(X, Y)
    for ax, ay, bx, by in segs:
        ux, uy = bx - ax, by - ay
        Lq = ux * ux + uy * uy
        t = np.zeros_like(CX) if Lq == 0 else np.clip((ux * (CX - ax) + uy * (CY - ay)) / Lq, 0, 1)
        d2 = (ax + t * ux - CX) ** 2 + (ay + t * uy - CY) ** 2
        big = max(abs(ax), abs(ay), abs(bx), abs(by), abs(s["xmin"]), abs(s["ymin"]), abs(s["xmax"]), abs(s["ymax"]))
        slack = 1e-9 * u * u + 1e-13 * (Lq + (CX - ax) ** 2 + (CY - ay) ** 2) * 10 + 1e-14 * big * (u + 1) * 10
        yes |= d2 < u * u - slack
        no &= d2 > u * u + slack
    return yes, no


def gen_field(rng, L, conc=True):
    """A field reached by its own methods, with distinct contents."""
    dx = L.pos(rng, 0.5, 20)
    dy = dx if rng.random() < 0.3 else L.pos(rng, 0.5, 20)
    xo, yo = (L.num(rng, 100.0), L.num(rng, 100.0)) if rng.random() < 0.8 else (437600.25, 5006600.75)
    if rng.random() < 0.25:
        # exact in floating point
        dx, dy, xo, yo = rng.choice([0.5, 1, 2.0, 2.5, 10, 0.25]), rng.choice([0.5, 1, 2.0, 2.5, 10, 0.25]), float(rng.randint(-100, 100)), rng.randint(-100, 100)
    W = L.size(rng, 0, 20, 40, 1300)
    nr, nc = [L.size(rng, 3, 14, 40, 300 if W <= 40 else 14) for _ in range(2)]
    if max(nr, nc) <= 14 and W <= 20 and L.novel_sizes and rng.random() < 0.3:
        nr = min(1300, int(L.size(rng, 3, 14, 40, 1300) * rng.choice([1, 1.5, 2.5])))       # a long and narrow field
        if rng.random() < 0.5:
            nr, nc = nc, nr
    return dict(dx=dx, dy=dy, xo=xo, yo=yo, nr=nr, nc=nc, off=[rng.randint(0, 5), rng.randint(0, 5)], seed=rng.randrange(10 ** 6), W=W,
                dens=rng.choice([0, 0.1, 0.5, 1]), w=rng.choice([1.0, 1.0, 0.1, 1 / 3, L.pos(rng, 1e-5, 1e5)]), blank=rng.random() < 0.06, last=rng.choice([1, 1, 1, 1, 1e-4, 1e-9]))


def make_field(g):
    from oneka.probabilityfield import ProbabilityField
    f = ProbabilityField(g["dx"], g["dy"], g["xo"], g["yo"])
    r = np.random.RandomState(g["seed"])
    x0, y0 = g["xo"] - g["off"][1] * g["dx"], g["yo"] - g["off"][0] * g["dy"]
    f.expand(x0, x0 + (g["nc"] - 3) * g["dx"], y0, y0 + (g["nr"] - 3) * g["dy"])
    q = None
    for n in range(g["W"]):
        if q is None:
            q = r.choice([0.5, 0.5, 0.1, 0.9, 0.7 / g["W"]], size=f.rgrid.shape)
        f.rgrid[:] = False if g.get("blank") else r.rand(*f.rgrid.shape) < q
        f.register(g.get("w", 1.0) * (g.get("last", 1) if n == g["W"] - 1 and n > 0 else 1))
    f.rgrid[:] = r.rand(*f.rgrid.shape) < g["dens"]
    return f
