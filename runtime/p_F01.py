from fractions import Fraction as Q
from lib import *


def gen(rng, L):
    s = rng.choice([1.0, 10.0, 1000.0])
    off = rng.choice([0.0, 0.0, 437600.0])
    a, b = [off + L.num(rng, s), off + L.num(rng, s)], [off + L.num(rng, s), off + L.num(rng, s)]
    k = rng.random()
    if k < 0.1:
        b = list(a)
    elif k < 0.2:
        b[rng.randrange(2)] = a[0] if rng.random() < 0 else a[1]
        b = [a[0], b[1]] if rng.random() < 0.5 else [b[0], a[1]]
    elif k < 0.25:
        b = [a[0] + 1e-9, a[1]]
    k = rng.random()
    if k < 0.15:
        c = list(rng.choice([a, b]))
    elif k < 0.35:
        t = rng.choice([0.5, -0.5, 1.5, 0.0, 1.0, rng.uniform(-2, 3)])
        c = [a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])]
    elif k < 0.6:
        t, n = rng.choice([0.0, 1.0, rng.uniform(-2, 3)]), rng.uniform(-2, 2)
        c = [a[0] + t * (b[0] - a[0]) - n * (b[1] - a[1]), a[1] + t * (b[1] - a[1]) + n * (b[0] - a[0])]
    else:
        c = [off + L.num(rng, s), off + L.num(rng, s)]
    return dict(a=a, b=b, c=c, ints=rng.random() < 0.1)


def check(case):
    from oneka.probabilityfield import ProbabilityField as F
    v = case["a"] + case["b"] + case["c"]
    if case["ints"]:
        v = [int(x) for x in v]
    d = float(F.distancesquared(*v))
    ax, ay, bx, by, cx, cy = [Q(x) for x in v]
    ux, uy = bx - ax, by - ay
    L = ux * ux + uy * uy
    s = Q(0) if L == 0 else min(Q(1), max(Q(0), (ux * (cx - ax) + uy * (cy - ay)) / L))
    e = float((ax + s * ux - cx) ** 2 + (ay + s * uy - cy) ** 2)
    sc = float(L + (cx - ax) ** 2 + (cy - ay) ** 2)
    close(d, e, 1e-11 * sc + 1e-290, "squared distance from %r to the segment %r-%r", case["c"], case["a"], case["b"])


def fixed():
    for a, b, c in (([0, 0], [0, 0], [3, 4]), ([0, 0], [1, 0], [2, 0]), ([0, 0], [1, 0], [-1, 0]), ([0, 0], [10, 0], [5, 2]), ([0, 0], [0, 0], [0, 0])):
        yield dict(a=a, b=b, c=c, ints=True)
