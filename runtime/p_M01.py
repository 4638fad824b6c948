from lib import *


def gen(rng, L):
    m = gen_model(rng, L)
    return dict(m=m, pts=[gen_point(rng, L, m) for _ in range(4)], coef2=[L.num(rng, 1.0) for _ in range(6)], move=[L.num(rng, 20.0), L.num(rng, 20.0)], swap=rng.random() < 0.5)


def look(mo, m, p, msg):
    x, y = p
    before = snap(mo)
    v, s = ref_pot(m, x, y)
    tol = (s + 1e-12) * rounding(m, x, y)
    close(float(mo.compute_potential(x, y)), v, tol, "%s: potential at (%r, %r)", msg, x, y)
    _, w = ref_terms(m, x, y)
    close(float(mo.compute_potential_wells_only(x, y)), math.fsum(w), (sum(map(abs, w)) + 1e-12) * rounding(m, x, y), "%s: wells-only potential at (%r, %r)", msg, x, y)
    same_state(before, snap(mo), "computing a potential")


def check(c):
    m = copy.deepcopy(c["m"])
    mo = make_model(m)
    for p in c["pts"]:
        look(mo, m, p, "new model")
    m["coef"] = c["coef2"]
    mo.coef = np.array([float(v) for v in c["coef2"]])
    look(mo, m, c["pts"][0], "after new coefficients")
    m["xo"] += c["move"][0]
    m["yo"] += c["move"][1]
    mo.xo, mo.yo = m["xo"], m["yo"]
    look(mo, m, c["pts"][0], "after a new origin")
    if c["swap"] and m["wells"]:
        w = list(m["wells"][0])
        w[3] = w[3] * 2 + 7
        m["wells"] = [tuple(w)] + list(m["wells"][1:])
        mo.wells = m["wells"]
        look(mo, m, c["pts"][1], "after a new discharge")


def fixed():
    yield dict(m=dict(base=0, k=1, por=.2, t=10, wells=[], xo=0, yo=0, coef=[1, 2, 3, 4, 5, 6], cx=0, cy=0), pts=[[1, 2], [0, 0], [-3, 4.5]], coef2=[0, 0, 0, 0, 0, 1], move=[1, 2], swap=False)
