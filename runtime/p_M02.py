from lib import *
from p_M01 import gen as gen1


def gen(rng, L):
    return gen1(rng, L)


def look(mo, m, p, msg):
    x, y = p
    before = snap(mo)
    qx, qy, s = ref_q(m, x, y)
    tol = (s + 1e-15) * rounding(m, x, y)
    q = mo.compute_discharge(x, y)
    need(len(q) == 2, "%s: two components expected", msg)
    close(float(q[0]), qx, tol, "%s: Qx at (%r, %r)", msg, x, y)
    close(float(q[1]), qy, tol, "%s: Qy at (%r, %r)", msg, x, y)
    same_state(before, snap(mo), "computing a discharge")


def check(c):
    m = copy.deepcopy(c["m"])
    mo = make_model(m)
    for p in c["pts"]:
        look(mo, m, p, "new model")
    m["coef"] = c["coef2"]
    mo.coef = np.array([float(v) for v in c["coef2"]])
    look(mo, m, c["pts"][0], "after new coefficients")
    m["xo"] += c["move"][0]
    m["yo"] += c["move"][1]
    mo.xo, mo.yo = m["xo"], m["yo"]
    look(mo, m, c["pts"][0], "after a new origin")
    if c["swap"] and m["wells"]:
        w = list(m["wells"][0])
        w[3] = w[3] * 2 + 7
        m["wells"] = [tuple(w)] + list(m["wells"][1:])
        mo.wells = m["wells"]
        look(mo, m, c["pts"][1], "after a new discharge")
