import re
from lib import *
import runs


def gen(rng, L):
    if rng.random() < 0.25:
        return dict(kind="log", s=runs.gen_setting(rng, L, steep=rng.random() < 0.5), det=rng.random() < 0.5)
    m = gen_model(rng, L, coef=True)
    return dict(kind="field", m=m, pts=[gen_point(rng, L, m) for _ in range(4)])


FLOAT = re.compile(r"[-+]?(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?")


def check_log(c):
    import oneka.stochastic as st
    import oneka.deterministic as de
    s = copy.deepcopy(c["s"])
    with runs.recording() as (models, shots), logs() as out:
        if c["det"]:
            de.create_deterministic_capturezone(**runs.args_of(s, True))
        else:
            st.create_stochastic_capturezone(**runs.args_of(s))
    want = [-2 * (sh.m["coef"][0] + sh.m["coef"][1]) for sh in shots]
    got = []
    for msg in out:
        low = msg.lower()
        if c["det"] and "recharge" in low or not c["det"] and "realization #" in low:
            f = FLOAT.findall(msg)
            if f:
                got.append(float(f[-1]))
    need(len(got) == len(want), "%d reports of the recharge for %d models", len(got), len(want))
    for g, w in zip(got, want):
        close(g, w, 2e-4 * abs(w) + 1e-300, "logged recharge")


def check(c):
    if c["kind"] == "log":
        return check_log(c)
    m = copy.deepcopy(c["m"])
    mo = make_model(m)
    A, B, C = m["coef"][:3]
    for x, y in c["pts"]:
        d = min([math.hypot(x - w[0], y - w[1]) for w in m["wells"]] + [100.0])
        if d < 0.05:
            continue
        h = 2e-3 * d
        q = lambda a, b: [float(v) for v in mo.compute_discharge(a, b)]
        xp, xm, yp, ym = x + h, x - h, y + h, y - h
        qxp, qxm, qyp, qym = q(xp, y), q(xm, y), q(x, yp), q(x, ym)
        div = (qxp[0] - qxm[0]) / (xp - xm) + (qyp[1] - qym[1]) / (yp - ym)
        curl = (qxp[1] - qxm[1]) / (xp - xm) - (qyp[0] - qym[0]) / (yp - ym)
        big = max(abs(x), abs(y), 1.0)
        sc = sum(abs(w[3]) / ((x - w[0]) ** 2 + (y - w[1]) ** 2) for w in m["wells"]) + 2 * (abs(A) + abs(B) + abs(C))
        tol = 1e-4 * sc + 1e-13 * ref_q(m, x, y)[2] / h + 1e-14 * big / h * sc + 1e-300
        close(div, -2 * (A + B), tol, "divergence at (%r, %r)", x, y)
        close(curl, 0.0, tol, "curl at (%r, %r)", x, y)
