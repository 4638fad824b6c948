from lib import *
import p_M04


def gen(rng, L):
    return p_M04.gen(rng, L)


def states(c):
    """(model, its description, x, y, potential) over the flow regimes."""
    m = copy.deepcopy(c["m"])
    x, y = c["p"]
    mo = make_model(m)
    base = float(mo.compute_potential(x, y))
    ph = [(w, False) for w in c["ph"]]
    if c.get("new"):
        crit = c["new"]["k"] * c["new"]["t"] ** 2 / 2
        ph += [(crit * f, True) for f in (0.01, 0.5, 0.99, 1.01, 3)]
    for want, new in ph:
        if new:
            p_M04.alter(mo, m, c["new"])
        co = [float(v) for v in c["m"]["coef"]]
        co[5] += want - base
        mo.coef = np.array(co)
        m["coef"] = co
        yield mo, m, x, y, float(mo.compute_potential(x, y))


def check(c):
    import oneka.model as om
    for mo, m, x, y, P in states(c):
        before = snap(mo)
        qx, qy = [float(v) for v in mo.compute_discharge(x, y)]
        s = ref_q(m, x, y)[2]
        try:
            v = mo.compute_velocity(x, y)
        except om.AquiferError:
            need(P <= 0, "a velocity is refused although the potential is %r", P)
            continue
        same_state(before, snap(mo), "computing a velocity")
        need(P > 0, "a velocity is returned although the aquifer is dry (potential %r)", P)
        h = float(mo.compute_head(x, y))
        d = m["por"] * min(h, m["t"])
        tol = 1e-9 * s / d + 1e-300
        close(float(v[0]), qx / d, tol, "Vx (head %r, thickness %r, porosity %r)", h, m["t"], m["por"])
        close(float(v[1]), qy / d, tol, "Vy (head %r, thickness %r, porosity %r)", h, m["t"], m["por"])
