from lib import *
import p_M04
from p_M05 import states


def gen(rng, L):
    return p_M04.gen(rng, L)


def check(c):
    import oneka.model as om
    for mo, m, x, y, P in states(c):
        before = snap(mo)
        qx, qy = [float(v) for v in mo.compute_discharge(x, y)]
        s = ref_q(m, x, y)[2]
        d = m["por"] * m["t"]
        tol = 1e-9 * s / d + 1e-300
        try:
            v = mo.compute_velocity_confined(x, y)
        except Exception as e:
            fail("the confined shortcut refuses (%r), potential %r", e, P)
        same_state(before, snap(mo), "computing a confined velocity")
        close(float(v[0]), qx / d, tol, "confined Vx at potential %r", P)
        close(float(v[1]), qy / d, tol, "confined Vy at potential %r", P)
        if P > 0 and float(mo.compute_head(x, y)) >= m["t"]:
            f = mo.compute_velocity(x, y)
            close(float(v[0]), float(f[0]), tol, "confined and full Vx where the aquifer is confined")
            close(float(v[1]), float(f[1]), tol, "confined and full Vy where the aquifer is confined")
