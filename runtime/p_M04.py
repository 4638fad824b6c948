from lib import *


def gen(rng, L):
    m = gen_model(rng, L)
    crit = 0.5 * m["k"] * m["t"] ** 2
    ph = []
    for _ in range(6):
        ph.append(rng.choice([0.0, -abs(L.num(rng, 100.0)), crit, crit * (1 + 1e-12), crit * (1 - 1e-12), crit * rng.uniform(0, 1), crit * rng.uniform(0.98, 1.02),
                              crit * rng.uniform(1, 5), 10 ** rng.uniform(-6, 6), crit * 1e-6, crit * rng.choice([0.25, 0.5, 2, 4])]))
    new = dict(k=L.pos(rng, 0.01, 200), t=L.pos(rng, 0.1, 100), por=L.pos(rng, 0.01, 1.0)) if rng.random() < 0.2 else None
    return dict(m=m, p=gen_point(rng, L, m), ph=ph, new=new)


def alter(mo, m, new):
    """The aquifer properties are attributes that a user may assign to."""
    m.update(new)
    mo.conductivity, mo.thickness, mo.porosity = new["k"], new["t"], new["por"]


def check(c):
    import oneka.model as om
    m = copy.deepcopy(c["m"])
    x, y = c["p"]
    mo = make_model(m)
    base = float(mo.compute_potential(x, y))
    scan(mo, m, x, y, base, c["ph"])
    if c.get("new"):
        alter(mo, m, c["new"])
        crit = m["k"] * m["t"] ** 2 / 2
        scan(mo, m, x, y, base, c["ph"][:3] + [crit * f for f in (1e-3, 0.3, 0.9, 1, 1.1, 4)])


def scan(mo, m, x, y, base, ph):
    import oneka.model as om
    k, t = m["k"], m["t"]
    seen = []
    for want in ph:
        co = [float(v) for v in m["coef"]]
        co[5] += want - base
        mo.coef = np.array(co)
        P = float(mo.compute_potential(x, y))
        before = snap(mo)
        try:
            h = float(mo.compute_head(x, y))
        except om.AquiferError:
            need(P <= 0, "a positive potential %r is refused as dry", P)
            continue
        same_state(before, snap(mo), "computing a head")
        need(P > 0, "the potential %r is not refused as dry, head %r is reported", P, h)
        need(h > 0, "head %r is not positive for the potential %r", h, P)
        crit = k * t * t / 2
        e = math.sqrt(2 * P / k) if P <= crit else (P + crit) / (k * t)
        close(h, e, 1e-9 * abs(e), "head for potential %r (k=%r, t=%r)", P, k, t)
        seen.append((P, h))
    seen.sort()
    for (p0, h0), (p1, h1) in zip(seen, seen[1:]):
        if p1 > p0 * (1 + 1e-9):
            need(h1 > h0, "the head does not increase with the potential: %r -> %r, %r -> %r", p0, h0, p1, h1)
        need(h1 - h0 <= max((p1 - p0) / (k * min(h0, t)) * (1 + 1e-6), 0) + 1e-9 * h1, "the head jumps: %r -> %r, %r -> %r", p0, h0, p1, h1)
