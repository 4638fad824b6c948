from lib import *
import runs
CASE_CPU = 120


def gen(rng, L):
    det = rng.random() < 0.25
    s = runs.gen_setting(rng, L, nreal=rng.choice([1, 2, 3, L.size(rng, 2, 8, 20, 300)]))
    n = s["nrealizations"]
    s["npaths"] = rng.choice([1, 2, 3, rng.randint(1, 12)]) if n < 20 else 1
    s["spacing"], s["umbra"], s["maxstep"] = L.pos(rng, 2, 20), L.pos(rng, 2, 20), L.pos(rng, 2, 20)
    if rng.random() < 0.1 and n <= 3:
        # many nodes
        s["umbra"] = rng.uniform(30, 50) * s["spacing"]
        s["npaths"] = rng.choice([1, 2])
    wide = rng.random() < 0.1 and n <= 3
    vmax = rng.choice([0.5, 3.0, 20.0])
    far = rng.choice([0.5, 3, 10, 30 if n < 20 else 5]) * s["spacing"]
    if wide:
        # a large field
        s["npaths"], s["umbra"], s["maxstep"] = rng.choice([1, 2]), s["spacing"] * rng.uniform(0.7, 2), s["spacing"] * 20
        far = rng.uniform(100, 400) * s["spacing"]
    s["duration"] = min(far / vmax, 100.0) * rng.choice([1, 1, -1])
    r = s["stochastic_wells"][s["target"]][2]
    return dict(kind="deterministic" if det else "stochastic", s=s, v=vmax, bend=rng.choice([0.0, 0.01, 0.05]), seed=rng.randrange(10 ** 6),
                wall=rng.choice([None, None, rng.uniform(-1, 1), -2.0]), twist=rng.random() < 0.5)


def velocity(c, xt, yt, r):
    """A bounded velocity that differs from one realization to the other."""
    import oneka.model as om

    def v(self, x, y):
        a = math.fmod(float(self.conductivity) * 37.0 + float(self.thickness) * 11.0, 6.28)
        dx, dy = x - xt, y - yt
        if c["wall"] is not None and math.cos(a + 1) * dx + math.sin(a + 1) * dy > c["wall"] * (r + 1):
            raise om.AquiferError("dry")
        b = a + c["bend"] * (dx + 0.5 * dy) + (math.atan2(dy, dx) if c["twist"] and (dx or dy) else 0.0)
        return (c["v"] * math.cos(b), c["v"] * math.sin(b))
    return v


def check(c):
    import oneka.model as om
    import oneka.stochastic as st
    import oneka.deterministic as de
    import oneka.capturezone as oc
    s = copy.deepcopy(c["s"])
    np.random.seed(c["seed"])
    xt, yt, rt = s["stochastic_wells"][s["target"]][0:3]
    zones = []

    def after(sh):
        f = sh.kw["feval"]
        segs = []
        for p in range(s["npaths"]):
            th = 2 * math.pi * p / s["npaths"]
            q = oc.compute_backtrace(xt + (rt + 1.0) * math.cos(th), yt + (rt + 1.0) * math.sin(th), s["duration"], s["tol"], s["maxstep"], f)
            q = [(float(t[0]), float(t[1])) for t in q]
            segs += [q[i] + q[i + 1] for i in range(len(q) - 1)]
        zones.append(segs)
    vel = velocity(c, xt, yt, rt)
    with patched([(om.Model, "compute_velocity", vel), (om.Model, "compute_velocity_confined", vel)]):
        with runs.recording(False, after=after) as (models, shots):
            if c["kind"] == "deterministic":
                pf = de.create_deterministic_capturezone(**runs.args_of(s, True))
            else:
                pf = st.create_stochastic_capturezone(**runs.args_of(s))
    n = 1 if c["kind"] == "deterministic" else s["nrealizations"]
    need(len(zones) == n, "%d capture zones were computed for %d realizations", len(zones), n)
    need(abs(pf.total_weight - n) < 1e-9 * n, "the total weight is %r after %d realizations", pf.total_weight, n)
    z = fld_consistent(pf)
    least, most = np.zeros((z["nr"], z["nc"])), np.zeros((z["nr"], z["nc"]))
    for segs in zones:
        # the starting points are recomputed here: leave a little room
        yes = near_masks(z, segs, s["umbra"] * (1 - 1e-6))[0]
        no = near_masks(z, segs, s["umbra"] * (1 + 1e-6))[1]
        least += yes
        most += ~no
        for q in segs:
            for x, y in (q[:2], q[2:]):
                need(z["xmin"] < x - s["umbra"] + 1e-7 and z["xmax"] > x + s["umbra"] - 1e-7 and z["ymin"] < y - s["umbra"] + 1e-7 and z["ymax"] > y + s["umbra"] - 1e-7,
                     "the field does not reach beyond the umbra of the traces")
    P = z["P"]
    bad = np.argwhere((P < least - 1e-9) | (P > most + 1e-9))
    if len(bad):
        i, j = bad[0]
        fail("node (%d, %d) at (%r, %r) has weight %r, between %d and %d of the %d realizations capture it", i, j, z["xmin"] + j * z["dx"], z["ymin"] + i * z["dy"],
             float(P[i, j]), int(least[i, j]), int(most[i, j]), n)
