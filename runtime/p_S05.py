from lib import *
import runs
CASE_CPU = 120


def gen(rng, L):
    traced = rng.random() < 0.2
    if rng.random() < 0.05:
        return dict(kind="refused", s=runs.low(rng, runs.gen_setting(rng, L)))
    s = runs.gen_setting(rng, L, steep=not traced)
    if traced:
        s["npaths"] = rng.randint(1, 3)
        s["duration"] = rng.choice([1, 5.0, -3.0])
        return dict(kind="traced", s=s)
    return dict(kind="quick", s=s)


def check(c):
    import oneka.deterministic as de
    s = copy.deepcopy(c["s"])

    def no(*a, **k):
        fail("a random number generator is used")
    np.random.seed(5)
    state = np.random.get_state()
    with patched([(np.random, "default_rng", no)]):
        with runs.recording(c["kind"] != "traced") as (models, shots):
            try:
                pf = de.create_deterministic_capturezone(**runs.args_of(s, True))
            except Exception:
                if c["kind"] != "refused":
                    raise
                return
    need(c["kind"] != "refused", "a capture zone is computed although the model cannot be fitted to all observations: one of them is not above the base")
    z = np.random.get_state()
    need(state[2:] == z[2:] and bool(np.all(state[1] == z[1])), "a random number is drawn")
    need(repr(s) == repr(c["s"]), "the caller's inputs were changed")
    need(len(shots) == 1, "%d capture zones were computed", len(shots))
    need(abs(pf.total_weight - 1) < 1e-12, "the total weight is %r", pf.total_weight)
    need(pf.deltax == s["spacing"] and pf.deltay == s["spacing"], "the spacing of the field is (%r, %r), not %r", pf.deltax, pf.deltay, s["spacing"])
    xt, yt = s["stochastic_wells"][s["target"]][0:2]
    if c["kind"] == "traced":
        q = fld_consistent(pf)
        for a, o, d in ((xt, q["xmin"], q["dx"]), (yt, q["ymin"], q["dy"])):
            r = (a - o) / d
            need(abs(r - round(r)) < 1e-6 * max(1.0, abs(r)), "the target is not a node of the field")
    sh = shots[0]
    need(sh.kw["pfield"] is pf, "the capture zone is registered in another field")
    runs.check_shot(sh, s, 0)
    m = sh.m
    for a, b in zip(m["wells"], s["stochastic_wells"]):
        close(a[3], dmean(b[3]), 1e-12 * 2000, "the discharge of well %r with distribution %r", b[0:2], b[3])
    for k, d in (("k", "c_dist"), ("por", "p_dist"), ("t", "t_dist")):
        close(m[k], dmean(s[d]), 1e-12 * (1 + abs(dmean(s[d]))), "the model's property for %s = %r", d, s[d])
    ev, cov = runs.refit(m, s)
    for i in range(6):
        close(m["coef"][i], ev[i], 1e-9 * abs(ev[i]) + 1e-6 * math.sqrt(abs(cov[i, i])), "coefficient %s", "ABCDEF"[i])
    runs.check_velocity(sh, s["confined"])
