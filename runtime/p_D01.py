from lib import *
import entry


def gen(rng, L):
    s = entry.gen_args(rng, L)
    if rng.random() < 0.15:
        # too few left after the buffer
        w = rng.choice(s["stochastic_wells"])
        keep = rng.randint(5, 7)
        far = [o for o in s["observations"] if all(math.hypot(o[0] - v[0], o[1] - v[1]) > s["buffer"] for v in s["stochastic_wells"])]
        s["observations"] = far[:keep] + [type(far[0])((w[0] + 0.1 * s["buffer"], w[1] + 0.2 * s["buffer"], 30.0, 1.0)) for _ in range(3)] if far else s["observations"]
        return dict(kind="few", s=s, drop=[])
    drop = [k for k in entry.OPTIONAL if rng.random() < 0.15]
    return dict(kind="stochastic" if s["nrealizations"] > 1 else "deterministic", s=s, drop=drop, kw=rng.random() < 0.5)


def same(a, b, what):
    need(type(a) is type(b) or isinstance(a, (int, float)) and isinstance(b, (int, float)), "%s: %r instead of %r", what, a, b)
    need(a == b, "%s: %r instead of %r", what, a, b)


def check(c):
    import oneka.oneka as oo
    import oneka.archive as ar
    from oneka.utilities import filter_obs
    s = copy.deepcopy(c["s"])
    full = dict(s)
    for k in c["drop"]:
        full[k] = entry.DEFAULTS[k]
    want = filter_obs(copy.deepcopy(full["observations"]), copy.deepcopy(full["stochastic_wells"]), full["buffer"])
    with scratch() as d, entry.recording() as rec:
        try:
            if c.get("kw"):
                r = oo.oneka(**{k: s[k] for k in entry.ORDER if k not in c["drop"]})
            else:
                n = len(entry.ORDER) if not c["drop"] else entry.ORDER.index(min(c["drop"], key=entry.ORDER.index))
                r = oo.oneka(*[s[k] for k in entry.ORDER[:n]], **{k: s[k] for k in entry.ORDER[n:] if k not in c["drop"]})
        except Exception as e:
            if len(want) <= 6:
                need(not rec.calls, "with %d retained observations the run goes on to %s", len(want), rec.calls[0][0] if rec.calls else "")
                return
            raise
        need(len(want) > 6, "the run goes on with %d retained observations", len(want))
        got = [ar.load_oneka(f) for f in entry.files(d)]
    need(repr(s) == repr(c["s"]), "the caller's inputs were changed")
    sto, det = rec.of("create_stochastic_capturezone"), rec.of("create_deterministic_capturezone")
    many = full["nrealizations"] > 1
    need((len(sto), len(det)) == ((1, 0) if many else (0, 1)), "for %d realizations the stochastic analysis ran %d times and the deterministic one %d times", full["nrealizations"], len(sto), len(det))
    kw = (sto + det)[0]
    for k, v in kw.items():
        same(v, want if k == "observations" else full[k], "the analysis gets %s" % k)
    field = rec.field
    need(r is field or r is not None and fld_same(r, field), "the entry point returns %r, not the field", r)
    for n in ("create_probability_plot", "create_deterministic_plot"):
        for kw in rec.of(n):
            need(n == ("create_probability_plot" if many else "create_deterministic_plot"), "%s is called for %d realizations", n, full["nrealizations"])
            same(kw["target"], full["target"], "the plot gets target")
            same(kw["stochastic_wells"], full["stochastic_wells"], "the plot gets the wells")
            same(kw["obs"], want, "the plot gets the observations")
            need(kw["pf"] is field, "the plot gets another field")
            if many:
                same(kw["smooth"], full["smooth"], "the plot gets smooth")
    need(len(rec.of("create_probability_plot" if many else "create_deterministic_plot")) == 1, "the capture zone is plotted %d times", len(rec.of("create_probability_plot" if many else "create_deterministic_plot")))
    for kw in rec.of("create_impact_plot"):
        same(kw["spacing"], full["spacing"], "the impact plot gets spacing")
        need(kw["pf"] is field, "the impact plot gets another field")
    need(len(got) == 1, "%d archives were written", len(got))
    for k in entry.ORDER:
        need(k in got[0], "the archive lacks %s", k)
        same(got[0][k], full[k], "the archive holds %s" % k)
    need(fld_same(got[0]["pfield"], field), "the archive holds another field")


def fld_same(a, b):
    try:
        a, b = fld_state(a), fld_state(b)
    except AttributeError:
        return False
    return all(np.array_equal(a[k], b[k]) for k in a)
