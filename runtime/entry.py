"""Calling the entry point with its analyses, plots and archive replaced by recorders."""
import inspect
from lib import *
import runs

ORDER = ("projectname", "runtime", "target", "npaths", "duration", "nrealizations", "base", "c_dist", "p_dist", "t_dist", "stochastic_wells", "observations",
         "buffer", "spacing", "umbra", "smooth", "confined", "tol", "maxstep")
OPTIONAL = ("buffer", "spacing", "umbra", "smooth", "confined", "tol", "maxstep")
DEFAULTS = dict(buffer=100, spacing=10, umbra=10, smooth=0, confined=True, tol=1, maxstep=10)


def gen_args(rng, L):
    s = runs.gen_setting(rng, L, nreal=rng.choice([1, 1, 2, 3, 50, 1000]))
    num = lambda lo, hi: rng.choice([L.pos(rng, lo, hi), rng.randint(1, 60)])
    s["projectname"] = rng.choice(["Test", "", "a b"])
    s["runtime"] = rng.choice(["now", "Thu Nov 19"])
    s["smooth"] = rng.choice([0, 0.0, 1, num(0.1, 5)])
    s["buffer"], s["spacing"], s["umbra"] = num(1, 100), num(0.5, 50), num(0.5, 50)
    s["tol"], s["maxstep"] = num(0.01, 5), num(0.5, 50)
    s["duration"] = rng.choice([1, -1, 3652.5, num(1, 5000), -num(1, 5000)])
    s["npaths"] = rng.choice([1, 2, rng.randint(1, 300)])
    # all the scalar settings differ, so that an exchange is seen
    x, y = s["stochastic_wells"][s["target"]][0:2]
    n = rng.choice([7, 8, 9, L.size(rng, 7, 30, 60, 300)])
    obs = []
    while len(obs) < n:
        p = (x + rng.uniform(-3000, 3000), y + rng.uniform(-3000, 3000))
        obs.append((p[0], p[1], s["base"] + 30 + rng.uniform(-3, 3), rng.uniform(0.2, 2)))
        if rng.random() < 0.15:
            obs.append((p[0] + rng.uniform(-0.5, 0.5), p[1] + rng.uniform(-0.5, 0.5), s["base"] + 30, rng.choice([1, 0.5])))
        if rng.random() < 0.15:
            w = rng.choice(s["stochastic_wells"])
            obs.append((w[0] + s["buffer"] * rng.uniform(0, 0.6), w[1] + s["buffer"] * rng.uniform(-0.6, 0), s["base"] + 30, 1))
    if rng.random() < 0.2:
        obs = [list(o) for o in obs]
    s["observations"] = obs
    return s


class Record:
    def __init__(self):
        self.calls = []

    def of(self, name):
        return [a for n, a in self.calls if n == name]


@contextlib.contextmanager
def recording(curve=None, area=123.0):
    import oneka.oneka as oo
    import oneka.stochastic as st
    import oneka.deterministic as de
    import oneka.visualize as vi
    import oneka.archive as ar
    import matplotlib.pyplot as plt
    from oneka.probabilityfield import ProbabilityField
    rec = Record()

    def field(kw):
        f = ProbabilityField(3.0, 3.0, 1.0, 2.0)
        f.rasterize([0.0, 20.0, 25.0], [0.0, 3.0, 10.0], 4.0)
        f.register(0.25)
        f.rasterize([0.0, 30.0], [0.0, -9.0], 4.0)
        f.register(0.5)
        rec.field = f
        return f

    def impact(kw):
        if curve is not None:
            return curve
        pr = np.flip(np.sort(kw["pf"].pgrid / kw["pf"].total_weight, axis=None))
        return pr, (np.arange(pr.shape[0]) + 1) * 9.0
    out = []
    for mod, name, result in ((st, "create_stochastic_capturezone", field), (de, "create_deterministic_capturezone", field), (vi, "create_probability_plot", lambda kw: None),
                              (vi, "create_deterministic_plot", lambda kw: area), (vi, "create_impact_plot", impact), (ar, "dump_oneka", None)):
        real = getattr(mod, name)
        sig = inspect.signature(real)

        def stand_in(*a, _n=name, _s=sig, _r=result, _f=real, **k):
            b = _s.bind(*a, **k)
            b.apply_defaults()
            rec.calls.append((_n, dict(b.arguments)))
            return _r(b.arguments) if _r is not None else _f(*a, **k)
        out += [(mod, name, stand_in), (oo, name, stand_in)]
    out.append((plt, "show", lambda *a, **k: None))
    with patched(out):
        yield rec


def files(d):
    return [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs]
