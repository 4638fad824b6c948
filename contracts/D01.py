"""The entry point, on arguments that are accepted (which ones are: D02)."""
from .base import *
from .analysis import spec
from .D02 import IsDist
from engine.core import Infeasible
from engine.loops import same_val

MOD = "oneka.oneka"
OPT = ("buffer", "spacing", "umbra", "smooth", "confined", "tol", "maxstep")
DEFAULTS = dict(buffer=100, spacing=10, umbra=10, smooth=0, confined=True, tol=1, maxstep=10)
ARGS = ("projectname", "runtime", "target", "npaths", "duration", "nrealizations", "base", "c_dist", "p_dist", "t_dist", "stochastic_wells",
        "observations", "buffer", "spacing", "umbra", "smooth", "confined", "tol", "maxstep")
CALLS = {"oneka.utilities.filter_obs": dict(observations="observations", wellfield="stochastic_wells", buffer="buffer"),
         "oneka.stochastic.create_stochastic_capturezone": dict(observations="retained"),
         "oneka.deterministic.create_deterministic_capturezone": dict(observations="retained"),
         "oneka.visualize.create_probability_plot": dict(obs="retained", pf="field"),
         "oneka.visualize.create_deterministic_plot": dict(obs="retained", pf="field"),
         "oneka.visualize.create_impact_plot": dict(pf="field"),
         "oneka.archive.dump_oneka": dict(pfield="field")}


def same(eng, x, y):
    """x is the value y (a list may be a copy of it)."""
    if same_val(x, y):
        return True
    if is_num(x) and is_num(y) or is_bool(x) and is_bool(y):
        return eq(x, y)
    if isinstance(x, Ref) and isinstance(y, Ref):
        return same_obj(eng, eng.obj(x), eng.obj(y))
    if isinstance(x, (Opaque, FmtStr, Seq, tuple, Dyn)):
        raise Unsupported("form of an argument")
    return False


class Callee(Contract):
    """One of the functions the entry point orchestrates.  At the call: every parameter is what the statement says."""

    def __init__(self, ctx, path, result, check=True):
        self.ctx, self.path, self.names, self.result, self.check = ctx, path, CALLS[path], result, check

    def call(self, eng, args, kwargs):
        c = self.ctx
        mod, name = self.path.rsplit(".", 1)
        b = eng.bind(cls(eng, mod, name), args, kwargs)
        g = ghost(eng)
        for p, v in b.items() if self.check else ():
            n = self.names.get(p, p)
            if n == "smooth" and name == "create_deterministic_plot":
                continue        # there is no contour to smooth
            if n == "retained":
                want = g.get("retained")
            elif n == "field":
                want = g.get("field")
            elif n in c["a"]:
                want = c["a"][n]
            else:
                raise Unsupported("parameter %s of %s" % (p, name))
            eng.oblige("%s: %s is %s" % (name, p, {"retained": "the retained observations", "field": "the resulting field"}.get(n, "the caller's")),
                       False if want is None else same(eng, v, want), assume=False)
        g[name] = g.get(name, 0) + 1
        return self.result(eng, g)


def retained(eng, g):
    n = z3.Int("n_retained")
    eng.assume(n >= 0)
    F = [z3.Function("ret_%d" % i, I_, R_) for i in range(4)]
    g["retained"] = eng.alloc(ListObj(n=n, get=lambda i: tuple(f(I(i)) for f in F), tag="retained"))
    g["n_retained"] = n
    return g["retained"]


def field(eng, g):
    eng.oblige("one analysis only", g.get("field") is None, assume=False)
    g["field"] = eng.alloc(InstObj(cls(eng, "oneka.probabilityfield", "ProbabilityField"), {}))
    return g["field"]


def plotted(eng, g):
    g["plotted"] = eng.fresh("plotted_area")
    return g["plotted"]


def curve(eng, g):
    n = z3.Int("n_cells")
    eng.assume(n >= 1)
    mk = lambda s: eng.alloc(ArrObj((n,), get=lambda ix: z3.Function(s, I_, R_)(I(ix[0]))))
    return (mk("pr"), mk("area"))


def nothing(eng, g):
    return None


class Hooks:
    """What is written to the log and shown on the screen is not part of the statement."""

    def on_log(self, eng, level, vals):
        return None

    def ext(self, eng, path, a, k):
        if path.startswith("matplotlib.") or path.startswith("logging."):
            return None
        if path in ("numpy.argmax", "numpy.searchsorted", "numpy.argmin"):
            # an index into the curve, used for the log alone
            i = eng.fresh("index", "int")
            eng.assume(z3.And(i >= 0, i < z3.Int("n_cells")))
            return i
        return NotImplemented


class Summary(Contract):
    """summary_statistics(...): proved by U03; used for the log alone."""

    def call(self, eng, args, kwargs):
        return eng.alloc(ExtObj("StringIO", {"text": ""}))


def task(name, given, hooks=None, judge=None):
    """judge: another property of the same run (D04)."""
    ctx = {}

    def setup(eng):
        ctx.clear()
        nw, no, t = z3.Int("n_wells"), z3.Int("n_obs"), z3.Int("target")
        W = [z3.Function("well_%d" % k, I_, R_) for k in range(3)]
        wells = eng.alloc(ListObj(n=nw, get=lambda i: tuple(f(I(i)) for f in W) + (spec("q_dist", I(i), I(i)),), frozen=True, tag="wells"))
        obs, _, O = num_seq(eng, "obs", 4, n=no)
        eng.assume(z3.And(nw >= 1, no >= 7, t >= 0, t < nw))
        a = dict(target=t, npaths=z3.Int("npaths"), nrealizations=z3.Int("nrealizations"), stochastic_wells=wells, observations=obs,
                 c_dist=spec("c_dist", -1), p_dist=spec("p_dist", -2), t_dist=spec("t_dist", -3), projectname=FmtStr("{0}", ["project"]), runtime=FmtStr("{0}", ["runtime"]),
                 duration=real("duration"), base=real("base"))
        eng.assume(z3.And(a["npaths"] >= 1, a["duration"] != 0))
        for n in OPT:
            if given:
                a[n] = z3.Bool("confined") if n == "confined" else real(n)
                if n != "confined":
                    eng.assume(a[n] >= 0 if n == "smooth" else a[n] > 0)
            else:
                a[n] = DEFAULTS[n]
        ctx.update(a=a, given=given, pre=eng.st.copy(), wells=wells, obs=obs)
        return dict(ctx)

    def run(eng, c):
        f = cls(eng, MOD, "oneka")
        names = [x.arg for x in f.node.args.args + f.node.args.kwonlyargs]
        if set(names) != set(ARGS):
            raise Unsupported("parameters of the entry point")
        return eng.call(f, [], {n: c["a"][n] for n in names if given or n not in OPT})

    def post(eng, c, o):
        began = c.get("filter_obs", 0)
        if o.kind == "raise" and not began:
            return              # refused: D02
        eng.oblige("the observations are filtered once", began == 1, assume=False)
        did = [n for n in c if n in ("create_stochastic_capturezone", "create_deterministic_capturezone", "create_probability_plot",
                                     "create_deterministic_plot", "create_impact_plot", "dump_oneka")]
        if o.kind == "raise":
            eng.oblige("the run ends early only with six or fewer retained observations (%s)" % o.val.name, c["n_retained"] <= 6, assume=False)
            eng.oblige("with six or fewer retained observations nothing is done", not did, assume=False)
            return
        if o.kind != "normal":
            eng.oblige("the run is defined (%s)" % (o.val,), False, assume=False)
            return
        eng.oblige("the run goes on only with more than six retained observations", c["n_retained"] > 6, assume=False)
        many = c["a"]["nrealizations"] > 1
        for n, w in (("create_stochastic_capturezone", many), ("create_deterministic_capturezone", z3.Not(many)),
                     ("create_probability_plot", many), ("create_deterministic_plot", z3.Not(many))):
            eng.oblige("%s once if it is the one requested, else never" % n, w if c.get(n, 0) == 1 else z3.Not(w) if c.get(n, 0) == 0 else False, assume=False)
        eng.oblige("one archive is written", c.get("dump_oneka", 0) == 1, assume=False)
        eng.oblige("the resulting field is returned", c.get("field") is not None and o.val == c["field"], assume=False)
        unchanged(eng, c["pre"], o.st, [("wells", c["wells"]), ("observations", c["obs"])])

    res = {"filter_obs": retained, "create_stochastic_capturezone": field, "create_deterministic_capturezone": field,
           "create_probability_plot": nothing, "create_deterministic_plot": plotted,
           "create_impact_plot": curve, "dump_oneka": nothing}
    con = {p: Callee(ctx, p, res[p.rsplit(".", 1)[1]], judge is None) for p in CALLS}
    con["oneka.stochastic.isdistribution"] = IsDist()
    con["oneka.utilities.summary_statistics"] = Summary()
    return Task(name, MOD + ".oneka", setup, run, judge or post, con, hooks=hooks(ctx) if hooks else Hooks())


def tasks():
    yield task("oneka, all arguments given", True)
    yield task("oneka, documented defaults", False)
