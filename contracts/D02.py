"""Refusal of invalid arguments.  Every argument the statement speaks of is a dynamically typed value; wells and
observations are sequences of unknown length holding dynamically typed values."""
from .base import *
from .S03 import accepted, NUMBER
from .S01 import is_tag
from engine.core import Infeasible

MOD = "oneka.oneka"
SCALARS = ("target", "npaths", "duration", "base", "buffer", "spacing", "umbra", "smooth", "confined", "tol", "maxstep")
OPTIONAL = ("buffer", "spacing", "umbra", "smooth", "confined", "tol", "maxstep")
SPECS = ("c_dist", "p_dist", "t_dist")


def dyn1(name, *ix):
    """A dynamically typed value; with indices, one of a family."""
    so = [I_] * len(ix)
    mk = lambda s, r: z3.Function(name + s, *so, r)(*ix) if ix else z3.Const(name + s, r)
    e = z3.Function(name + "_e", *so, I_, R_)
    return Dyn(mk("_tag", I_), mk("_num", R_), mk("_len", I_), [e(*ix, z3.IntVal(j)) for j in range(4)], name, lambda j: e(*ix, I(j)))


def number(d):
    return is_tag(d, NUMBER)


def positive(d):
    return z3.And(number(d), d.num > 0)


def well_ok(k):
    w = [dyn1("well", k, z3.IntVal(c)) for c in range(4)]
    return z3.And(WLEN(k) == 4, number(w[0]), number(w[1]), positive(w[2]), Z(accepted(w[3], Inf(-1), Inf(1))))


def obs_ok(k):
    o = [dyn1("ob", k, z3.IntVal(c)) for c in range(4)]
    return z3.And(OLEN(k) == 4, number(o[0]), number(o[1]), number(o[2]), positive(o[3]))


WLEN, OLEN = z3.Function("well_fields", I_, I_), z3.Function("ob_fields", I_, I_)


def conditions(c):
    """The named conditions of the statement that do not quantify over a list."""
    a = c["a"]
    t = a["target"]
    yield "the target indexes a well", z3.And(t.tag == Dyn.INT, t.num >= 0, t.num < z3.ToReal(c["nw"]))
    yield "npaths is a positive integer", z3.And(a["npaths"].tag == Dyn.INT, a["npaths"].num > 0)
    yield "the duration is a non-zero number", z3.And(number(a["duration"]), a["duration"].num != 0)
    yield "the base is a number", number(a["base"])
    for n, hi in (("c_dist", Inf(1)), ("p_dist", 1), ("t_dist", Inf(1))):
        yield "the distribution %s is valid" % n, Z(accepted(a[n], 0, hi))
    for n in POSITIVE:
        if n in a:
            yield "%s is positive" % n, positive(a[n])
    if "smooth" in a:
        yield "smooth is not negative", z3.And(number(a["smooth"]), a["smooth"].num >= 0)
    if "confined" in a:
        yield "confined is a boolean", a["confined"].tag == Dyn.BOOL
    yield "there are more than six observations", c["no"] > 6


class Start:
    """The run starts: everything must have been validated."""

    def __init__(self, ctx):
        self.ctx = ctx

    def begin(self, eng, what):
        c = self.ctx
        g = ghost(eng)
        if g.get("replaying") or eng.quiet:
            return
        if g.get("missing"):
            eng.oblige("before anything is done: %s is positive, not a missing value" % g["missing"], False, assume=False)
            raise Infeasible()
        for n, f in conditions(c):
            eng.oblige("before anything is done: %s" % n, f, assume=False)
        for n, ln, ok in (("well has four valid fields", c["nw"], well_ok), ("observation has four valid fields", c["no"], obs_ok)):
            k = eng.fresh("any", "int")
            keep = eng.st
            eng.st = keep.copy()
            eng.assume(z3.And(k >= 0, k < ln))
            eng.oblige("before anything is done: every %s" % n, ok(k), assume=False)
            eng.st = keep
        raise Infeasible()


class Does(Contract):
    """Any of the functions that do something: the run has started."""

    def __init__(self, start, name):
        self.start, self.name = start, name

    def call(self, eng, args, kwargs):
        self.start.begin(eng, self.name)
        raise Unsupported("%s while a loop is summarized" % self.name)


class IsDist(Contract):
    """isdistribution(arg, lb, ub): proved by S03."""

    def call(self, eng, args, kwargs):
        b = list(eng.bind(cls(eng, "oneka.stochastic", "isdistribution"), args, kwargs).values())
        if not isinstance(b[0], Dyn):
            raise Unsupported("isdistribution of a known value")
        return accepted(b[0], b[1], b[2])


class Hooks:
    def __init__(self, start):
        self.start = start

    def on_log(self, eng, level, vals):
        self.start.begin(eng, "log")

    def ext(self, eng, path, a, k):
        if path.startswith("matplotlib."):
            self.start.begin(eng, path)
        return NotImplemented


POSITIVE = ("buffer", "spacing", "umbra", "tol", "maxstep")


def task(name, given, missing=False):
    ctx = {}

    def setup(eng):
        ctx.clear()
        a = {}
        for n in SCALARS:
            if n in OPTIONAL and not given:
                continue
            a[n] = dyn1(n)
            if n != "confined":
                eng.assume(a[n].tag != Dyn.BOOL)
            eng.assume(z3.Implies(a[n].tag == Dyn.INT, a[n].num == z3.ToReal(z3.ToInt(a[n].num))))
        for n in SPECS:
            a[n] = dyn1(n)
            eng.assume(a[n].tag != Dyn.BOOL)
        nw, no = z3.Int("n_wells"), z3.Int("n_obs")
        eng.assume(z3.And(nw >= 0, no >= 0))

        def record(name, ln):
            def get(i):
                # numbers other than booleans (a fact about the inputs, stated where they are used)
                eng.assume(z3.And(ln(I(i)) >= 0, *[dyn1(name, I(i), z3.IntVal(c)).tag != Dyn.BOOL for c in range(4)]))
                return Seq(ln(I(i)), lambda j: dyn1(name, I(i), I(j)), "tuple")
            return get
        a["stochastic_wells"] = eng.alloc(ListObj(n=nw, get=record("well", WLEN), frozen=True, tag="wells"))
        a["observations"] = eng.alloc(ListObj(n=no, get=record("ob", OLEN), frozen=True, tag="obs"))
        a["projectname"], a["runtime"], a["nrealizations"] = dyn1("projectname"), dyn1("runtime"), z3.Int("nrealizations")
        eng.assume(z3.And(a["projectname"].tag == Dyn.STR, a["runtime"].tag == Dyn.STR))
        ctx.update(a=a, nw=nw, no=no)
        return dict(ctx)

    def run(eng, c):
        f = cls(eng, MOD, "oneka")
        names = [x.arg for x in f.node.args.args + f.node.args.kwonlyargs]
        if set(c["a"]) - set(names):
            raise Unsupported("parameters of the entry point")
        a = dict(c["a"])
        if missing:
            # one of the settings that must be positive is a missing value (not a number)
            which = z3.Int("which")
            for i, n in enumerate(POSITIVE):
                if i == len(POSITIVE) - 1 or eng.choose(which == i):
                    a[n] = NaN()
                    ghost(eng)["missing"] = n
                    break
        return eng.call(f, [], {n: a[n] for n in names if n in a})

    def post(eng, c, o):
        if o.kind != "raise":
            eng.oblige("valid arguments start a run", o.kind == "raise", assume=False)
            return
        if missing:
            eng.oblige("a setting that is not a number is refused", o.kind == "raise", assume=False)
            return
        # refused: the conditions cannot all hold
        from engine.solve import apps
        for n, ln, ok in (("nw", WLEN, well_ok), ("no", OLEN, obs_ok)):
            for t in {x.arg(0).get_id(): x.arg(0) for f in o.st.pc for x in apps(f) if x.decl().eq(ln)}.values():
                eng.assume(z3.Implies(z3.And(t >= 0, t < c[n]), ok(t)))
        eng.oblige("arguments that meet the conditions are not refused", z3.Not(z3.And(*[f for _, f in conditions(c)])), assume=False)

    start = Start(ctx)
    con = {m + n: Does(start, n) for m, n in (("oneka.utilities.", "filter_obs"), ("oneka.utilities.", "summary_statistics"), ("oneka.archive.", "dump_oneka"),
                                               ("oneka.stochastic.", "create_stochastic_capturezone"), ("oneka.deterministic.", "create_deterministic_capturezone"),
                                               ("oneka.visualize.", "create_probability_plot"), ("oneka.visualize.", "create_impact_plot"), ("oneka.visualize.", "create_deterministic_plot"))}
    con["oneka.stochastic.isdistribution"] = IsDist()
    return Task(name, MOD + ".oneka", setup, run, post, con, hooks=Hooks(start))


def tasks():
    yield task("oneka, all arguments given", True)
    yield task("oneka, documented defaults", False)
    yield task("oneka, a setting is not a number", True, True)
