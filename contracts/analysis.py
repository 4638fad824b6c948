"""Contracts of the functions the two analyses call, and the symbolic run of an analysis.

A variate is VAR(t), where the token t is the number of draws made before it; SPEC(t) says which specification
it was drawn from and EPOCH(t) in which realization.  Well i's specification is number i."""
import re
from .base import *
from .S01 import events
from engine.loops import same_val
from engine.models import arr_get, by_value

VAR, SPEC, EPOCH = z3.Function("VAR", I_, R_), z3.Function("SPEC", I_, I_), z3.Function("EPOCH", I_, I_)
MEANOF = z3.Function("MEANOF", I_, R_)
EV, COV = z3.Function("EV", I_, R_), z3.Function("COV", I_, I_, R_)
C_DIST, P_DIST, T_DIST = -1, -2, -3
NAMES = {C_DIST: "conductivity", P_DIST: "porosity", T_DIST: "thickness"}
M = "oneka.model.Model."
ST = "oneka.stochastic."
CZ = "oneka.capturezone.compute_capturezone"


def spec(name, ident, i=None):
    """Specification number `ident`: a number, tuple or list (elements unknown)."""
    if i is None:
        t, m, n = z3.Int(name + "_tag"), z3.Real(name + "_num"), z3.Int(name + "_len")
        fn = z3.Function(name + "_e", I_, R_)
        f = lambda j: fn(I(j))
    else:
        t, m, n = [z3.Function(name + s, I_, so)(i) for s, so in (("_tag", I_), ("_num", R_), ("_len", I_))]
        g = z3.Function(name + "_e", I_, I_, R_)
        f = lambda j: g(i, I(j))
    return Dyn(t, m, n, [f(j) for j in range(3)], name, f, ident)


def epoch(eng):
    e = ghost(eng).get("__epoch")
    return z3.IntVal(-1) if e is None else e


class Draw(Contract):
    """generate_random_variate(arg): proved by S01.  A new variate of that very specification."""

    def call(self, eng, args, kwargs):
        b = eng.bind(cls(eng, "oneka.stochastic", "generate_random_variate"), args, kwargs)
        d = list(b.values())[0]
        if not isinstance(d, Dyn) or d.ident is None:
            raise Unsupported("variate of an unknown specification")
        g = ghost(eng)
        t = I(g.get("draws", 0))
        eng.define(z3.And(SPEC(t) == I(d.ident), EPOCH(t) == epoch(eng)))
        g["draws"] = norm(z3.simplify(t + 1))
        return VAR(t)


class Mean(Contract):
    """compute_variate_mean(arg): proved by S02.  The mean of that specification."""

    def call(self, eng, args, kwargs):
        b = eng.bind(cls(eng, "oneka.stochastic", "compute_variate_mean"), args, kwargs)
        d = list(b.values())[0]
        if not isinstance(d, Dyn) or d.ident is None:
            raise Unsupported("mean of an unknown specification")
        return MEANOF(I(d.ident))


class Fit(Contract):
    """fit_regional_flow(obs, xo, yo): proved by M07, M08.  Raises leaving the model unchanged, or sets origin and
    coefficients and returns the expected value vector (6, 1) and the covariance (6, 6)."""

    def __init__(self, ctx):
        self.ctx = ctx

    def call(self, eng, args, kwargs):
        f = eng.class_member(cls(eng, "oneka.model", "Model"), "fit_regional_flow")[1]
        b = eng.bind(f, args, kwargs)
        c, mo = self.ctx, b["self"]
        g = ghost(eng)
        eng.oblige("fit: all observations, in the caller's list", isinstance(b["obs"], Ref) and b["obs"] == c["obs"], assume=False)
        eng.oblige("fit: about the target", z3.And(R(as_num(b["xo"])) == c["xt"], R(as_num(b["yo"])) == c["yt"]), assume=False)
        check_model(eng, c, mo, "fitted model")
        if eng.choose(eng.fresh("fit_fails", "bool")):
            raise PyRaise(eng.global_("oneka.model", "RangeError"))
        if eng.choose(eng.fresh("fit_is_singular", "bool")):
            raise PyRaise("numpy.linalg.LinAlgError")
        k = g.get("__fits", 0)
        g["__fits"] = k + 1
        g["__fit"] = (mo, epoch(eng))
        ev = eng.alloc(ArrObj((6, 1), items=[EV(i) for i in range(6)]))
        cov = eng.alloc(ArrObj((6, 6), items=[COV(i, j) for i in range(6) for j in range(6)]))
        eng.setattr(mo, "xo", b["xo"])
        eng.setattr(mo, "yo", b["yo"])
        eng.setattr(mo, "coef", eng.alloc(ArrObj((6,), items=[EV(i) for i in range(6)])))
        return (ev, cov)


class Velocity(Contract):
    """compute_velocity / compute_velocity_confined: proved by M04 to M06.  A function of the model and the place, or the
    dry-aquifer error."""

    def __init__(self, kind):
        self.kind = kind

    def call(self, eng, args, kwargs):
        f = eng.class_member(cls(eng, "oneka.model", "Model"), self.kind)[1]
        b = eng.bind(f, args, kwargs)
        g = ghost(eng)
        if eng.choose(eng.fresh("velocity_unusable", "bool")):
            g["__vel"] = g.get("__vel", ()) + ((self.kind, b["self"], R(as_num(b["x"])), R(as_num(b["y"])), None, None),)
            raise PyRaise(eng.global_("oneka.model", "AquiferError"))
        vx, vy = eng.fresh("vx"), eng.fresh("vy")
        g["__vel"] = g.get("__vel", ()) + ((self.kind, b["self"], R(as_num(b["x"])), R(as_num(b["y"])), vx, vy),)
        return (vx, vy)


def token(v):
    """The token of a variate."""
    v = z3.simplify(v)
    return v.arg(0) if z3.is_app(v) and v.decl().eq(VAR) else None


def items6(eng, v):
    if isinstance(v, Ref):
        a = eng.obj(v)
        return [R(as_num(arr_get(eng, a, (i,)))) for i in range(6)]
    return [R(as_num(x)) for x in v.items]


def drawn(eng, c, what, v, ident):
    """v is what the analysis has to use for specification number ident."""
    v = R(as_num(v))
    if c["kind"] == "mean":
        eng.oblige("%s: the mean of its specification" % what, v == MEANOF(I(ident)), assume=False)
        return None
    t = token(v)
    eng.oblige("%s: a variate" % what, t is not None, assume=False)
    if t is None:
        return None
    eng.oblige("%s: from its own distribution" % what, SPEC(t) == I(ident), assume=False)
    eng.oblige("%s: drawn anew in this realization" % what, EPOCH(t) == epoch(eng), assume=False)
    return t


def check_model(eng, c, mo, what):
    if not (isinstance(mo, Ref) and isinstance(eng.obj(mo), InstObj)):
        eng.oblige("%s: is a model" % what, False, assume=False)
        return
    ga = lambda n: eng.getattr(mo, n)
    eng.oblige("%s: the caller's base" % what, R(as_num(ga("base"))) == c["base"], assume=False)
    toks = []
    for n, k in (("conductivity", C_DIST), ("porosity", P_DIST), ("thickness", T_DIST)):
        toks.append(drawn(eng, c, "%s: %s" % (what, n), ga(n), k))
    w = ga("wells")
    lo = eng.obj(w) if isinstance(w, Ref) else None
    if not isinstance(lo, ListObj):
        raise Unsupported("wells of the model")
    eng.oblige("%s: as many wells as given" % what, eq(lo.n, c["nw"]), assume=False)
    save = eng.st
    eng.st = save.copy()
    i = eng.fresh("well", "int")
    j = eng.fresh("well2", "int")
    eng.assume(z3.And(i >= 0, j >= 0, i < c["nw"], j < c["nw"]))
    parts = []
    for k in (i, j):
        wk = lo._get(k) if lo.items is None else eng.index_items(lo.items, k)
        parts.append(eng.unpack(wk, 4))
    x, y, r, q = parts[0]
    W = c["W"]
    eng.oblige("%s: wells in order, each at its position with its radius" % what,
               z3.And(R(as_num(x)) == W[0](i), R(as_num(y)) == W[1](i), R(as_num(r)) == W[2](i)), assume=False)
    t = drawn(eng, c, "%s: discharge of a well" % what, q, i)
    if t is not None:
        t2 = token(R(as_num(parts[1][3])))
        if t2 is not None:
            eng.oblige("%s: each well has a draw of its own" % what, z3.Implies(i != j, t != t2), assume=False)
        for tk in toks:
            if tk is not None:
                eng.oblige("%s: well and aquifer draws are separate" % what, t != tk, assume=False)
        if all(tk is not None for tk in toks):
            eng.oblige("%s: the aquifer draws are separate" % what, z3.Distinct(*toks), assume=False)
    eng.st = save


class Capture(Contract):
    """compute_capturezone(...): proved by T01 to T03, F02 to F05.  Adds the weight to the field's total and changes
    nothing else but the field's extent and contents.  At the call: it is given what the statement says."""

    def __init__(self, ctx):
        self.ctx = ctx

    def call(self, eng, args, kwargs):
        c = self.ctx
        b = eng.bind(cls(eng, "oneka.capturezone", "compute_capturezone"), args, kwargs)
        for n in ("xtarget", "ytarget", "rtarget", "npaths", "duration", "umbra", "tol", "maxstep"):
            want = {"xtarget": c["xt"], "ytarget": c["yt"], "rtarget": c["rt"]}.get(n, c.get(n))
            eng.oblige("capture zone: %s is the caller's" % n, R(as_num(b[n])) == R(want), assume=False)
        eng.oblige("capture zone: weight one", R(as_num(b["weight"])) == 1, assume=False)
        g = ghost(eng)
        fld = b["pfield"]
        mine = g.get("field")
        eng.oblige("capture zone: registered in the field made for this run", isinstance(fld, Ref) and mine == fld.id, assume=False)
        # the velocity that is tracked
        fit = g.get("__fit")
        ok = fit is not None and fit[1] is epoch(eng) or fit is not None and same_val(fit[1], epoch(eng))
        eng.oblige("capture zone: a model was fitted in this realization", ok, assume=False)
        if ok:
            mo = fit[0]
            check_model(eng, c, mo, "tracked model")
            check_coef(eng, c, mo)
            xy = [eng.fresh("px"), eng.fresh("py")]
            g["__vel"] = ()
            vx, vy = tracked_velocity(eng, b["feval"], xy)
            vel = ghost(eng).get("__vel", ())
            eng.oblige("velocity: one evaluation of the model's velocity", len(vel) == 1, assume=False)
            if len(vel) == 1:
                kind, m, x, y, ux, uy = vel[0]
                eng.oblige("velocity: of the model fitted in this realization", m == mo, assume=False)
                eng.oblige("velocity: at the particle's place", z3.And(x == xy[0], y == xy[1]), assume=False)
                eng.oblige("velocity: the full one, or the confined shortcut if requested",
                           c["confined"] if kind == "compute_velocity_confined" else z3.Not(c["confined"]), assume=False)
                eng.oblige("velocity: unusable exactly where the model's is", (vx is None) == (ux is None), assume=False)
                if vx is not None and ux is not None:
                    eng.oblige("velocity: reversed", z3.And(vx == -ux, vy == -uy), assume=False)
        if isinstance(fld, Ref) and isinstance(eng.obj(fld), InstObj):
            o = eng.obj(fld)
            from engine.core import Poison
            at = {k: (v if k in ("deltax", "deltay", "total_weight") else Poison(k)) for k, v in o.attrs.items()}
            at["total_weight"] = norm(R(as_num(at["total_weight"])) + R(as_num(b["weight"])))
            eng.st.heap[fld.id] = InstObj(o.cls, at)
        return None


def tracked_velocity(eng, feval, xy):
    """The velocity function at a place: its value, or (None, None) if it raises."""
    try:
        v = eng.call(feval, [eng.alloc(ArrObj((2,), items=list(xy)))], {})
    except PyRaise:
        return None, None
    return [R(as_num(t)) for t in eng.unpack(v, 2)]


def check_coef(eng, c, mo):
    now = items6(eng, eng.getattr(mo, "coef"))
    if c["kind"] == "mean":
        eng.oblige("coefficients: the fitted expected values", z3.And(*[a == EV(i) for i, a in enumerate(now)]), assume=False)
        return
    ev = app_events(eng)
    eng.oblige("coefficients: the generator is not seeded", not any(v.items[0] == "seeded_rng" for v in ev), assume=False)
    mv = [v.items[1:] for v in ev if v.items[0] == "mvn"]
    eng.oblige("coefficients: one multivariate normal draw in this realization", len(mv) == 1, assume=False)
    if len(mv) == 1:
        mean, cov, res = mv[0]
        eng.oblige("coefficients: drawn about the fitted mean", zand(*[R(as_num(a)) == EV(i) for i, a in enumerate(mean.items)]), assume=False)
        cv = list(cov.items) if isinstance(cov, Vec) else None
        if cv is None:
            raise Unsupported("covariance of the draw")
        flat = [x for r in cv for x in (r.items if isinstance(r, Vec) else [r])]
        eng.oblige("coefficients: drawn with the fitted covariance",
                   zand(len(flat) == 36, *[R(as_num(a)) == COV(k // 6, k % 6) for k, a in enumerate(flat)]), assume=False)
        eng.oblige("coefficients: the model has the drawn coefficients", zand(*[a == R(as_num(r)) for a, r in zip(now, res.items)]), assume=False)


def app_events(eng):
    """Events of this realization."""
    o = eng.st.heap.get("events")
    if o is None:
        return []
    return list(o.items) if o.items is not None else list(o.app)


class NewField(Contract):
    """ProbabilityField.__init__: proved by F02."""

    def call(self, eng, args, kwargs):
        C = cls(eng, "oneka.probabilityfield", "ProbabilityField")
        f = eng.class_member(C, "__init__")[1]
        b = eng.bind(f, args, kwargs)
        g = ghost(eng)
        from engine.core import Poison
        eng.oblige("field: the caller's spacing in both directions",
                   z3.And(R(as_num(b["deltax"])) == real("spacing"), R(as_num(b["deltay"])) == real("spacing")), assume=False)
        eng.oblige("field: made around the target", z3.And(R(as_num(b["xo"])) == self.ctx["xt"], R(as_num(b["yo"])) == self.ctx["yt"]), assume=False)
        eng.oblige("field: one for the whole run", g.get("field") is None and "__epoch" not in g, assume=False)
        o = b["self"]
        names = ("pgrid", "rgrid", "nrows", "ncols", "xmin", "xmax", "ymin", "ymax")
        at = {n: Poison(n) for n in names}
        at.update(deltax=b["deltax"], deltay=b["deltay"], total_weight=z3.RealVal(0))
        eng.st.heap[o.id] = InstObj(C, at)
        g["field"] = o.id
        return None

    def __init__(self, ctx):
        self.ctx = ctx


class Hooks:
    def __init__(self, log=None):
        self.log = log

    def loop_iter(self, eng, K):
        """Realizations are the iterations of the outermost loop."""
        g = ghost(eng)
        if "__epoch" not in g:
            g["__epoch"] = K
            g["__fits"] = 0
            g.pop("__fit", None)

    def on_log(self, eng, level, vals):
        if self.log is not None:
            self.log(eng, level, vals)


CTX = {}


def setup_for(kind, ctx):
    def setup(eng):
        ctx.clear()
        nw, no = z3.Int("n_wells"), z3.Int("n_obs")
        W = [z3.Function("well_%d" % c, I_, R_) for c in range(3)]
        eng.assume(z3.And(nw >= 1, no >= 7))
        wells = eng.alloc(ListObj(n=nw, get=lambda i: tuple(f(I(i)) for f in W) + (spec("q_dist", I(i), I(i)),), frozen=True, tag="wells"))
        obs, _, O = num_seq(eng, "obs", 4, n=no)
        t = z3.Int("target")
        eng.assume(z3.And(t >= 0, t < nw))
        ctx.update(kind=kind, nw=nw, W=W, wells=wells, obs=obs, target=t, npaths=z3.Int("npaths"), nrealizations=z3.Int("nrealizations"),
                   confined=z3.Bool("confined"), c_dist=spec("c_dist", C_DIST), p_dist=spec("p_dist", P_DIST), t_dist=spec("t_dist", T_DIST),
                   xt=W[0](t), yt=W[1](t), rt=W[2](t))
        for n in ("duration", "base", "spacing", "umbra", "tol", "maxstep"):
            ctx[n] = real(n)
        eng.assume(z3.And(ctx["npaths"] >= 1, ctx["nrealizations"] >= 1, ctx["spacing"] > 0, ctx["umbra"] > 0, ctx["tol"] > 0, ctx["maxstep"] > 0))
        if kind == "draw":
            ghost(eng)["draws"] = 0
        ctx["pre"] = eng.st.copy()
        return dict(ctx)
    return setup


PARAMS = dict(target="target", npaths="npaths", duration="duration", nrealizations="nrealizations", base="base", c_dist="c_dist",
              p_dist="p_dist", t_dist="t_dist", stochastic_wells="wells", observations="obs", spacing="spacing", umbra="umbra",
              confined="confined", tol="tol", maxstep="maxstep")


def run_for(mod, name):
    def run(eng, ctx):
        f = cls(eng, mod, name)
        a = f.node.args
        kw = {}
        for x in a.args + a.kwonlyargs:
            if x.arg not in PARAMS:
                raise Unsupported("unknown parameter %s" % x.arg)
            kw[x.arg] = ctx[PARAMS[x.arg]]
        return eng.call(f, [], kw)
    return run


def contracts(ctx):
    return {ST + "generate_random_variate": Draw(), ST + "compute_variate_mean": Mean(), M + "fit_regional_flow": Fit(ctx),
            M + "compute_velocity": Velocity("compute_velocity"), M + "compute_velocity_confined": Velocity("compute_velocity_confined"),
            CZ: Capture(ctx), "oneka.probabilityfield.ProbabilityField.__init__": NewField(ctx)}


def post(eng, ctx, o):
    if o.kind == "raise":
        eng.oblige("only a failing fit ends the run", o.val.name in ("RangeError", "LinAlgError", "numpy.linalg.LinAlgError"), assume=False)
        return
    if o.kind != "normal":
        eng.oblige("the run is defined (%s)" % (o.val,), False, assume=False)
        return
    fid = ctx.get("field")
    eng.oblige("the field of the run is returned", isinstance(o.val, Ref) and o.val.id == fid, assume=False)
    if isinstance(o.val, Ref) and isinstance(eng.obj(o.val), InstObj):
        n = z3.ToReal(ctx["nrealizations"]) if ctx["kind"] == "draw" else z3.RealVal(1)
        eng.oblige("the total weight is the number of realizations", R(as_num(eng.getattr(o.val, "total_weight"))) == n, assume=False)
    if ctx["kind"] == "mean":
        eng.oblige("no random number is drawn", not [e for e in events(eng, o.st) if True] and "draws" not in ctx, assume=False)
    unchanged(eng, ctx["pre"], o.st, [("wells", ctx["wells"]), ("observations", ctx["obs"])])


# ---- M03: the recharge written to the log
class RechargeLog:
    def __init__(self):
        self.seen = False

    def __call__(self, eng, level, vals):
        if not vals:
            return
        t, args = (vals[0].text, vals[0].args) if isinstance(vals[0], FmtStr) else (vals[0], vals[1:])
        if not isinstance(t, str):
            return
        if t.startswith("Realization"):
            if len(args) != 6:
                raise Unsupported("form of the realization's log entry")
            r = args[5]
        elif "recharge" in t.lower():
            if len(args) != 1:
                raise Unsupported("form of the recharge's log entry")
            r = args[0]
        else:
            return
        self.seen = True
        fit = ghost(eng).get("__fit")
        if fit is None:
            eng.oblige("recharge: of a fitted model", False, assume=False)
            return
        now = items6(eng, eng.getattr(fit[0], "coef"))
        eng.oblige("the recharge in the log is the divergence -2*(A+B) of the model's discharge",
                   R(as_num(r)) == -2 * (now[0] + now[1]), assume=False)


class CaptureLight(Capture):
    """compute_capturezone, for M03: the model that is tracked is the one whose recharge was logged."""

    def call(self, eng, args, kwargs):
        b = eng.bind(cls(eng, "oneka.capturezone", "compute_capturezone"), args, kwargs)
        g = ghost(eng)
        fit = g.get("__fit")
        g["__vel"] = ()
        tracked_velocity(eng, b["feval"], [eng.fresh("px"), eng.fresh("py")])
        vel = ghost(eng).get("__vel", ())
        eng.oblige("the model of the log entry is the one that is tracked",
                   fit is not None and len(vel) >= 1 and all(v[1] == fit[0] for v in vel), assume=False)
        return None


class FitLight(Fit):
    def call(self, eng, args, kwargs):
        q = eng.quiet
        eng.quiet = 1
        try:
            return Fit.call(self, eng, args, kwargs)
        finally:
            eng.quiet = q


class FieldLight(Contract):
    def call(self, eng, args, kwargs):
        eng.st.heap[args[0].id] = InstObj(cls(eng, "oneka.probabilityfield", "ProbabilityField"), {})
        return None


def recharge_task(kind):
    ctx = {}
    mod, name = {"draw": ("oneka.stochastic", "create_stochastic_capturezone"),
                 "mean": ("oneka.deterministic", "create_deterministic_capturezone")}[kind]
    log = RechargeLog()
    con = contracts(ctx)
    con[M + "fit_regional_flow"] = FitLight(ctx)
    con[CZ] = CaptureLight(ctx)
    con["oneka.probabilityfield.ProbabilityField.__init__"] = FieldLight()

    def post(eng, c, o):
        if o.kind == "raise":
            return
        if not log.seen:
            raise Unsupported("no recharge is written to the log")
        eng.oblige("the run is defined", o.kind == "normal", assume=False)
    return Task("recharge in the log of " + name, mod + "." + name, setup_for(kind, ctx), run_for(mod, name), post, con, hooks=Hooks(log))
