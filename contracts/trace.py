"""compute_backtrace under contract, for an arbitrary velocity function (shared by T01 and T02).

The velocity function is F = (FX, FY), uninterpreted; an evaluation may also raise.  Every vertex appended to the
trace is one Dormand-Prince step of size h from the vertex before it; h is the value in the caller's frame with which
the second stage of the step was evaluated.  The ghost `time` is the sum of the steps taken."""
from .base import *
from engine.core import Poison
from engine.solve import consts, apps
from fractions import Fraction as Q

BT = "oneka.capturezone.compute_backtrace"
FX, FY = z3.Function("FX", R_, R_, R_), z3.Function("FY", R_, R_, R_)
A = [[], [Q(1, 5)], [Q(3, 40), Q(9, 40)], [Q(44, 45), Q(-56, 15), Q(32, 9)],
     [Q(19372, 6561), Q(-25360, 2187), Q(64448, 6561), Q(-212, 729)],
     [Q(9017, 3168), Q(-355, 33), Q(46732, 5247), Q(49, 176), Q(-5103, 18656)],
     [Q(35, 384), Q(0), Q(500, 1113), Q(125, 192), Q(-2187, 6784), Q(11, 84)]]
B4 = [Q(5179, 57600), Q(0), Q(7571, 16695), Q(393, 640), Q(-92097, 339200), Q(187, 2100), Q(1, 40)]
E = [a - b for a, b in zip(A[6] + [Q(0)], B4)]


def som(t):
    return z3.simplify(t, som=True, arith_lhs=False)


def F(p):
    return (FX(p[0], p[1]), FY(p[0], p[1]))


def combo(h, ks, coef, c):
    t = z3.RealVal(0)
    for k, a in zip(ks, coef):
        if a:
            t = t + z3.RealVal("%d/%d" % (a.numerator, a.denominator)) * k[c]
    return h * t


def dp_step(eng, P, k, h):
    """The step of size h from P, where k is the velocity at P: (new point, error estimate)."""
    tab = known(eng)
    ks = [k]
    for i in range(1, 7):
        q = tuple(som(P[c] + combo(h, ks, A[i], c)) for c in range(2))
        ks.append(tab.get((q[0].get_id(), q[1].get_id()), F(q)))
    return q, tuple(som(combo(h, ks, E, c)) for c in range(2))


def known(eng):
    """Evaluations of the velocity on this path: arguments -> values."""
    fx, fy = {}, {}
    for f in eng.st.pc:
        for g in (f.children() if z3.is_and(f) else [f]):
            if z3.is_eq(g) and z3.is_app(g.arg(1)) and z3.is_const(g.arg(0)):
                for F_, d in ((FX, fx), (FY, fy)):
                    if g.arg(1).decl().eq(F_):
                        x = tuple(som(a) for a in g.arg(1).children())
                        d[(x[0].get_id(), x[1].get_id())] = (g.arg(0), x)
    return Table(fx, fy)


class Table:
    def __init__(self, fx, fy):
        self.fx, self.fy = fx, fy

    def get(self, k, default):
        return (self.fx[k][0], self.fy[k][0]) if k in self.fx and k in self.fy else default


def pair(eng, v):
    if isinstance(v, Ref):
        o = eng.st.heap.get(v.id)
        if isinstance(o, ArrObj) and o.shape == (2,) and o.items is not None:
            v = Vec(o.items, "np")
        elif isinstance(o, ListObj) and o.items is not None:
            v = Vec(o.items, "list")
    it = v.items if isinstance(v, Vec) else v if isinstance(v, tuple) else None
    if it is None or len(it) != 2 or not all(is_num(x) for x in it):
        return None
    return tuple(R(as_num(x)) for x in it)


class Hooks:
    may_not_end = True      # an arbitrary velocity function may keep the step from ever being accepted

    def __init__(self, ctx, which):
        self.ctx, self.which = ctx, which

    # -- the velocity function
    def feval(self, eng, a, k):
        arg = a[0] if a else list(k.values())[0]
        p = pair(eng, arg)
        if p is None or len(a) + len(k) != 1:
            raise Unsupported("argument of the velocity function")
        g = ghost(eng)
        if "__step" not in g:
            h = self.match(eng, p)
            if h is not None:
                g["__step"] = h
        if eng.choose(eng.fresh("velocity_unusable", "bool")):
            g["failed"] = True
            raise PyRaise(eng.global_("oneka.model", "AquiferError"))
        v = [eng.fresh("velx"), eng.fresh("vely")]
        eng.define(z3.And(v[0] == FX(*p), v[1] == FY(*p)))
        return eng.alloc(ArrObj((2,), items=v))

    def match(self, eng, p):
        """The value h in sight for which p is P + h*(1/5)*K with two points P, K in sight."""
        nums, pts = [], []
        fid = eng.fid
        while fid is not None and fid in eng.st.frames:
            fr = eng.st.frames[fid]
            for n, v in fr.items():
                if n.startswith("__"):
                    continue
                if is_num(v) and not is_int(v):
                    nums.append(R(v))
                elif is_num(v):
                    nums.append(R(v))
                else:
                    q = pair(eng, v) if isinstance(v, (Ref, Vec, tuple)) else None
                    if q is not None:
                        pts.append(q)
            fid = fr.get("__parent__")
        for h in nums:
            for P in pts:
                for k in pts:
                    if k is P:
                        continue
                    if all(som(p[c] - P[c] - h * k[c] / 5).eq(z3.RealVal(0)) for c in range(2)):
                        if not som(h).eq(z3.RealVal(0)):
                            return (P, k, h)
        return None

    def loop_iter(self, eng, K):
        ghost(eng).pop("__step", None)

    # -- a vertex is appended
    def on_append(self, eng, ref, o, v):
        p = pair(eng, v)
        if p is None or o.items is not None:
            return          # in a list of known length, such as stages; the list of vertices is in one only at its start
        g = ghost(eng)
        if g.get("__step") is None:
            raise Unsupported("a vertex is appended outside a step")
        h = g["__step"][2]
        app = getattr(o, "app", None)
        last = app[-1] if app else o.items[-1] if o.items else getattr(o, "lastv", None)
        last = pair(eng, last) if last is not None else None
        if last is None:
            raise Unsupported("vertex before the appended one")
        c = self.ctx
        t = R(as_num(g["time"])) + h
        g["time"] = norm(z3.simplify(t))
        if eng.quiet:
            return
        P, k, h = g["__step"]
        eng.oblige("the step starts from the vertex before it", z3.And(P[0] == last[0], P[1] == last[1]), assume=False)
        if self.which == "T01":
            D = c["D"]
            eng.oblige("a time step goes in the direction of the duration", h * c["sign"] > 0, assume=False)
            eng.oblige("the trace time never passes the duration", t * c["sign"] <= D * c["sign"], assume=False)
            d2 = som((p[0] - P[0]) * (p[0] - P[0]) + (p[1] - P[1]) * (p[1] - P[1]))
            root = {a.get_id(): a for f in eng.st.pc for a in apps(f) if a.decl().eq(eng.SQRT)}
            same = [a for a in root.values() if som(som(a.arg(0)) - d2).eq(z3.RealVal(0))]
            goal = same[0] < c["maxstep"] if same else d2 < c["maxstep"] * c["maxstep"]
            eng.oblige("consecutive vertices are less than the maximum step apart", goal, assume=False)
        else:
            eng.oblige("the step uses the velocity at its start", z3.And(k[0] == FX(*P), k[1] == FY(*P)), assume=False)
            new, err = dp_step(eng, P, k, h)
            for n, a, b in zip("xy", p, new):
                eng.oblige("the vertex is the Dormand-Prince step from the one before (%s)" % n, som(a - b) == 0, assume=False)
            T = c["tol"]
            for n, x in zip("xy", err):
                eng.oblige("the embedded error estimate is below the tolerance (%s)" % n, z3.And(x < T, -x < T), assume=False)

    # -- invariants to try
    def candidates(self, eng, syms, locs):
        c = self.ctx
        s = c["sign"]
        out = []
        reals = [(x, e) for nm, so, x, e in syms if so == "r" or so == "i"]
        for x, e in reals:
            X = R(x)
            out += [X * s >= 0, X * s > 0, X * s <= c["D"] * s]
        # equal at entry
        for i, (x, e) in enumerate(reals):
            for y, f in reals[i + 1:]:
                if som(R(e) - R(f)).eq(z3.RealVal(0)):
                    out.append(R(x) == R(y))
        # velocity at a point
        tab = known(eng)
        for F_, d in ((FX, tab.fx), (FY, tab.fy)):
            for v, arg in d.values():
                for x, e in reals:
                    if not R(e).eq(v):
                        continue
                    for a, ea in reals:
                        if som(R(ea) - arg[0]).eq(z3.RealVal(0)):
                            for b, eb in reals:
                                if som(R(eb) - arg[1]).eq(z3.RealVal(0)):
                                    out.append(x == F_(R(a), R(b)))
        return out


def task(name, which, sign):
    ctx = {}
    hooks = Hooks(ctx, which)

    def setup(eng):
        ctx.clear()
        eng.solver.nl_feasible = eng.solver.nl_light = False
        for n in ("xs", "ys", "tol", "maxstep"):
            ctx[n] = real(n)
        ctx["D"] = real("duration")
        ctx["sign"] = sign
        eng.assume(z3.And(ctx["tol"] > 0, ctx["maxstep"] > 0, ctx["D"] * sign > 0, ctx["xs"] != ctx["ys"]) if False else
                   z3.And(ctx["tol"] > 0, ctx["maxstep"] > 0, ctx["D"] * sign > 0))
        ghost(eng).update(time=z3.RealVal(0), failed=False)
        ctx["feval"] = Native("feval", hooks.feval)
        return dict(ctx)

    def run(eng, c):
        f = cls(eng, "oneka.capturezone", "compute_backtrace")
        kw = {}
        for x in f.node.args.args + f.node.args.kwonlyargs:
            n = {"duration": "D"}.get(x.arg, x.arg)
            if n not in c:
                raise Unsupported("unknown parameter %s" % x.arg)
            kw[x.arg] = c[n]
        return eng.call(f, [], kw)

    def post(eng, c, o):
        if o.kind not in ("normal", "return"):
            eng.oblige("nothing is raised (%s)" % getattr(o.val, "name", o.val), False, assume=False)
            return
        r = eng.obj(o.val) if isinstance(o.val, Ref) else None
        if not isinstance(r, ListObj):
            raise Unsupported("result of a trace")
        base = r if r.items is not None else getattr(r, "base", None) or getattr(eng, "base_of", {}).get(getattr(r, "origin", None))
        if base is None or base.items is None or r.items is None and getattr(r, "origin", None) is None:
            raise Unsupported("result of a trace is not the list of vertices")
        if which == "T01" or True:
            p = pair(eng, base.items[0]) if base.items else None
            eng.oblige("the trace begins with the starting point", p is not None and z3.And(p[0] == c["xs"], p[1] == c["ys"]), assume=False)
            eng.oblige("every other vertex was appended by a step", len(base.items) == 1, assume=False)
        if which == "T01" and not (c["failed"] is True):
            f = Z(c["failed"])
            eng.oblige("a trace that meets no unusable velocity ends at exactly the duration",
                       z3.Or(f, R(as_num(c["time"])) == c["D"]), assume=False)
    return Task(name, BT, setup, run, post, hooks=hooks, seconds=200, oblig=40)
