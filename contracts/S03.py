from .S01 import *

F = "oneka.stochastic.isdistribution"


def accepted(d, lo, hi):
    """The specification of validity, with lo/hi numbers or infinities."""
    e = d.elems
    ins = lambda x: zand(cmp("<=", lo, x), cmp("<=", x, hi))
    return zor(zand(is_tag(d, NUMBER), ins(d.num)),
               zand(is_tag(d, SEQ), d.n == 2, ins(e[0]), ins(e[1]), e[0] <= e[1]),
               zand(is_tag(d, SEQ), d.n == 3, ins(e[0]), ins(e[1]), ins(e[2]), e[0] <= e[1], e[1] <= e[2]))


def run(lo, hi):
    return lambda eng, c: eng.call(cls(eng, "oneka.stochastic", "isdistribution"), [c["d"], lo, hi], {})


def post(lo, hi):
    def f(eng, ctx, o):
        if o.kind not in ("normal", "return"):
            eng.oblige("a value is accepted or rejected without an error (%s)" % getattr(o.val, "name", o.val), False, assume=False)
            return
        r = eng.truth(o.val)
        want = accepted(ctx["d"], lo, hi)
        eng.oblige("accepted only if ordered and within the bounds", zimp(r, want), assume=False)
        eng.oblige("accepted if ordered and within the bounds", zimp(want, r), assume=False)
    return f


def tasks():
    L, H = real("lb"), real("ub")
    for n, lo, hi in (("two bounds", L, H), ("no upper bound", L, Inf(1)), ("no lower bound", Inf(-1), H), ("no bounds", Inf(-1), Inf(1)), ("zero to infinity", 0, Inf(1)), ("zero to one", 0, 1)):
        yield Task("isdistribution, " + n, F, lambda eng: dict(d=dyn(eng)), run(lo, hi), post(lo, hi))
