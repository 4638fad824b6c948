from .base import *

G = "oneka.stochastic.generate_random_variate"
NUMBER = (Dyn.INT, Dyn.FLOAT)
SEQ = (Dyn.TUPLE, Dyn.LIST)


def dyn(eng, name="spec", others=True):
    """An arbitrary specification: a number, a tuple or list of numbers of any length, or something else."""
    tag, num, n = z3.Int(name + "_tag"), z3.Real(name + "_num"), z3.Int(name + "_len")
    fn = z3.Function(name + "_e", I_, R_)
    e = [fn(i) for i in range(5)]
    ok = [tag == t for t in NUMBER + SEQ] + ([tag == t for t in (Dyn.STR, Dyn.NONE, Dyn.OTHER)] if others else [])
    eng.assume(z3.And(z3.Or(*ok), n >= 0))
    eng.assume(z3.Implies(tag == Dyn.INT, num == z3.ToReal(z3.ToInt(num))))
    return Dyn(tag, num, n, e, name, fn)


def is_tag(d, tags):
    return z3.Or(*[d.tag == t for t in tags])


def events(eng, st, name=None):
    o = st.heap.get("events")
    if o is None:
        return []
    if o.items is None:
        raise Unsupported("number of events")
    return [v.items[1:] for v in o.items if name is None or v.items[0] == name]


DRAWS = ("uniform", "triangular", "mvn", "seeded_rng")


def setup(eng):
    d = dyn(eng, others=False)
    e = d.elems
    # what the validator accepts: ordered numbers; sequences of other lengths are arbitrary
    eng.assume(z3.Implies(z3.And(is_tag(d, SEQ), d.n == 2), e[0] <= e[1]))
    eng.assume(z3.Implies(z3.And(is_tag(d, SEQ), d.n == 3), z3.And(e[0] <= e[1], e[1] <= e[2])))
    return dict(d=d)


def value(v):
    """Number of a returned value."""
    return R(as_num(v))


def split(eng, ctx):
    """Forks on the shape of the specification."""
    d = ctx["d"]
    if eng.choose(is_tag(d, NUMBER)):
        return "scalar"
    if eng.choose(d.n == 2):
        return "pair"
    if eng.choose(d.n == 3):
        return "triple"
    return "other"


def refused(eng, o):
    eng.oblige("sequences of other lengths are refused with the distribution error", o.kind == "raise" and o.val.name == "DistributionError", assume=False)


def post(eng, ctx, o):
    d = ctx["d"]
    e = d.elems
    k = split(eng, ctx)
    if k == "other":
        return refused(eng, o)
    if o.kind not in ("normal", "return") or not (is_num(o.val) or isinstance(o.val, Dyn)):
        eng.oblige("a valid specification (%s) yields a number" % k, False, assume=False)
        return
    v = value(o.val)
    ev = [x.items for x in (o.st.heap["events"].items if "events" in o.st.heap else []) if x.items[0] in DRAWS]
    if k == "scalar":
        eng.oblige("a scalar is returned unchanged", v == d.num, assume=False)
        return
    hi = e[1] if k == "pair" else e[2]
    eng.oblige("the value lies within the declared range", z3.And(e[0] <= v, v <= hi), assume=False)
    if not ev:
        eng.oblige("without a draw the range has a single value", e[0] == hi, assume=False)
        return
    name = {"pair": "uniform", "triple": "triangular"}[k]
    good = len(ev) == 1 and ev[0][0] == name and len(ev[0]) == (4 if k == "pair" else 5)
    eng.oblige("%s: one %s draw" % (k, name), good, assume=False)
    if good:
        # an affine image of a uniform (triangular) variate is uniform (triangular)
        a = [R(as_num(x)) for x in ev[0][1:]]
        r, lo, top = a[-1], a[0], a[-2]
        up = z3.And(v - e[0] >= 0, (v - e[0]) * (top - lo) == (hi - e[0]) * (r - lo))
        down = (hi - v) * (top - lo) == (hi - e[0]) * (r - lo)
        if k == "triple":
            up = z3.And(up, (e[1] - e[0]) * (top - lo) == (hi - e[0]) * (a[1] - lo))
            down = z3.And(down, (hi - e[1]) * (top - lo) == (hi - e[0]) * (a[1] - lo))
        eng.oblige("%s: the value is the draw with the declared parameters" % k, z3.And(z3.Or(lo < top, e[0] == hi), z3.Or(up, down)), assume=False)


def tasks():
    yield Task("generate_random_variate", G, setup, lambda eng, c: eng.call(cls(eng, "oneka.stochastic", "generate_random_variate"), [c["d"]], {}), post)
