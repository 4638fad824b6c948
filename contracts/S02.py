from .S01 import *

F = "oneka.stochastic.compute_variate_mean"


def post(eng, ctx, o):
    d = ctx["d"]
    e = d.elems
    k = split(eng, ctx)
    if k == "other":
        return refused(eng, o)
    if o.kind not in ("normal", "return") or not (is_num(o.val) or isinstance(o.val, Dyn)):
        eng.oblige("a valid specification (%s) has a mean" % k, False, assume=False)
        return
    v = value(o.val)
    want = {"scalar": d.num, "pair": (e[0] + e[1]) / 2, "triple": (e[0] + e[1] + e[2]) / 3}[k]
    eng.oblige("%s: the mean is exact" % k, v == want, assume=False)
    if k != "scalar":
        eng.oblige("%s: the mean lies within the declared range" % k, z3.And(e[0] <= v, v <= (e[1] if k == "pair" else e[2])), assume=False)
    eng.oblige("no random number is drawn", not [x for x in (o.st.heap["events"].items if "events" in o.st.heap else []) if x.items[0] in DRAWS], assume=False)


def tasks():
    yield Task("compute_variate_mean", F, setup, lambda eng, c: eng.call(cls(eng, "oneka.stochastic", "compute_variate_mean"), [c["d"]], {}), post)
