"""Symbolic pre-states shared by the contracts."""
import z3
from engine.vals import *
from engine.core import Outcome
from engine.loops import sum_term, exists_term
from engine.solve import Univ
from engine.verify import Task, Contract

I_, R_, B_ = z3.IntSort(), z3.RealSort(), z3.BoolSort()


def real(n):
    return z3.Real(n)


def num_seq(eng, name, width, n=None, frozen=True, pre=""):
    """A list of `width`-tuples of real numbers of unknown length; returns (Ref, n, accessors)."""
    n = z3.Int("n_" + name) if n is None else n
    F = [z3.Function("%s_%d" % (name, c), I_, R_) for c in range(width)]
    if not isinstance(n, int):
        eng.assume(n >= 0)
    if isinstance(n, int):
        o = ListObj(items=[tuple(f(z3.IntVal(i)) for f in F) for i in range(n)], frozen=frozen, tag=name)
    else:
        o = ListObj(n=n, get=lambda i: tuple(f(I(i)) for f in F), frozen=frozen, tag=name)
    return eng.alloc(o), n, F


def ghost(eng):
    """Per-path ghost state, merged into ctx for the postcondition."""
    return eng.st.frames.setdefault("ghost", {})


def cls(eng, mod, name):
    return eng.global_(mod, name)


def symbolic_model(eng, coef=True, n=None):
    """A Model built by the real constructor from arbitrary arguments."""
    wells, nw, W = num_seq(eng, "wells", 4, n=n)
    c = {k: real(k) for k in ("base", "cond", "por", "thick", "xo", "yo")}
    eng.assume(z3.And(c["cond"] > 0, c["por"] > 0, c["thick"] > 0))
    C = [real("coef%d" % i) for i in range(6)]
    arr = eng.alloc(ArrObj((6,), items=list(C)))
    M = cls(eng, "oneka.model", "Model")
    m = eng.instantiate(M, [c["base"], c["cond"], c["por"], c["thick"], wells, c["xo"], c["yo"], arr], {})
    return dict(model=m, wells=wells, nw=nw, W=W, C=C, arr=arr, **c)


def no_well(eng, ctx, x, y):
    """Precondition: (x, y) is not the centre of a well."""
    W = ctx["W"]
    k = z3.Int("uw")
    n = I(ctx["nw"])
    body = (x - W[0](k)) * (x - W[0](k)) + (y - W[1](k)) * (y - W[1](k)) > 0
    if isinstance(ctx["nw"], int):
        for i in range(ctx["nw"]):
            eng.assume(z3.substitute(body, (k, z3.IntVal(i))))
    else:
        eng.st.univ.append(Univ([k], z3.And(k >= 0, k < n), body, "no well"))


def phi_wells(eng, ctx, x, y):
    W = ctx["W"]
    k = z3.Int("specw")
    r2 = (x - W[0](k)) * (x - W[0](k)) + (y - W[1](k)) * (y - W[1](k))
    t = W[3](k) * eng.LOG(r2) * IPI / 4
    return spec_sum(eng, k, t, ctx["nw"], [x, y])


def spec_sum(eng, k, t, n, params=()):
    if isinstance(n, int):
        s = z3.RealVal(0)
        for i in range(n):
            s = s + z3.substitute(t, (k, z3.IntVal(i)))
        return s
    return sum_term(eng, k, t, n, ())


def unchanged(eng, before, after, refs, name="frame"):
    """Heap objects in refs are the same value before and after."""
    from engine.loops import same_val
    for label, r in refs:
        a, b = before.heap[r.id], after.heap[r.id]
        if a is b:
            eng.oblige("%s: %s unchanged" % (name, label), True, assume=False)
            continue
        eng.oblige("%s: %s unchanged" % (name, label), same_obj(eng, a, b), assume=False)


def same_obj(eng, a, b):
    from engine.loops import same_val
    if type(a) is not type(b):
        return False
    if isinstance(a, InstObj):
        if set(a.attrs) != set(b.attrs):
            return False
        return zand(*[val_eq(eng, a.attrs[k], b.attrs[k]) for k in a.attrs])
    if isinstance(a, ArrObj):
        if a.items is not None and b.items is not None:
            if len(a.items) != len(b.items):
                return False
            return zand(*[val_eq(eng, x, y) for x, y in zip(a.items, b.items)])
        ix = tuple(eng.fresh("fr", "int") for _ in range(a.ndim))
        return z3.Implies(z3.And(*[z3.And(i >= 0, i < I(s)) for i, s in zip(ix, a.shape)]),
                          Z(val_eq(eng, eng.models.arr_get(eng, a, ix), eng.models.arr_get(eng, b, ix))))
    if isinstance(a, ListObj):
        if a.items is not None and b.items is not None:
            return len(a.items) == len(b.items) and zand(*[val_eq(eng, x, y) for x, y in zip(a.items, b.items)])
        i = eng.fresh("fr", "int")
        return zand(eq(a.n, b.n), z3.Implies(z3.And(i >= 0, i < I(a.n)), Z(val_eq(eng, a._get(i), b._get(i)))))
    return False


def val_eq(eng, x, y):
    from engine.loops import same_val
    if same_val(x, y):
        return True
    if is_num(x) and is_num(y):
        return eq(x, y)
    if is_bool(x) and is_bool(y):
        return eq(x, y)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return zand(*[val_eq(eng, a, b) for a, b in zip(x, y)])
    if isinstance(x, Dyn) and isinstance(y, Dyn) and x.ident is not None and y.ident is not None:
        return eq(x.ident, y.ident)
    if isinstance(x, Vec) and isinstance(y, Vec) and len(x.items) == len(y.items):
        return zand(*[val_eq(eng, a, b) for a, b in zip(x.items, y.items)])
    return False
