"""Symbolic differentiation of the terms the executor extracted from the code."""
import z3
from .vals import *
from .loops import sum_term
from .solve import consts

ZERO = z3.RealVal(0)


def diff(eng, t, x, cache=None):
    """d t / d x for a z3 real constant x.  Conditionals with a condition free of x are differentiated branchwise."""
    cache = {} if cache is None else cache
    i = t.get_id()
    if i in cache:
        return cache[i]
    r = _diff(eng, t, x, cache)
    cache[i] = r
    eng.keep.append(t)
    return r


def is0(t):
    return z3.is_rational_value(t) and t.as_fraction() == 0


def depends(eng, t, x, seen=None):
    if x.decl().name() in consts(t):
        return True
    from .solve import apps
    for a in apps(t):
        if a.decl().name() in eng.sums:
            body = eng.sums[a.decl().name()][2]
            if depends(eng, body, x):
                return True
        elif a.decl().name() in eng.exs:
            if depends(eng, eng.exs[a.decl().name()][2], x):
                return True
    return False


def _diff(eng, t, x, cache):
    if t.eq(x):
        return z3.RealVal(1)
    if not depends(eng, t, x):
        return ZERO
    k = t.decl().kind()
    ch = t.children()
    d = lambda u: diff(eng, u, x, cache)
    if k == z3.Z3_OP_ADD:
        ds = [y for y in (d(c) for c in ch) if not is0(y)]
        return z3.Sum(ds) if ds else ZERO
    if k == z3.Z3_OP_SUB:
        r = d(ch[0])
        for c in ch[1:]:
            r = r - d(c)
        return z3.simplify(r)
    if k == z3.Z3_OP_UMINUS:
        return -d(ch[0])
    if k == z3.Z3_OP_MUL:
        out = []
        for j, c in enumerate(ch):
            dc = d(c)
            if is0(dc):
                continue
            p = dc
            for l, e in enumerate(ch):
                if l != j:
                    p = p * e
            out.append(p)
        return z3.Sum(out) if out else ZERO
    if k == z3.Z3_OP_DIV:
        u, v = ch
        du, dv = d(u), d(v)
        if is0(dv):
            return du / v
        return (du * v - u * dv) / (v * v)
    if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
        n = ch[1].as_fraction()
        if n.denominator == 1 and n >= 1:
            return z3.RealVal(n) * (ch[0] ** z3.RealVal(n - 1)) * d(ch[0])
    if k == z3.Z3_OP_ITE:
        if depends(eng, ch[0], x):
            raise Unsupported("derivative of a conditional on the variable")
        return z3.If(ch[0], d(ch[1]), d(ch[2]))
    if k == z3.Z3_OP_UNINTERPRETED:
        nm = t.decl().name()
        if nm == "log":
            return d(ch[0]) / ch[0]
        if nm == "sqrt":
            return d(ch[0]) / (2 * t)
        if nm == "sin":
            return eng.COS(ch[0]) * d(ch[0])
        if nm == "cos":
            return -eng.SIN(ch[0]) * d(ch[0])
        if nm in eng.sums:
            kc, params, body, key = eng.sums[nm]
            for a in ch[1:]:
                if depends(eng, a, x):
                    raise Unsupported("derivative of a parametrised sum")
            b = z3.substitute(body, *zip(params, ch[1:])) if params else body
            kk = z3.Int("dk")
            b = z3.substitute(b, (kc, kk))
            return sum_term(eng, kk, diff(eng, b, x, {}), ch[0], ())
    raise Unsupported("derivative of %s" % t.decl().name())
