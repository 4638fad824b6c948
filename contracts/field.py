"""Symbolic ProbabilityField in an arbitrary state allowed by its invariant."""
from .base import *
from engine.models import arr_get

ATTRS = {"deltax", "deltay", "xmin", "xmax", "ymin", "ymax", "nrows", "ncols", "pgrid", "rgrid", "total_weight"}
PF = "oneka.probabilityfield.ProbabilityField"


def symbolic_field(eng, suffix="", conc=None, invariant=False):
    """With `invariant`, the weight of every node that is looked at lies between zero and the total (proved by F05)."""
    C = cls(eng, "oneka.probabilityfield", "ProbabilityField")
    dx, dy = real("dx" + suffix), real("dy" + suffix)
    eng.assume(z3.And(dx > 0, dy > 0))
    f = eng.instantiate(C, [dx, dy, real("xo" + suffix), real("yo" + suffix)], {})
    if set(eng.obj(f).attrs) != ATTRS:
        raise Unsupported("the field has other attributes than the contract's invariant speaks of: %s"
                          % sorted(set(eng.obj(f).attrs) ^ ATTRS))
    nr, nc = (z3.Int("nr" + suffix), z3.Int("nc" + suffix)) if conc is None else conc
    g = {"dx": dx, "dy": dy, "xmin": real("xmin" + suffix), "ymin": real("ymin" + suffix), "nr": nr, "nc": nc,
         "W": real("W" + suffix)}
    g["xmax"] = g["xmin"] + R(sub(nc, 1)) * dx if conc is None else z3.simplify(g["xmin"] + (nc - 1) * dx)
    g["ymax"] = g["ymin"] + R(sub(nr, 1)) * dy if conc is None else z3.simplify(g["ymin"] + (nr - 1) * dy)
    if conc is None:
        eng.assume(z3.And(nr >= 3, nc >= 3))
    g["P"] = z3.Function("P" + suffix, I_, I_, R_)
    g["G"] = z3.Function("G" + suffix, I_, I_, B_)
    at = dict(eng.obj(f).attrs)
    P, G = g["P"], g["G"]
    if conc is None:
        def weight(ix):
            p = P(I(ix[0]), I(ix[1]))
            if invariant:
                eng.assume(z3.And(p >= 0, p <= g["W"]))
            return p
        pg = ArrObj((nr, nc), get=weight)
        rg = ArrObj((nr, nc), get=lambda ix: G(I(ix[0]), I(ix[1])), dtype="bool")
    else:
        pg = ArrObj((nr, nc), items=[P(i, j) for i in range(nr) for j in range(nc)])
        rg = ArrObj((nr, nc), items=[G(i, j) for i in range(nr) for j in range(nc)], dtype="bool")
    at.update(xmin=g["xmin"], ymin=g["ymin"], xmax=g["xmax"], ymax=g["ymax"], nrows=nr, ncols=nc,
              pgrid=eng.alloc(pg), rgrid=eng.alloc(rg), total_weight=g["W"])
    eng.st.heap[f.id] = InstObj(C, at)
    g["field"] = f
    return g


def view(eng, f):
    """The field's state as terms."""
    o = eng.obj(f)
    a = o.attrs
    pg, rg = eng.models.rec_of(eng, a["pgrid"]), eng.models.rec_of(eng, a["rgrid"])
    return dict(dx=R(as_num(a["deltax"])), dy=R(as_num(a["deltay"])), xmin=R(as_num(a["xmin"])), xmax=R(as_num(a["xmax"])),
                ymin=R(as_num(a["ymin"])), ymax=R(as_num(a["ymax"])), nr=I(norm(a["nrows"])), nc=I(norm(a["ncols"])),
                W=R(as_num(a["total_weight"])), pg=pg, rg=rg,
                P=lambda i, j: R(arr_get(eng, pg, (i, j))), G=lambda i, j: Z(arr_get(eng, rg, (i, j))))


def inv(eng, v, name="invariant"):
    eng.oblige("%s: extent, spacing and node counts agree" % name,
               z3.And(v["xmax"] == v["xmin"] + z3.ToReal(v["nc"] - 1) * v["dx"],
                      v["ymax"] == v["ymin"] + z3.ToReal(v["nr"] - 1) * v["dy"], v["nr"] >= 3, v["nc"] >= 3), assume=False)
    eng.oblige("%s: the arrays have one entry per node" % name,
               zand(eq(v["pg"].shape[0], v["nr"]), eq(v["pg"].shape[1], v["nc"]), eq(v["rg"].shape[0], v["nr"]),
                    eq(v["rg"].shape[1], v["nc"]), v["pg"].ndim == 2, v["rg"].ndim == 2), assume=False)


def node(eng, v, tag):
    i, j = eng.fresh("i" + tag, "int"), eng.fresh("j" + tag, "int")
    eng.assume(z3.And(i >= 0, i < v["nr"], j >= 0, j < v["nc"]))
    return i, j


def int_subterms(t):
    out, stack, seen = [], [z3.simplify(t)], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.sort() == z3.IntSort() and not z3.is_int_value(x):
                out.append(x)
            stack.extend(x.children())
    return out


def witness(eng, cands, cond, univ=()):
    """First candidate term for which cond is provable under the current path condition."""
    from engine.discharge import Flat
    fl = Flat(eng)
    for c in cands:
        g = cond(c)
        inst = fl.flatten(eng.st.pc, eng.st.univ, g, 1, 6)
        if eng.solver.prove(eng.st.pc + inst, g, 1000, light=True)[0] == "proved":
            return c
    return None


def same_geometry(eng, name, v, g):
    eng.oblige("%s: geometry unchanged" % name,
               z3.And(v["xmin"] == g["xmin"], v["xmax"] == g["xmax"], v["ymin"] == g["ymin"], v["ymax"] == g["ymax"],
                      v["dx"] == g["dx"], v["dy"] == g["dy"], v["nr"] == I(g["nr"]), v["nc"] == I(g["nc"])), assume=False)
