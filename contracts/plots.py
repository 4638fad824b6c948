"""What is drawn: matplotlib is a set of external functions whose calls are the observable behaviour."""
from .field import *
from engine.models import by_value

SURFACE = ("contourf", "contour", "pcolormesh", "imshow", "tricontourf", "pcolor")


class Canvas:
    """Drawing calls.  draw(eng, name, args, kwargs) sees every one of those in WATCH; others show nothing of the statement."""
    WATCH = SURFACE

    def ext(self, eng, path, a, k):
        if not path.startswith("matplotlib."):
            return self.other(eng, path, a, k)
        n = path.split(".")[-1]
        if n in ("subplots",):
            return (Opaque("matplotlib.figure"), Opaque("matplotlib.axes"))
        if n in self.WATCH:
            self.draw(eng, n, a, k)
        return Opaque("matplotlib." + {"figure": "figure", "gca": "axes", "axes": "axes", "subplot": "axes"}.get(n, "artist"))

    def on_opaque_call(self, eng, f, a, k):
        if not f.path.startswith("matplotlib."):
            raise Unsupported("call of external value %s" % f.path)
        n = f.path.split(".")[-1]
        if n in self.WATCH:
            self.draw(eng, n, a, k)
        return Opaque("matplotlib." + {"gca": "axes", "add_subplot": "axes", "subplots": "axes"}.get(n, "artist"))

    def other(self, eng, path, a, k):
        return NotImplemented

    def on_log(self, eng, level, vals):
        return None

    def draw(self, eng, n, a, k):
        g = ghost(eng)
        g["drawn"] = g.get("drawn", ()) + ((n, tuple(by_value(eng, x) for x in a[:3]), len(a)),)


def check_surface(eng, what, call, X, Y, V, nr, nc):
    """A surface call shows V(i, j) at (X(j), Y(i)) for i < nr, j < nc."""
    n, a, _ = call
    if n not in ("contourf", "contour", "pcolormesh", "pcolor") or len(a) < 3 or not all(isinstance(x, Seq) for x in a):
        raise Unsupported("form of a %s call" % n)
    x, y, z = a
    dim = lambda v: len(getattr(v, "shape", None) or (0,))
    if dim(z) != 2:
        raise Unsupported("values of a surface")
    two = lambda v: zand(eq(v.shape[0], nr), eq(v.shape[1], nc))
    eng.oblige("%s: as many columns and rows as there are nodes" % what,
               zand(two(x) if dim(x) == 2 else eq(x.n, nc), two(y) if dim(y) == 2 else eq(y.n, nr), two(z)), assume=False)
    keep = eng.st
    eng.st = keep.copy()
    i, j = eng.fresh("row", "int"), eng.fresh("col", "int")
    eng.assume(z3.And(i >= 0, i < I(nr), j >= 0, j < I(nc)))
    eng.oblige("%s: the columns are at the true x" % what, R(as_num(x.get((i, j) if dim(x) == 2 else j))) == X(j), assume=False)
    eng.oblige("%s: the rows are at the true y" % what, R(as_num(y.get((i, j) if dim(y) == 2 else i))) == Y(i), assume=False)
    eng.oblige("%s: the value at every node" % what, R(as_num(z.get((i, j)))) == V(i, j), assume=False)
    eng.st = keep
