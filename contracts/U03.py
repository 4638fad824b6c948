"""The summary table.  An entry of the table of values is a token that is either missing or a number; a statistic of a list
of entries is a function of that list alone (numpy's min, median, max, mean and std, which are external), so a row of the
table is right if it formats that statistic of the column's entries that are not missing."""
from .base import *

UT = "oneka.utilities"
CELLS = z3.Function("entry", I_, I_, CELL)
FORMATS = z3.Function("format_of", I_, TEXT)
NAMES = z3.Function("name_of", I_, TEXT)
ROWS = dict(min="min", med="median", max="max", avg="mean", std="std")


class Hooks(Contract):
    prune = True


def column(eng, c, j):
    """The entries of column j that are not missing."""
    ref = eng.alloc(ArrObj((c["n"],), get=lambda i: CELLS(I(i[0]), I(j)), dtype="cell"))
    keep = eng.models.arr_map(eng, ref, lambda x: z3.Not(MISSING(x)), True, "bool")
    return eng.models.rec_of(eng, eng.models.arr_index(eng, ref, keep))


class Pieces:
    """Flattens what was written into lines of pieces: strings, (value, conversion, specification) and maps over the columns."""
    def __init__(self, eng):
        self.eng = eng

    def chunks(self, o):
        if o.items is not None:
            return [p for v in o.items for p in self.text(v)]
        if getattr(o, "prev", None) is not None:
            return self.chunks(o.prev[0]) + self.text(o.prev[1])
        if getattr(o, "prev_seq", None) is not None:
            _, s, n = o.prev_seq
            return self.chunks(o.prev_seq[0]) + [("map", n, lambda k: self.text(s.get(k)))]
        lp = getattr(o, "loop", None)
        if lp is not None and lp[0] == "map":
            _, m, n0, elem, k = lp
            head = self.chunks(o.base)
            return head + ([("map", k, lambda i: [p for x in range(m) for p in self.text(elem(I(i), x))])] if m else [])
        raise Unsupported("how the table is written")

    def text(self, v):
        ps = self.eng.models.text_parts(v)
        if ps is None:
            raise Unsupported("a text that is not understood")
        return [q for p in ps for q in (self.joined(p) if isinstance(p, tuple) and p[1] == "join" else [p])]

    def joined(self, p):
        s, sep = self.eng.as_seq(p[0]), p[2][0]
        if not isinstance(sep, str) or sep.strip(" "):
            raise Unsupported("a separator")
        n = norm(s.n) if not isinstance(s.n, int) else s.n
        if isinstance(n, int):
            return [q for i in range(n) for q in self.text(s.get(i)) + ([sep] if sep else [])]
        return [("map", n, lambda k: self.text(s.get(k)) + [sep])]

    def lines(self, ps):
        out = [[]]
        for p in ps:
            if not isinstance(p, str):
                out[-1].append(p)
                continue
            for x, s in enumerate(p.split("\n")):
                if x:
                    out.append([])
                if s:
                    if out[-1] and isinstance(out[-1][-1], str):
                        out[-1][-1] += s
                    else:
                        out[-1].append(s)
        return out


def setup(kind):
    def f(eng):
        ctx = dict(n=z3.Int("n_rows"), m=z3.Int("n_columns"), title=z3.Const("title", TEXT))
        n, m = ctx["n"], ctx["m"]
        eng.assume(z3.And(n >= 1, m >= 1))
        if kind == "array":
            ctx["values"] = eng.alloc(ArrObj((n, m), get=lambda ix: CELLS(I(ix[0]), I(ix[1])), dtype="cell", frozen=True))
        else:
            ctx["values"] = eng.alloc(ListObj(n=n, get=lambda i: Seq(m, lambda j: CELLS(I(i), I(j)), "tuple"), frozen=True))
        ctx["formats"] = eng.alloc(ListObj(n=m, get=lambda j: FORMATS(I(j)), frozen=True))
        ctx["names"] = eng.alloc(ListObj(n=m, get=lambda j: NAMES(I(j)), frozen=True))
        # every column has an entry that is not missing
        j = z3.Int("uv!j")
        cnt = column(eng, ctx, j).shape[0]
        eng.st.univ.append(Univ([j], z3.And(j >= 0, j < m), cnt >= 1, "no empty column"))
        ctx["pre"] = eng.st.copy()
        return ctx
    return f


def run(eng, c):
    f = cls(eng, UT, "summary_statistics")
    return eng.call(f, [], {x.arg: c[x.arg] for x in f.node.args.args})


def post(eng, c, o):
    eng.oblige("the table is made (%s)" % getattr(o.val, "name", o.val), o.kind == "normal", assume=False)
    if o.kind != "normal":
        return
    unchanged(eng, c["pre"], o.st, [(n, c[n]) for n in ("values", "formats", "names")])
    buf = eng.obj(o.val) if isinstance(o.val, Ref) else None
    if not isinstance(buf, ExtObj) or buf.kind != "stringio":
        raise Unsupported("the result is not a text buffer")
    P = Pieces(eng)
    lines = P.lines(P.chunks(eng.obj(buf.data["chunks"])))
    j = eng.fresh("column", "int")
    eng.assume(z3.And(j >= 0, j < c["m"]))
    col = column(eng, c, j)
    for label in ["cnt"] + list(ROWS):
        mine = [l for l in lines if l and isinstance(l[0], str) and l[0].strip() == label + ":"]
        if len(mine) != 1:
            raise Unsupported("the row %s" % label)
        rest = [p for p in mine[0][1:] if not (isinstance(p, str) and not p.strip())]
        if len(rest) != 1 or rest[0][0] != "map":
            raise Unsupported("the form of the row %s" % label)
        _, n, get = rest[0]
        eng.oblige("%s: one entry per column" % label, Z(eq(n, c["m"])), assume=False)
        cell = [p for p in get(j) if not (isinstance(p, str) and not p.strip())]
        if len(cell) != 1 or isinstance(cell[0], str) or cell[0][1] is not None:
            raise Unsupported("an entry of the row %s" % label)
        val, _, spec = cell[0]
        if not is_num(val):
            raise Unsupported("an entry of the row %s" % label)
        if label == "cnt":
            eng.oblige("cnt: the number of entries that are not missing", Z(eq(val, col.shape[0])), assume=False)
            if spec and not (isinstance(spec[-1], str) and spec[-1].endswith("d")):
                raise Unsupported("the format of the count")
            continue
        eng.oblige("%s: the %s of the entries that are not missing" % (label, ROWS[label]),
                   R(val) == eng.models.statistic(eng, ROWS[label], col), assume=False)
        if len(spec) != 1 or isinstance(spec[0], str) or spec[0][2] or not is_text(spec[0][0]):
            raise Unsupported("the format of the row %s %r" % (label, spec))
        eng.oblige("%s: in the column's format" % label, spec[0][0] == FORMATS(j), assume=False)


def tasks():
    yield Task("summary_statistics, a list of rows", UT + ".summary_statistics", setup("rows"), run, post, {}, hooks=Hooks())
    yield Task("summary_statistics, an array", UT + ".summary_statistics", setup("array"), run, post, {}, hooks=Hooks())
