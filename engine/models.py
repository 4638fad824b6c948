"""Assumed contracts of the Python and NumPy operations the repository uses.

Everything here is trusted (listed as such in the evidence): the meaning of the built-ins and library
functions, over exact real numbers.  Anything not modelled raises Unsupported.
"""
import ast
from fractions import Fraction
import z3
from .vals import *
from . import vals as V
from .solve import Univ

NAMES = ("len range min max abs sum float int bool str isinstance type enumerate zip list tuple sorted reversed round "
         "print any all dict set map filter iter next repr pow divmod hasattr getattr id callable format hash "
         "object super property vars").split()
NAMES += [n for n in dir(__import__("builtins")) if n[0].islower() and n not in NAMES and n not in ("copyright", "credits", "license", "exit", "quit", "help")]
BUILTINS = {n: Ext("builtins." + n) for n in NAMES}

ALIAS = {"numpy.float": "builtins.float", "numpy.bool": "builtins.bool", "numpy.int": "builtins.int",
         "numpy.double": "builtins.float", "numpy.float64": "builtins.float", "numpy.bool_": "builtins.bool",
         "numpy.float_": "builtins.float", "numpy.int64": "builtins.int",
         "numpy.absolute": "numpy.abs", "numpy.fabs": "numpy.abs", "math.fabs": "builtins.abs", "numpy.arctan2": "math.atan2",
         "numpy.amin": "numpy.min", "numpy.amax": "numpy.max", "numpy.concatenate": "numpy.concatenate"}


class MaskIndex:
    """The positions of the true elements of an array of truth values (numpy.nonzero)."""
    def __init__(self, ref):
        self.ref = ref


class MaskCoord:
    """One coordinate of those positions: an array of unknown length."""
    def __init__(self, mask, axis):
        self.mask, self.axis = mask, axis


class TypeVal:
    def __init__(self, names=None, tag=None):
        self.names, self.tag = names, tag


def py_type(eng, v):
    if isinstance(v, Dyn):
        return TypeVal(tag=v.tag)
    if real_term(v):
        return TypeVal(tag=z3.If(held_as_int(eng, v), z3.IntVal(Dyn.INT), z3.IntVal(Dyn.FLOAT)))
    return TypeVal(names=type_names(eng, v))


def real_term(v):
    return isinstance(v, z3.ArithRef) and v.is_real() and not z3.is_rational_value(v)


def held_as_int(eng, v):
    """A real number of the caller may be a Python int: both are possible when its value is integral."""
    b = z3.Bool("int_object:" + v.sexpr())
    eng.assume(z3.Implies(b, z3.IsInt(v)))
    return b


def type_names(eng, v):
    if is_bool(v):
        return ("bool", "int", "numbers.Number", "numbers.Real", "numbers.Integral", "object")
    if is_int(v):
        return ("int", "numbers.Number", "numbers.Real", "numbers.Integral", "object")
    if is_num(v) or isinstance(v, (Inf, NaN)):
        return ("float", "numbers.Number", "numbers.Real", "object")
    if isinstance(v, (str, FmtStr)):
        return ("str", "object")
    if v is None:
        return ("NoneType", "object")
    if isinstance(v, tuple):
        return ("tuple", "object")
    if isinstance(v, Vec):
        if v.kind == "mixed":
            return ("mixed",)
        return ("numpy.ndarray" if v.kind == "np" else v.kind, "object")
    if isinstance(v, Ref):
        o = eng.obj(v)
        if isinstance(o, ListObj):
            return ("list", "object")
        if isinstance(o, ArrObj):
            return ("numpy.ndarray", "object")
        if isinstance(o, DictObj):
            return ("dict", "object")
    raise Unsupported("type of %r" % (v,))


TAGS = {"int": (Dyn.INT, Dyn.BOOL), "float": (Dyn.FLOAT,), "bool": (Dyn.BOOL,), "tuple": (Dyn.TUPLE,),
        "list": (Dyn.LIST,), "str": (Dyn.STR,), "NoneType": (Dyn.NONE,),
        "numbers.Number": (Dyn.INT, Dyn.FLOAT, Dyn.BOOL), "numbers.Real": (Dyn.INT, Dyn.FLOAT, Dyn.BOOL),
        "numbers.Integral": (Dyn.INT, Dyn.BOOL)}


def isinst(eng, v, c):
    if isinstance(c, tuple):
        return norm(zor(*[isinst(eng, v, x) for x in c]))
    if isinstance(c, ClassVal):
        if isinstance(v, Ref) and isinstance(eng.obj(v), InstObj):
            k = eng.obj(v).cls
            while isinstance(k, ClassVal):
                if k.qualname == c.qualname:
                    return True
                k = k.bases[0] if k.bases else None
            return False
        return False
    if isinstance(c, TypeVal):
        name = c.names[0]
    elif isinstance(c, Ext):
        name = ALIAS.get(c.path, c.path).replace("builtins.", "")
        if c.path in ("numpy.float64", "numpy.float_", "numpy.double", "numpy.bool_", "numpy.int64"):
            name = c.path
        if name in ("collections.abc.Sequence", "collections.abc.Iterable"):
            raise Unsupported("isinstance %s" % name)
    else:
        raise Unsupported("isinstance with %r" % (c,))
    if isinstance(v, Dyn):
        t = TAGS.get(name)
        if t is None:
            b = eng.fresh("inst", "bool")
            # a double of numpy is a float, too
            npf = name in ("numpy.float64", "numpy.float_", "numpy.double", "numpy.floating", "numpy.inexact", "numpy.number", "numpy.generic")
            return zand(zor(eq(v.tag, Dyn.OTHER), eq(v.tag, Dyn.FLOAT)) if npf else eq(v.tag, Dyn.OTHER), b)
        return norm(zor(*[v.tag == x for x in t]))
    if isinstance(v, Vec) and v.kind == "mixed" and name in ("tuple", "list", "numpy.ndarray"):
        raise Unsupported("sequence of unknown type")
    if isinstance(v, Opaque):
        t = v.data.get("type") if isinstance(v.data, dict) else None
        if t:
            return t == name
        raise Unsupported("isinstance of an external value")
    if isinstance(v, (Func, BoundMethod, Native)):
        return False
    if real_term(v):
        if name in ("int", "numbers.Integral"):
            return held_as_int(eng, v)
        if name == "float":
            return znot(held_as_int(eng, v))
        if name.startswith("numpy."):
            return zand(znot(held_as_int(eng, v)), z3.Bool("%s_object:%s" % (name, v.sexpr())))
    return name in type_names(eng, v)


def as_type(eng, v):
    if isinstance(v, TypeVal):
        return v
    if isinstance(v, Ext):
        p = ALIAS.get(v.path, v.path).replace("builtins.", "")
        return TypeVal(names=(p,))
    raise Unsupported("type comparison")


def same_type(eng, a, b):
    if a.tag is not None or b.tag is not None:
        if a.tag is None:
            a, b = b, a
        if b.tag is not None:
            return a.tag == b.tag
        ex = {"int": Dyn.INT, "float": Dyn.FLOAT, "bool": Dyn.BOOL, "tuple": Dyn.TUPLE, "list": Dyn.LIST,
              "str": Dyn.STR, "NoneType": Dyn.NONE}.get(b.names[0])
        if ex is None:
            return zand(a.tag == Dyn.OTHER, eng.fresh("ty", "bool"))
        return a.tag == ex
    return a.names[0] == b.names[0]


# ------------------------------------------------------------------------------- arrays
def new_arr(eng, rec):
    return eng.alloc(rec)


def rec_of(eng, v):
    """ArrObj record of an array-like value; None for scalars."""
    if isinstance(v, Ref):
        o = eng.obj(v)
        if isinstance(o, ArrObj):
            view = getattr(o, "view", None)
            if view is not None and eng.st.heap.get(view[0]) is not view[1]:
                if getattr(o, "flatview", False):
                    return refresh(eng, v)
                raise Unsupported("view of an array that was modified")
            return o
        if isinstance(o, ListObj):
            return rec_of_items(eng, o.items, o)
        raise Unsupported("array from %r" % (o,))
    if isinstance(v, Vec):
        return rec_of_items(eng, list(v.items), None)
    if isinstance(v, tuple):
        return rec_of_items(eng, list(v), None)
    if isinstance(v, Seq):
        if getattr(v, "shape", None):
            r = ArrObj(v.shape, get=v.get if len(v.shape) > 1 else (lambda i: v.get(i[0])), dtype=getattr(v, "dtype", "real"))
            if getattr(v, "masked", None):
                r.masked = tuple(rec_of(eng, x) for x in v.masked)
                r.dtype = r.masked[0].dtype
            return r
        if isinstance(v.n, int):
            return rec_of_items(eng, [v.get(i) for i in range(v.n)], None)
        return ArrObj((v.n,), get=lambda i: scalar_of(eng, v.get(i[0])))
    return None


def scalar_of(eng, x):
    if is_cell(x):
        return x
    n = as_num(x)
    if n is None and not is_bool(x):
        raise Unsupported("array element %r" % (x,))
    return n if n is not None else x


def consts_of_val_(v):
    from .loops import consts_of_val
    return {x.split("!")[0] for x in consts_of_val(v)}


def count_true(eng, m):
    """Number of positions at which a one-dimensional array of booleans is true."""
    from .loops import register, uniq
    k = z3.Int("kv!%d" % uniq(eng))
    t = z3.simplify(Z(arr_get(eng, m, (k,))))
    n = I(norm(m.shape[0]))
    c = register(eng, eng.counts, "COUNT", z3.Int("cntk"), k, t, n, (), z3.IntSort())
    eng.assume(z3.And(c >= 0, z3.Implies(n >= 0, c <= n)))
    return c


def statistic(eng, what, r):
    """A statistic of a one-dimensional array, as an uninterpreted function of the array's elements."""
    from .loops import register, uniq
    src, m = getattr(r, "masked", None) or (r, None)
    k = z3.Int("kv!%d" % uniq(eng))
    keep = z3.BoolVal(True) if m is None else z3.simplify(Z(arr_get(eng, m, (k,))))
    v = arr_get(eng, src, (k,))
    v = v if is_cell(v) else R(as_num(v))
    body = z3.Function("kept_%s_" % what + v.sort().name(), z3.BoolSort(), v.sort(), z3.BoolSort())(keep, z3.simplify(v))
    return register(eng, eng.stats, "STAT_%s_" % what, z3.Int("stk"), k, body, I(norm(src.shape[0])), (), z3.RealSort())


def rec_of_items(eng, items, lo):
    if items is None:
        n, get = lo.n, lo._get
        probe = get(eng.fresh("ap", "int"))
        if isinstance(probe, (Vec, tuple)):
            w = len(probe.items if isinstance(probe, Vec) else probe)

            def g2(i):
                r = get(i[0])
                r = r.items if isinstance(r, Vec) else r
                return eng.index_items(list(r), i[1])
            return ArrObj((n, w), get=g2)
        if isinstance(probe, Seq) and not getattr(probe, "shape", None):
            if consts_of_val_(probe.n) & {"ap"}:
                raise Unsupported("ragged array")
            dt = "cell" if is_cell(probe.get(eng.fresh("ap", "int"))) else "real"
            return ArrObj((n, probe.n), get=lambda i: scalar_of(eng, get(i[0]).get(i[1])), dtype=dt)
        if is_cell(probe):
            r = ArrObj((n,), get=lambda i: get(i[0]), dtype="cell")
            fl = getattr(lo, "filt", None)
            if fl is not None:
                m = ArrObj((fl[0],), get=lambda i: Z(fl[1](I(i[0]))), dtype="bool")
                r.masked = (ArrObj((fl[0],), get=lambda i: fl[2](I(i[0])), dtype="cell"), m)
                eng.assume(I(n) == count_true(eng, m))
            return r
        if as_num(probe) is None:
            raise Unsupported("array of non-numbers")
        return ArrObj((n,), get=lambda i: as_num(get(i[0])))
    subs = []
    for x in items:
        r = rec_of(eng, x)
        subs.append(r)
    if not items:
        return ArrObj((0,), items=[])
    if all(r is None for r in subs):
        xs = [x if is_bool(x) else scalar_of(eng, x) for x in items]
        bools = all(is_bool(x) for x in xs)
        return ArrObj((len(xs),), items=xs, dtype="bool" if bools else "int" if all(is_int(x) for x in xs) else "real")
    if any(r is None for r in subs) or any(not all(isinstance(s, int) for s in r.shape) for r in subs):
        raise Unsupported("ragged or symbolic nested array")
    sh = subs[0].shape
    if any(r.shape != sh for r in subs):
        raise Unsupported("ragged array")
    flat = []
    for r in subs:
        flat += flat_items(eng, r)
    return ArrObj((len(items),) + tuple(sh), items=flat)


def conc_shape(sh):
    return all(isinstance(s, int) for s in sh)


def size(sh):
    n = 1
    for s in sh:
        n *= s
    return n


def flat_items(eng, o):
    if o.items is not None:
        return list(o.items)
    if conc_shape(o.shape) and size(o.shape) <= 4096:
        import itertools
        return [norm(o.get_(ix)) for ix in itertools.product(*[range(s) for s in o.shape])]
    raise Unsupported("symbolic array where a concrete one is needed")


def flat_index(ix, shape):
    f = 0
    for i, s in zip(ix, shape):
        f = add(mul(f, s), i)
    return f


def arr_get(eng, o, ix):
    """Element at an index tuple already known to be in range."""
    ix = tuple(norm(i) for i in ix)
    if o.items is not None:
        return eng.index_items(o.items, norm(flat_index(ix, o.shape)))
    return o.get_(ix)


def arr_row(eng, o, i):
    if o.ndim == 1:
        return arr_get(eng, o, (i,))
    rest = o.shape[1:]
    if conc_shape(rest):
        import itertools
        items = [arr_get(eng, o, (i,) + ix) for ix in itertools.product(*[range(s) for s in rest])]
        if len(rest) == 1:
            return Vec(items, "np")
        return eng.alloc(ArrObj(rest, items=items, dtype=o.dtype))
    return eng.alloc(ArrObj(rest, get=lambda ix: arr_get(eng, o, (i,) + tuple(ix)), dtype=o.dtype))


def refresh(eng, ref):
    """A view with the element order of its base array, after the base was written to."""
    o = eng.obj(ref)
    rt = root(eng, ref)
    base = eng.st.heap[rt.id]
    n = o.clone(items=flat_items(eng, base))
    n.mat = None
    n.view, n.flatview = (rt.id, base), True
    eng.st.heap[ref.id] = n
    return n


def own(eng, ref):
    """The array about to be modified in place."""
    o = rec_of(eng, ref)
    if o.frozen:
        raise Unsupported("in-place change of a shared array")
    if getattr(o, "view", None) is not None and not getattr(o, "flatview", False):
        raise Unsupported("in-place change through a view")
    return o


def put(eng, ref, **kw):
    o = eng.obj(ref)
    n = o.clone(**kw)
    n.mat = None
    if getattr(o, "flatview", False):
        rt = root(eng, ref)
        put(eng, rt, items=list(kw["items"]))
        n.view, n.flatview = (rt.id, eng.st.heap[rt.id]), True
    eng.st.heap[ref.id] = n


def same_dim(eng, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if is_z3(a) and is_z3(b) and a.eq(b):
        return True
    return eng.solver.valid(eng.st.pc, Z(eq(a, b)))


def broadcast(eng, a, b):
    n = max(len(a), len(b))
    a1 = (1,) * (n - len(a)) + tuple(a)
    b1 = (1,) * (n - len(b)) + tuple(b)
    out = []
    for x, y in zip(a1, b1):
        if isinstance(x, int) and x == 1:
            out.append(y)
        elif isinstance(y, int) and y == 1:
            out.append(x)
        elif same_dim(eng, x, y):
            out.append(x)
        else:
            if isinstance(x, int) and isinstance(y, int):
                raise PyRaise("ValueError", "broadcast")
            raise Unsupported("broadcast of symbolic shapes")
    return tuple(out)


def bget(eng, rec, shape):
    off = len(shape) - rec.ndim

    def g(ix):
        sub_ = []
        for d in range(rec.ndim):
            s = rec.shape[d]
            sub_.append(0 if isinstance(s, int) and s == 1 else ix[d + off])
        return arr_get(eng, rec, tuple(sub_))
    return g


def elementwise(eng, f, a, b=None, total=True, dtype=None):
    """f applied elementwise; a, b values (arrays or scalars)."""
    ra = rec_of(eng, a)
    rb = rec_of(eng, b) if b is not None else None
    sa = () if ra is None else ra.shape
    sb = () if rb is None else rb.shape
    shape = broadcast(eng, sa, sb) if b is not None else sa
    ga = (lambda ix: a) if ra is None else bget(eng, ra, shape)
    gb = (lambda ix: b) if rb is None else bget(eng, rb, shape)
    if conc_shape(shape) and size(shape) <= 64:
        import itertools
        items = []
        for ix in itertools.product(*[range(s) for s in shape]):
            items.append(f(ga(ix), gb(ix)) if b is not None else f(ga(ix)))
        dt = dtype or ("bool" if items and all(is_bool(x) for x in items) else "real")
        return eng.alloc(ArrObj(shape, items=items, dtype=dt))
    if not total:
        raise Unsupported("partial operation on a symbolic array")
    g = (lambda ix: f(ga(ix), gb(ix))) if b is not None else (lambda ix: f(ga(ix)))
    n = ArrObj(shape, get=g, dtype=dtype or "real")
    fa, fb = getattr(ra, "flat_of", None), getattr(rb, "flat_of", None)
    if (fa is not None and rb is None) or (fb is not None and ra is None):
        h = (lambda ix: f(arr_get(eng, fa, ix), b) if b is not None else f(arr_get(eng, fa, ix))) if fa is not None else (lambda ix: f(a, arr_get(eng, fb, ix)))
        n.flat_of = ArrObj((fa if fa is not None else fb).shape, get=h, dtype=n.dtype)
    return eng.alloc(n)


def arr_map(eng, v, f, total=True, dtype=None):
    if rec_of(eng, v) is None:
        raise Unsupported("operand %r" % (v,))
    r = elementwise(eng, f, v, None, total, dtype)
    return r


def arr_fill(eng, ref, val):
    """ref[...] = val for a whole array (with broadcasting)."""
    o = own(eng, ref)
    rv = rec_of(eng, val)
    if rv is None:
        if not (is_num(val) or is_bool(val) or isinstance(val, (Dyn, NaN, Inf))):
            raise Unsupported("fill value")
        val = conv(o.dtype, val)
        if o.items is not None:
            put(eng, ref, items=[val] * len(o.items))
        else:
            put(eng, ref, get=lambda ix: val)
        return
    sh = broadcast(eng, o.shape, rv.shape)
    if len(sh) != len(o.shape):
        raise Unsupported("fill shape")
    g = bget(eng, rv, o.shape)
    if o.items is not None:
        import itertools
        put(eng, ref, items=[conv(o.dtype, g(ix)) for ix in itertools.product(*[range(s) for s in o.shape])])
    else:
        put(eng, ref, get=lambda ix: conv(o.dtype, g(ix)))


def conv(dtype, v):
    if dtype == "bool":
        if is_bool(v):
            return v
        return norm(cmp("!=", as_num(v), 0))
    if isinstance(v, (NaN, Inf)):
        return nan_const(v)
    n = as_num(v)
    if n is None:
        raise Unsupported("array element")
    if dtype == "int" and not is_int(n):
        raise Unsupported("real stored in an integer array")
    return n


NANC = z3.Real("nan_value")


def nan_const(v):
    if isinstance(v, NaN):
        return NANC
    raise Unsupported("infinity stored in an array")


def arr_seq(eng, r):
    s = Seq(r.shape[0], None, "arr")
    s.get = (lambda i: arr_get(eng, r, (i,))) if r.ndim == 1 else lambda ix: arr_get(eng, r, ix)
    s.shape, s.dtype = r.shape, r.dtype
    return s


def by_value(eng, v):
    """Immutable snapshot of a value."""
    if isinstance(v, Ref):
        o = eng.obj(v)
        if isinstance(o, ArrObj):
            o = rec_of(eng, v)
            if o.items is not None and o.ndim == 1:
                return Vec(o.items, "np")
            s = Seq(o.shape[0], None, "arr")
            s.shape = o.shape
            m = getattr(o, "masked", None)
            if m is not None:
                s.get = _nomask
                s.masked = tuple(arr_seq(eng, x) for x in m)
                return s
            if o.ndim == 1:
                s.get = lambda i: arr_get(eng, o, (i,))
            else:
                s.get = lambda ix: arr_get(eng, o, ix)
            return s
        if isinstance(o, ListObj):
            if o.items is not None:
                return Vec([by_value(eng, x) for x in o.items], "list")
            return Seq(o.n, o._get, "list")
        return v
    if isinstance(v, tuple):
        return tuple(by_value(eng, x) for x in v)
    return v


# ------------------------------------------------------------------------------- operators
SCAL = {ast.Add: add, ast.Sub: sub, ast.Mult: mul}


def gen_binop(eng, op, a, b):
    if isinstance(a, str) and isinstance(op, ast.Mod):
        return FmtStr(a, list(b) if isinstance(b, tuple) else [b])
    if isinstance(a, (str, FmtStr)) or isinstance(b, (str, FmtStr)) or is_text(a) or is_text(b):
        stringy = lambda x: isinstance(x, (str, FmtStr, Opaque)) or is_text(x)
        if isinstance(op, ast.Add) and stringy(a) and stringy(b):
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            lifted = lambda x: x if isinstance(x, FmtStr) else FmtStr(x, [], [x]) if isinstance(x, str) else FmtStr("{}", [x], [(0, None, [])])
            fa, fb = lifted(a), lifted(b)
            parts = None if fa.parts is None or fb.parts is None else fa.parts + shift_parts(fb.parts, len(fa.args))
            return FmtStr(fa.text + fb.text, fa.args + fb.args, parts)
        if isinstance(op, ast.Mult):
            s, n = (a, b) if isinstance(a, str) else (b, a)
            if isinstance(s, str) and isinstance(n, int):
                return s * n
            if isinstance(s, str) and is_int(n):
                return FmtStr("{*}", [s, n], [(0, "*", [(1, None, [])])])
        raise Unsupported("string operation")
    # list / tuple operators
    la = isinstance(a, Ref) and isinstance(eng.obj(a), ListObj)
    lb = isinstance(b, Ref) and isinstance(eng.obj(b), ListObj)
    if isinstance(op, ast.Add) and la and lb:
        return list_concat(eng, eng.obj(a), eng.obj(b))
    if isinstance(op, ast.Add) and isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    if isinstance(op, ast.Mult) and (la and is_int(b) or lb and is_int(a)):
        lo, n = (eng.obj(a), b) if la else (eng.obj(b), a)
        n = norm(n)
        if isinstance(n, int) and lo.items is not None:
            return eng.alloc(ListObj(items=list(lo.items) * max(n, 0)))
        if lo.items is not None and len(lo.items) == 1:
            x = lo.items[0]
            if isinstance(x, Ref):
                raise Unsupported("repeated mutable element")
            return eng.alloc(ListObj(n=ite(cmp(">", n, 0), n, 0), get=lambda i: x))
        raise Unsupported("list repetition")
    if la and not _arr(eng, b) or lb and not _arr(eng, a):
        raise PyRaise("TypeError", "list operand")
    if isinstance(op, ast.MatMult):
        return matmul(eng, a, b)
    ra = rec_of(eng, a)
    if getattr(ra, "masked", None) and rec_of(eng, b) is None:
        src, m = ra.masked
        r = ArrObj(ra.shape, get=_nomask, dtype=ra.dtype)
        r.masked_expr = (src, lambda x: eng.scalar_op(op, as_num(x), as_num(b)), m)
        return eng.alloc(r)
    f = SCAL.get(type(op))
    if f is not None:
        g = lambda x, y: f(as_num(x), as_num(y))
        return elementwise(eng, g, a, b)
    if isinstance(op, ast.Div):
        rb = rec_of(eng, b)
        if rb is None:
            nb = as_num(b)
            if is_conc(nb):
                if nb == 0:
                    raise Undef("division by zero")
            elif eng.choose(cmp("==", nb, 0)):
                raise Undef("division by zero")
            return elementwise(eng, lambda x, y: R(x) / R(y) if not (is_conc(x) and is_conc(y)) else Fraction(x) / y, a, b)
        return elementwise(eng, eng.div, a, b, total=False)
    if isinstance(op, ast.Pow):
        nb = norm(as_num(b)) if as_num(b) is not None else None
        if is_conc(nb) and Fraction(nb).denominator == 1 and 0 <= nb <= 12:
            return elementwise(eng, lambda x, y: eng.power(as_num(x), nb), a, b)
        return elementwise(eng, eng.power, a, b, total=False)
    if isinstance(op, ast.FloorDiv):
        nb = norm(as_num(b)) if as_num(b) is not None else None
        if is_conc(nb) and nb > 0:
            return elementwise(eng, lambda x, y: eng.floor(R(x) / R(nb) if not is_conc(x) else Fraction(x) / nb), a, b)
        raise Unsupported("array floor division")
    if isinstance(op, (ast.BitAnd, ast.BitOr)):
        f = zand if isinstance(op, ast.BitAnd) else zor
        if is_bool(a) and is_bool(b):
            return norm(f(a, b))
        return elementwise(eng, lambda x, y: norm(f(x, y)), a, b, dtype="bool")
    raise Unsupported("operator %s" % type(op).__name__)


def _arr(eng, v):
    return isinstance(v, Ref) and isinstance(eng.obj(v), ArrObj) or isinstance(v, Vec) and v.kind == "np"


def gen_compare(eng, o, a, b):
    if _arr(eng, a) or _arr(eng, b):
        return elementwise(eng, lambda x, y: norm(cmp(o, x, y)), a, b, dtype="bool")
    if isinstance(a, (tuple, Vec)) and isinstance(b, (tuple, Vec)) and o in ("<", "<=", ">", ">="):
        raise Unsupported("ordering of sequences")
    la = isinstance(a, Ref) and isinstance(eng.obj(a), ListObj)
    lb = isinstance(b, Ref) and isinstance(eng.obj(b), ListObj)
    if la and lb and o in ("==", "!="):
        x, y = eng.obj(a), eng.obj(b)
        if x.items is not None and y.items is not None:
            if len(x.items) != len(y.items):
                return o == "!="
            r = zand(*[eng.compare(ast.Eq(), p, q) for p, q in zip(x.items, y.items)])
            return r if o == "==" else znot(r)
    raise Unsupported("comparison of %r and %r" % (type(a).__name__, type(b).__name__))


def list_concat(eng, x, y):
    if x.items is not None and y.items is not None:
        return eng.alloc(ListObj(items=list(x.items) + list(y.items)))
    n1 = x.n
    gx = seq_getter(eng, x)
    gy = seq_getter(eng, y)

    def get(i):
        c = norm(cmp("<", i, n1))
        if c is True:
            return gx(i)
        if c is False:
            return gy(sub(i, n1))
        return ite(c, gx(i), gy(sub(i, n1)))
    return eng.alloc(ListObj(n=add(n1, y.n), get=get))


def seq_getter(eng, lo):
    if lo.items is not None:
        return lambda i: eng.index_items(lo.items, i)
    return lo._get


# ------------------------------------------------------------------------------- indexing
def slice_bounds(eng, s, n):
    """start, length for a step-1 slice; forks on symbolic bounds."""
    if s.step is not None and norm(s.step) != 1:
        raise Unsupported("slice step")

    def lim(v, default):
        if v is None:
            return default
        v = norm(v)
        if not is_int(v):
            raise PyRaise("TypeError", "slice index")
        if eng.choose(cmp("<", v, 0)):
            v = add(v, n)
            if eng.choose(cmp("<", v, 0)):
                v = 0
        return norm(n if eng.choose(cmp(">", v, n)) else v)
    a = lim(s.start, 0)
    b = lim(s.stop, n)
    if eng.choose(cmp("<", b, a)):
        return a, 0
    return a, norm(sub(b, a))


def getitem(eng, b, i):
    if isinstance(b, MaskIndex):
        if rec_of(eng, b.ref).ndim == 1 and norm(i) == 0:
            return b
        raise Unsupported("element of the positions of a mask")
    if isinstance(b, str):
        if isinstance(i, int):
            return b[i]
        raise Unsupported("string index")
    if isinstance(b, (tuple, Vec)):
        items = list(b) if isinstance(b, tuple) else list(b.items)
        if isinstance(i, slice):
            lo, hi, st = [None if x is None else norm(x) for x in (i.start, i.stop, i.step)]
            if any(x is not None and not isinstance(x, int) for x in (lo, hi, st)):
                raise Unsupported("symbolic slice of a tuple")
            out = items[lo:hi:st]
            if isinstance(b, tuple):
                return tuple(out)
            if b.kind == "list":
                return eng.alloc(ListObj(items=out))
            return Vec(out, b.kind)
        if isinstance(i, tuple) and len(i) == 1:
            i = i[0]
        return eng.index_items(items, eng.norm_index(i, len(items)))
    if isinstance(b, Dyn):
        ok = z3.Or(b.tag == Dyn.TUPLE, b.tag == Dyn.LIST)
        if not eng.choose(ok):
            raise PyRaise("TypeError", "not subscriptable")
        if isinstance(i, slice):
            lo, hi = i.start or 0, i.stop
            if isinstance(lo, int) and isinstance(hi, int) and i.step is None and 0 <= lo <= hi <= len(b.elems):
                if eng.choose(cmp(">=", b.n, hi)):
                    return Vec(b.elems[lo:hi], "mixed")
            q = eng.as_seq(b)
            if not isinstance(q.n, int):
                raise Unsupported("slice of a dynamic value")
            return getitem(eng, Vec([q.get(j) for j in range(q.n)], "mixed"), i)
        i = norm(i)
        if not isinstance(i, int):
            for m in range(-len(b.elems), len(b.elems)):
                if eng.choose(eq(i, m)):
                    return getitem(eng, b, m)
            raise Unsupported("symbolic index into a dynamic value")
        if i < 0:
            for m in range(1, len(b.elems) + 1):
                if eng.choose(eq(b.n, m)):
                    if m + i < 0:
                        raise PyRaise("IndexError")
                    return b.elems[m + i]
            if b.fn is None:
                raise Unsupported("index into a dynamic value")
            if eng.choose(cmp("<", add(b.n, i), 0)):
                raise PyRaise("IndexError")
            return b.fn(add(b.n, i))
        if not eng.choose(cmp("<", i, b.n)):
            raise PyRaise("IndexError")
        if i >= len(b.elems):
            if b.fn is None:
                raise Unsupported("index into a dynamic value")
            return b.fn(I(i))
        return b.elems[i]
    if isinstance(b, Seq):
        if isinstance(i, slice):
            if i.start is None and i.stop is None and norm(i.step) == -1:
                return Seq(b.n, lambda k: b.get(sub(sub(b.n, 1), k)), b.kind)
            a, n = slice_bounds(eng, i, b.n)
            return Seq(n, lambda k: b.get(add(a, k)), b.kind)
        return b.get(eng.norm_index(i, b.n))
    if isinstance(b, Ref):
        o = eng.obj(b)
        if isinstance(o, DictObj):
            if i in o.items:
                return o.items[i]
            raise PyRaise("KeyError")
        if isinstance(o, ListObj):
            if isinstance(i, slice):
                if i.start is None and i.stop is None and i.step is not None and norm(i.step) == -1:
                    g = seq_getter(eng, o)
                    n = o.n
                    if o.items is not None:
                        return eng.alloc(ListObj(items=list(reversed(o.items))))
                    return eng.alloc(ListObj(n=n, get=lambda k: g(sub(sub(n, 1), k))))
                if o.items is not None:
                    lo, hi, st = [None if x is None else norm(x) for x in (i.start, i.stop, i.step)]
                    if all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                        return eng.alloc(ListObj(items=o.items[lo:hi:st]))
                a, n = slice_bounds(eng, i, o.n)
                g = seq_getter(eng, o)
                return eng.alloc(ListObj(n=n, get=lambda k: g(add(a, k))))
            k = eng.norm_index(i, o.n)
            if o.items is not None:
                return eng.index_items(o.items, k)
            return o._get(k)
        if isinstance(o, ArrObj):
            return arr_index(eng, b, i)
        if isinstance(o, ExtObj):
            return obj_getitem(eng, b, o, i)
    if isinstance(b, Opaque):
        return opaque_index(eng, b, i)
    raise Unsupported("subscript of %r" % (b,))


def arr_index(eng, ref, i):
    if isinstance(i, MaskIndex):
        i = i.ref
    o = rec_of(eng, ref)
    if isinstance(i, Ref) and isinstance(eng.obj(i), ArrObj) and eng.obj(i).dtype == "bool":
        m = rec_of(eng, i)
        if conc_shape(o.shape) and m.items is not None and m.shape == o.shape and all(isinstance(norm(x), bool) for x in m.items):
            its = flat_items(eng, o)
            return eng.alloc(ArrObj((sum(1 for x in m.items if norm(x)),),
                                    items=[v for v, k in zip(its, m.items) if norm(k)], dtype=o.dtype))
        one = o.ndim == 1 and m.ndim == 1 and same_dim(eng, o.shape[0], m.shape[0]) and not getattr(o, "masked", None)
        r = ArrObj((count_true(eng, m) if one else eng.fresh("masked_n", "int"),), get=_nomask, dtype=o.dtype)
        r.masked = (o, m)
        return eng.alloc(r)
    idx = i if isinstance(i, tuple) else (i,)
    if any(x is None for x in idx):
        raise Unsupported("newaxis")
    if any(isinstance(x, Ref) for x in idx):
        raise Unsupported("array index")
    if len(idx) > o.ndim:
        raise PyRaise("IndexError")
    idx = tuple(idx) + (slice(None),) * (o.ndim - len(idx))
    out_shape, plan = [], []
    for d, x in enumerate(idx):
        n = o.shape[d]
        if isinstance(x, slice):
            if x.step is not None and norm(x.step) == -1 and x.start is None and x.stop is None:
                plan.append(("rev", n))
                out_shape.append(n)
                continue
            a, ln = slice_bounds(eng, x, n)
            plan.append(("sl", a))
            out_shape.append(ln)
        else:
            plan.append(("ix", eng.norm_index(x, n)))
    if not out_shape:
        return arr_get(eng, o, tuple(p[1] for p in plan))

    def g(ix):
        full, k = [], 0
        for p in plan:
            if p[0] == "ix":
                full.append(p[1])
            elif p[0] == "rev":
                full.append(sub(sub(p[1], 1), ix[k]))
                k += 1
            else:
                full.append(add(p[1], ix[k]))
                k += 1
        return arr_get(eng, o, tuple(full))
    return make_view(eng, ref, out_shape, g, o.dtype)


def _nomask(ix):
    raise Unsupported("element of a masked selection")


def root(eng, ref):
    o = eng.obj(ref)
    view = getattr(o, "view", None)
    return ref if view is None else root(eng, Ref(view[0]))


def make_view(eng, ref, shape, g, dtype):
    if conc_shape(shape) and size(shape) <= 64:
        import itertools
        r = ArrObj(shape, items=[g(ix) for ix in itertools.product(*[range(s) for s in shape])], dtype=dtype)
    else:
        r = ArrObj(shape, get=g, dtype=dtype)
    rt = root(eng, ref)
    r.view = (rt.id, eng.st.heap[rt.id])
    return eng.alloc(r)


def setitem(eng, b, i, v):
    if isinstance(b, Ref):
        o = eng.obj(b)
        if isinstance(o, DictObj):
            if not isinstance(i, (str, int)):
                raise Unsupported("dict key")
            d = dict(o.items)
            d[i] = v
            eng.st.heap[b.id] = DictObj(d)
            return
        if isinstance(o, ListObj):
            if isinstance(i, slice):
                raise Unsupported("slice assignment to a list")
            if o.frozen:
                raise Unsupported("change of a shared list")
            k = eng.norm_index(i, o.n)
            k = norm(k)
            if o.items is not None and isinstance(k, int):
                items = list(o.items)
                items[k] = v
                eng.st.heap[b.id] = o.clone(items=items)
                return
            vv = by_value(eng, v)
            g = seq_getter(eng, o)
            r = ListObj(n=o.n, get=lambda x: vv if x is k or is_z3(x) and is_z3(k) and x.eq(k) else ite(norm(zsimp(eq(x, k))), vv, g(x)))
            if getattr(o, "origin", None) is not None:
                r.origin, r.app = o.origin, getattr(o, "app", ())
                r.stores = getattr(o, "stores", ()) + ((k, vv),)
            eng.st.heap[b.id] = r
            return
        if isinstance(o, ArrObj):
            return arr_store(eng, b, i, v)
    if isinstance(b, (tuple,)) or isinstance(b, str):
        raise PyRaise("TypeError", "item assignment")
    raise Unsupported("item assignment to %r" % (b,))


def arr_store(eng, ref, i, v):
    if isinstance(i, MaskIndex):
        i = i.ref
    o = own(eng, ref)
    if isinstance(i, slice) and i.start is None and i.stop is None and i.step is None or i is Ellipsis or \
            isinstance(i, Opaque) and i.path == "Ellipsis":
        return arr_fill(eng, ref, v)
    if isinstance(i, Ref) and isinstance(eng.obj(i), ArrObj) and eng.obj(i).dtype == "bool":
        m = rec_of(eng, i)
        if len(m.shape) != len(o.shape) or not all(same_dim(eng, x, y) for x, y in zip(m.shape, o.shape)):
            raise Unsupported("mask shape")
        og, mg = (lambda ix: arr_get(eng, o, ix)), (lambda ix: arr_get(eng, m, ix))
        rv = rec_of(eng, v)
        if rv is not None and getattr(rv, "masked_expr", None) is not None:
            src, f, m2 = rv.masked_expr
            if m2 is not m:
                raise Unsupported("mask mismatch")
            new = lambda ix: ite(mg(ix), conv(o.dtype, f(arr_get(eng, src, ix))), og(ix))
        elif rv is None:
            new = lambda ix: ite(mg(ix), conv(o.dtype, v), og(ix))
        else:
            raise Unsupported("masked assignment of an array")
        if o.items is not None:
            import itertools
            put(eng, ref, items=[new(ix) for ix in itertools.product(*[range(s) for s in o.shape])])
        else:
            put(eng, ref, get=new)
        return
    idx = i if isinstance(i, tuple) else (i,)
    if len(idx) > o.ndim:
        raise PyRaise("IndexError")
    idx = tuple(idx) + (slice(None),) * (o.ndim - len(idx))
    plan, shape = [], []
    for d, x in enumerate(idx):
        n = o.shape[d]
        if isinstance(x, slice):
            a, ln = slice_bounds(eng, x, n)
            plan.append(("sl", a, ln))
            shape.append(ln)
        elif is_int(x):
            plan.append(("ix", eng.norm_index(x, n)))
        else:
            raise Unsupported("array index in assignment")
    rv = rec_of(eng, v)
    if rv is None:
        vget = lambda ix: conv(o.dtype, v)
    else:
        if shape == [] and rv.items is not None and len(rv.items) == 1:
            x0 = rv.items[0]
            vget = lambda ix: conv(o.dtype, x0)
        else:
            vs = tuple(rv.shape)
            while len(vs) > len(shape) and isinstance(vs[0], int) and vs[0] == 1:
                raise Unsupported("assignment shape")
            if len(vs) > len(shape):
                raise PyRaise("ValueError", "assignment shape")
            tgt = tuple(shape)
            for x, y in zip(vs[::-1], tgt[::-1]):
                if not (isinstance(x, int) and x == 1) and not same_dim(eng, x, y):
                    if isinstance(x, int) and isinstance(y, int):
                        raise PyRaise("ValueError", "assignment shape")
                    eng.shape_check(x, y)
            g0 = bget(eng, rv, tgt)
            vget = lambda ix: conv(o.dtype, g0(ix))
    og = lambda ix: arr_get(eng, o, ix)

    def new(ix):
        conds, sub_ = [], []
        for p, k in zip(plan, ix):
            if p[0] == "ix":
                conds.append(norm(eq(k, p[1])))
            else:
                if not (is_conc(p[1]) and p[1] == 0):
                    conds.append(norm(cmp(">=", k, p[1])))
                full = isinstance(p[2], int) and isinstance(k, int)
                conds.append(norm(cmp("<", k, add(p[1], p[2]))))
                sub_.append(norm(sub(k, p[1])))
        c = norm(zand(*conds))
        if c is False:
            return og(ix)
        if c is True:
            return vget(tuple(sub_))
        return ite(c, vget(tuple(sub_)), og(ix))
    if o.items is not None:
        import itertools
        put(eng, ref, items=[new(ix) for ix in itertools.product(*[range(s) for s in o.shape])])
    else:
        put(eng, ref, get=new)


# ------------------------------------------------------------------------------- lists
def list_append(eng, ref, v):
    o = eng.obj(ref)
    if o.frozen:
        raise Unsupported("change of a shared list")
    h = getattr(eng.contract, "on_append", None)
    if h is not None:
        h(eng, ref, o, by_value(eng, v))
    if o.items is not None:
        eng.st.heap[ref.id] = o.clone(items=list(o.items) + [v])
        return
    vv = by_value(eng, v)
    if isinstance(v, Ref) and isinstance(eng.obj(v), (ArrObj, ListObj)):
        eng.st.heap[v.id] = eng.obj(v).clone(frozen=True)      # the list holds a snapshot: no change from here on
    n, g = o.n, o._get
    r = ListObj(n=add(n, 1), get=lambda i: ite(norm(eq(i, n)), vv, g(i)))
    r.app = getattr(o, "app", ()) + (vv,)
    r.origin = getattr(o, "origin", None)
    r.stores = getattr(o, "stores", ())
    r.prev = (o, vv)
    eng.st.heap[ref.id] = r


def list_extend(eng, ref, v):
    o = eng.obj(ref)
    s = eng.as_seq(v)
    n = norm(s.n) if not isinstance(s.n, int) else s.n
    if isinstance(n, int):
        for i in range(n):
            list_append(eng, ref, s.get(i))
        return
    g0 = seq_getter(eng, o)
    n0 = o.n
    r = ListObj(n=add(n0, n), get=lambda i: ite(norm(cmp("<", i, n0)), g0(i), s.get(sub(i, n0))))
    r.prev_seq = (o, s, n)
    eng.st.heap[ref.id] = r


def list_pop(eng, ref, i):
    o = eng.obj(ref)
    if not isinstance(o, ListObj) or o.frozen:
        raise Unsupported("pop")
    i = norm(i)
    if o.items is None or not isinstance(i, int):
        if o.items is not None:
            k = eng.norm_index(i, len(o.items))
            for j in range(len(o.items)):
                if eng.choose(eq(k, j)):
                    return list_pop(eng, ref, j)
            raise Infeasible()
        if o._get is None:
            raise Unsupported("pop from a symbolic list")
        n, g = o.n, o._get
        if not eng.choose(zand(cmp(">=", i, 0), cmp("<", i, n))):
            if eng.choose(zor(cmp(">=", i, n), cmp("<", add(i, n), 0))):
                raise PyRaise("IndexError", "pop index out of range")
            i = norm(add(i, n))
        v = g(i)
        eng.st.heap[ref.id] = ListObj(n=norm(sub(n, 1)), get=lambda j: ite_any(eng, cmp("<", j, i), lambda: g(j), lambda: g(add(j, 1))))
        return v
    if not o.items:
        raise PyRaise("IndexError")
    k = eng.norm_index(i, len(o.items))
    items = list(o.items)
    v = items.pop(k)
    eng.st.heap[ref.id] = o.clone(items=items)
    return v


def ite_any(eng, c, a, b):
    c = norm(c)
    if isinstance(c, bool):
        return a() if c else b()
    return ite(c, a(), b())


def list_insert(eng, ref, i, v):
    o = eng.obj(ref)
    if o.frozen or o.items is None and o._get is None:
        raise Unsupported("insert into a symbolic list")
    i = norm(i)
    if o.items is None:
        n, g = o.n, o._get
        v = by_value(eng, v)
        if not eng.choose(zand(cmp(">=", i, 0), cmp("<=", i, n))):
            raise Unsupported("insert outside of the list")
        eng.st.heap[ref.id] = ListObj(n=norm(add(n, 1)), get=lambda j: ite_any(
            eng, cmp("<", j, i), lambda: g(j), lambda: ite_any(eng, eq(j, i), lambda: v, lambda: g(sub(j, 1)))))
        return
    if not isinstance(i, int):
        for j in range(len(o.items) + 1):
            if eng.choose(eq(i, j)):
                return list_insert(eng, ref, j, v)
        raise Unsupported("symbolic insert position")
    items = list(o.items)
    items.insert(i, v)
    eng.st.heap[ref.id] = o.clone(items=items)


# ------------------------------------------------------------------------------- events
def event(eng, name, *args):
    ev = Ref("events")
    if "events" not in eng.st.heap:
        eng.st.heap["events"] = ListObj(items=[])
    list_append(eng, ev, Vec((name,) + tuple(by_value(eng, a) for a in args), "event"))


def kwvec(eng, kw):
    return Vec([Vec((k, by_value(eng, kw[k])), "tuple") for k in sorted(kw)], "event")


# ------------------------------------------------------------------------------- attributes
CONST = {"numpy.pi": lambda: PI, "math.pi": lambda: PI, "numpy.inf": lambda: Inf(1), "math.inf": lambda: Inf(1),
         "numpy.Inf": lambda: Inf(1), "numpy.nan": lambda: NaN(), "math.nan": lambda: NaN(), "numpy.NaN": lambda: NaN(),
         "numpy.newaxis": lambda: None, "math.tau": lambda: z3.RealVal(2) * PI}


def ext_attr(eng, v, name):
    p = v.path + "." + name
    p = {"np": "numpy"}.get(p, p)
    if p in CONST:
        return CONST[p]()
    return Ext(p)


def method(name, fn):
    return Native(name, fn)


def obj_attr(eng, ref, o, name):
    if isinstance(o, ListObj):
        if name == "append":
            return method("append", lambda e, a, k: list_append(e, ref, a[0]))
        if name == "extend":
            return method("extend", lambda e, a, k: list_extend(e, ref, a[0]))
        if name == "pop":
            return method("pop", lambda e, a, k: list_pop(e, ref, a[0] if a else -1))
        if name == "insert":
            return method("insert", lambda e, a, k: list_insert(e, ref, a[0], a[1]))
        if name == "copy":
            return method("copy", lambda e, a, k: e.alloc(e.obj(ref).clone(frozen=False)))
        if name == "clear":
            def clr(e, a, k):
                e.st.heap[ref.id] = ListObj(items=[])
            return method("clear", clr)
        raise Unsupported("list method %s" % name)
    if isinstance(o, ArrObj):
        return arr_attr(eng, ref, o, name)
    if isinstance(o, DictObj):
        if name == "items":
            return method("items", lambda e, a, k: Seq(len(o.items), lambda i: list(o.items.items())[i]))
        if name == "keys":
            return method("keys", lambda e, a, k: Seq(len(o.items), lambda i: list(o.items)[i]))
        if name == "values":
            return method("values", lambda e, a, k: Seq(len(o.items), lambda i: list(o.items.values())[i]))
        if name == "get":
            return method("get", lambda e, a, k: e.obj(ref).items.get(a[0], a[1] if len(a) > 1 else None))
        if name == "update":
            def upd(e, a, k):
                d = dict(e.obj(ref).items)
                if a:
                    d.update(e.obj(a[0]).items)
                d.update(k)
                e.st.heap[ref.id] = DictObj(d)
            return method("update", upd)
        if name == "pop":
            def dpop(e, a, k):
                d = dict(e.obj(ref).items)
                if not isinstance(a[0], str):
                    raise Unsupported("dict key")
                if a[0] not in d:
                    if len(a) > 1:
                        return a[1]
                    raise PyRaise("KeyError")
                v = d.pop(a[0])
                e.st.heap[ref.id] = DictObj(d)
                return v
            return method("pop", dpop)
        if name == "copy":
            return method("copy", lambda e, a, k: e.alloc(DictObj(dict(e.obj(ref).items))))
        raise Unsupported("dict method %s" % name)
    if isinstance(o, ExtObj):
        return ext_obj_attr(eng, ref, o, name)
    raise Unsupported("attribute %s" % name)


def ext_obj_attr(eng, ref, o, name):
    if o.kind == "rng":
        if name in ("random", "random_sample"):
            return method("rng." + name, lambda e, a, k: x_numpy_random_random(e, a, k))
        return method("rng." + name, lambda e, a, k: random_call(e, name, a, k, ref))
    if o.kind == "recorder":
        # an object whose methods only record that they were called (contract stand-in)
        attrs = o.data.get("attrs", {})
        if name in attrs:
            return attrs[name]

        def rec(e, a, k):
            h = o.data.get("handler")
            if h is not None:
                return h(e, name, a, k)
            event(e, o.data["name"] + "." + name, *a, kwvec(e, k))
            return None
        return method(o.data["name"] + "." + name, rec)
    if o.kind == "stringio":
        if name == "write":
            def wr(e, a, k):
                list_append(e, o.data["chunks"], a[0])
                return Opaque("written")
            return method("write", wr)
        if name == "writelines":
            return method("writelines", lambda e, a, k: list_extend(e, o.data["chunks"], a[0]))
        if name == "getvalue":
            return method("getvalue", lambda e, a, k: Opaque("getvalue", ref))
    if o.kind == "exception":
        return Opaque("exception." + name)
    h = getattr(eng.contract, "ext_attr", None)
    r = h(eng, ref, o, name) if h is not None else NotImplemented
    if r is not NotImplemented:
        return r
    raise Unsupported("attribute %s of %s" % (name, o.kind))


def obj_getitem(eng, ref, o, i):
    raise Unsupported("subscript of %s" % o.kind)


def arr_attr(eng, ref, o, name):
    if name == "shape":
        return tuple(o.shape)
    if name == "ndim":
        return o.ndim
    if name == "size":
        n = 1
        for s in o.shape:
            n = mul(n, s)
        return n
    if name == "T":
        return ext_call(eng, "numpy.transpose", [ref], {})
    if name == "dtype":
        return {"real": BUILTINS["float"], "bool": BUILTINS["bool"], "int": BUILTINS["int"]}.get(o.dtype) or Opaque("dtype")
    npf = {"nonzero": "numpy.nonzero", "sum": "numpy.sum", "min": "numpy.min", "max": "numpy.max", "reshape": None, "dot": "numpy.dot",
           "ravel": "numpy.ravel", "transpose": "numpy.transpose", "argmax": "numpy.argmax", "any": "numpy.any",
           "all": "numpy.all", "mean": "numpy.mean", "std": "numpy.std", "clip": "numpy.clip"}
    if name == "copy":
        return method("copy", lambda e, a, k: copy_arr(e, ref))
    if name == "flatten":
        return method("flatten", lambda e, a, k: copy_arr(e, ext_call(e, "numpy.ravel", [ref], {})))
    if name == "fill":
        return method("fill", lambda e, a, k: arr_fill(e, ref, a[0]))
    if name == "tolist":
        def tl(e, a, k):
            r = rec_of(e, ref)
            if r.ndim != 1:
                raise Unsupported("tolist")
            if r.items is not None:
                return e.alloc(ListObj(items=list(r.items)))
            return e.alloc(ListObj(n=r.shape[0], get=lambda i: arr_get(e, r, (i,))))
        return method("tolist", tl)
    if name == "sort" and o.ndim == 1:
        def so(e, a, k):
            r = own(e, ref)
            if a or k:
                raise Unsupported("sort arguments")
            q = rec_of(e, x_numpy_sort(e, [ref], {}))
            if q.items is not None or r.items is not None or getattr(r, "view", None) is not None:
                raise Unsupported("sort in place")
            put(e, ref, get=q.get_)
        return method("sort", so)
    if name == "reshape":
        def rs(e, a, k):
            sh = a[0] if len(a) == 1 else tuple(a)
            return ext_call(e, "numpy.reshape", [ref, sh], k)
        return method("reshape", rs)
    if name == "astype":
        def at(e, a, k):
            r = rec_of(e, ref)
            ty = as_type(e, a[0]).names[0] if not isinstance(a[0], str) else a[0]
            if ty == "float" and r.dtype in ("real", "int"):
                return copy_arr(e, ref)
            raise Unsupported("astype")
        return method("astype", at)
    if name in npf:
        return method(name, lambda e, a, k: ext_call(e, npf[name], [ref] + list(a), k))
    raise Unsupported("array attribute %s" % name)


def copy_arr(eng, v):
    r = rec_of(eng, v)
    n = ArrObj(r.shape, get=r.get_, items=None if r.items is None else list(r.items), dtype=r.dtype, mat=r.mat)
    if getattr(r, "masked", None):
        n.masked = r.masked
    if getattr(r, "flat_of", None) is not None:
        n.flat_of = r.flat_of
    return eng.alloc(n)


def opaque_attr(eng, v, name):
    if v.path == "finfo":
        if name == "eps":
            return Fraction(1, 2 ** 52)
        if name == "tiny":
            return Fraction(1, 2 ** 1022)
        raise Unsupported("finfo.%s" % name)
    if v.path == "logger":
        return Native("logger." + name, lambda e, a, k: log_call(e, name, a, k))
    if v.path == "datetime":
        return Native("datetime." + name, lambda e, a, k: Opaque("datetime." + name, list(a)))
    if isinstance(v.data, dict) and name in v.data:
        return v.data[name]
    return Opaque(v.path + "." + name, v)


def log_call(eng, name, a, k):
    h = getattr(eng.contract, "on_log", None)
    if h is not None:
        h(eng, name, a)
    return None


def opaque_call(eng, f, args, kwargs):
    h = getattr(eng.contract, "on_opaque_call", None)
    if h is not None:
        return h(eng, f, args, kwargs)
    raise Unsupported("call of external value %s" % f.path)


def opaque_index(eng, b, i):
    raise Unsupported("subscript of external value %s" % b.path)


def seq_attr(eng, v, name):
    if isinstance(v, Vec) and v.kind == "np":
        return arr_attr(eng, eng.alloc(rec_of(eng, v)), rec_of(eng, v), name)
    if name == "index" or name == "count":
        raise Unsupported("sequence method %s" % name)
    if isinstance(v, Seq) and getattr(v, "shape", None):
        r = eng.alloc(rec_of(eng, v))
        return arr_attr(eng, r, eng.obj(r), name)
    raise Unsupported("attribute %s of a sequence" % name)


def num_attr(eng, v, name):
    if name == "real":
        return v
    if name in ("item",):
        return Native("item", lambda e, a, k: v)
    if name == "is_integer":
        return Native("is_integer", lambda e, a, k: eq(v, z3.ToReal(z3.ToInt(R(v)))))
    raise Unsupported("attribute %s of a number" % name)


def template_parts(t, npos, kws):
    """The pieces of a format template, with indices into the arguments (positional ones, then the keywords); None where
    it is not understood."""
    import string
    auto = [0]

    def go(t):
        out = []
        for lit, field, spec, conv in string.Formatter().parse(t):
            if lit:
                out.append(lit)
            if field is None:
                continue
            if field == "":
                k = auto[0]
                auto[0] += 1
            elif field.isdigit():
                k = int(field)
            elif field in kws:
                k = npos + kws.index(field)
            else:
                raise ValueError(field)
            if k >= npos + len(kws):
                raise ValueError(field)
            out.append((k, conv, go(spec) if spec else []))
        return out
    try:
        return go(t)
    except ValueError:
        return None


def text_parts(v):
    """A text as a list of pieces: strings and (value, conversion, pieces of the format specification); None if unknown."""
    if isinstance(v, str):
        return [v] if v else []
    if is_text(v):
        return [(v, None, [])]
    if isinstance(v, Opaque):
        return [(v, None, [])]
    if not isinstance(v, FmtStr) or v.parts is None:
        return None

    def go(ps):
        out = []
        for p in ps:
            if isinstance(p, str):
                out.append(p)
                continue
            x = v.args[p[0]]
            if p[1] == "join":
                out.append((x, "join", [v.args[0]]))
                continue
            spec = go(p[2])
            if spec is None:
                return None
            if not spec and p[1] in (None, "s") and isinstance(x, (str, FmtStr)):
                q = text_parts(x)
                if q is None:
                    return None
                out += q
            elif len(spec) == 1 and isinstance(spec[0], tuple) and isinstance(spec[0][0], str) and not spec[0][2]:
                out.append((x, p[1], [spec[0][0]]))
            else:
                out.append((x, p[1], spec))
        return out
    return go(v.parts)


def shift_parts(ps, d):
    return [p if isinstance(p, str) else (p[0] + d, p[1], shift_parts(p[2], d)) for p in ps]


def str_method(eng, s, name, a, k):
    if name == "format":
        args = list(a) + [k[x] for x in sorted(k)]
        t = s if isinstance(s, str) else s.text
        parts = template_parts(s, len(a), sorted(k)) if isinstance(s, str) else None
        if k:
            t = t + "|" + ",".join(sorted(k))
        return FmtStr(t, args, parts)
    if name == "join":
        return FmtStr("{join}", [s] + list(a), [(1, "join", [(0, None, [])])])
    if isinstance(s, str) and all(isinstance(x, (str, int)) for x in a) and name in (
            "ljust", "rjust", "center", "strip", "rstrip", "lstrip", "upper", "lower", "replace", "startswith",
            "endswith", "split", "title"):
        r = getattr(s, name)(*a)
        return eng.alloc(ListObj(items=r)) if isinstance(r, list) else r
    raise Unsupported("string method %s" % name)


def enter(eng, v):
    if isinstance(v, Ref) and isinstance(eng.obj(v), ExtObj) and eng.obj(v).kind in ("file", "errstate"):
        return v
    if isinstance(v, Opaque) and v.path in ("errstate", "warnings"):
        return v
    raise Unsupported("context manager")


def exit(eng, v):
    if isinstance(v, Ref) and eng.obj(v).kind == "file":
        event(eng, "close", v)


# ------------------------------------------------------------------------------- library calls
def ext_call(eng, path, args, kw):
    path = ALIAS.get(path, path)
    h = getattr(eng.contract, "ext", None)
    if h is not None:
        r = h(eng, path, args, kw)
        if r is not NotImplemented:
            return r
    eng.used_models.add(path)
    name = "x_" + path.replace(".", "_")
    f = globals().get(name)
    if f is not None:
        return f(eng, args, kw)
    if path.startswith("matplotlib.pyplot."):
        event(eng, "plt." + path.split(".")[-1], *args, kwvec(eng, kw))
        return None
    if path.split(".")[-1] in V_EXC and path.startswith("builtins."):
        return eng.alloc(ExtObj("exception", {"cls": path, "args": args}))
    raise Unsupported("call of %s" % path)


import builtins as _b
V_EXC = {n for n in dir(_b) if isinstance(getattr(_b, n), type) and issubclass(getattr(_b, n), BaseException)}


def x_builtins_len(eng, a, k):
    v = a[0]
    if isinstance(v, Dyn):
        if not eng.choose(z3.Or(v.tag == Dyn.TUPLE, v.tag == Dyn.LIST, v.tag == Dyn.STR)):
            raise PyRaise("TypeError", "len")
        return v.n
    if isinstance(v, str):
        return len(v)
    if isinstance(v, FmtStr) or is_text(v):
        args = [v] if is_text(v) else v.args
        zs = [x for x in args if isinstance(x, z3.ExprRef)]
        nm = "strlen(%s|%s)" % ("" if is_text(v) else v.text, ",".join("#" if isinstance(x, z3.ExprRef) else str(x) for x in args))
        r = z3.Function(nm, *([x.sort() for x in zs] + [z3.IntSort()]))(*zs) if zs else z3.Int(nm)
        eng.assume(r >= 0)
        return r
    if isinstance(v, (int, Fraction, Iter)) or v is None or is_num(v):
        raise PyRaise("TypeError", "len")
    if isinstance(v, Ref) and isinstance(eng.obj(v), ArrObj):
        return rec_of(eng, v).shape[0]
    return eng.as_seq(v).n


def x_builtins_range(eng, a, k):
    a = [x.num if isinstance(x, Dyn) else x for x in a]
    for x in a:
        if not is_int(x):
            raise PyRaise("TypeError", "range")
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    st = norm(a[2]) if len(a) > 2 else 1
    lo, hi = norm(lo), norm(hi)
    if not isinstance(st, int) or st == 0:
        raise Unsupported("range step")
    if all(isinstance(x, int) for x in (lo, hi)):
        r = range(lo, hi, st)
        return Seq(len(r), lambda i: r[i] if isinstance(i, int) else add(lo, mul(i, st)))
    if st == 1:
        d = norm(sub(hi, lo))
        n = d if is_conc(d) and d >= 0 else norm(ite(cmp(">", d, 0), d, 0)) if not _known_nonneg(eng, d) else d
        return Seq(n, lambda i: add(lo, i))
    if st == -1:
        d = norm(sub(lo, hi))
        n = norm(ite(cmp(">", d, 0), d, 0)) if not _known_nonneg(eng, d) else d
        return Seq(n, lambda i: sub(lo, i))
    raise Unsupported("range step")


def _known_nonneg(eng, d):
    return is_z3(d) and eng.solver.valid(eng.st.pc, d >= 0, ms=300)


x_numpy_arange_doc = None


def x_numpy_arange(eng, a, k):
    if any(not is_int(x) for x in a):
        raise Unsupported("arange of non-integers")
    s = x_builtins_range(eng, a, {})
    if isinstance(s.n, int) and s.n <= 64:
        return eng.alloc(ArrObj((s.n,), items=[s.get(i) for i in range(s.n)], dtype="int"))
    return eng.alloc(ArrObj((s.n,), get=lambda ix: s.get(ix[0]), dtype="int"))


def extremum(eng, v, op, what):
    s = eng.as_seq(v)
    n = norm(s.n) if not isinstance(s.n, int) else s.n
    if isinstance(n, int):
        if n == 0:
            raise PyRaise("ValueError", what)
        r = s.get(0)
        for i in range(1, n):
            r = pick(op, r, s.get(i))
        return r
    if eng.choose(cmp("<=", n, 0)):
        raise PyRaise("ValueError", what)
    m = eng.fresh(what)
    w = eng.fresh(what + "_at", "int")
    e = as_num(s.get(w))
    if e is None:
        raise Unsupported("extremum of non-numbers")
    eng.assume(z3.And(w >= 0, w < I(n), m == R(e)))
    k = z3.Int("uk!%d" % eng.fresh_id())
    eng.st.univ.append(Univ([k], z3.And(k >= 0, k < I(n)), Z(cmp(op + "=", m, as_num(s.get(k)))), what))
    return m


def pick(op, a, b):
    if isinstance(a, Inf) or isinstance(b, Inf):
        c = cmp(op, b, a)
        return b if c else a
    a, b = as_num(a), as_num(b)
    if a is None or b is None:
        raise Unsupported("min/max of non-numbers")
    return norm(ite(norm(cmp(op, b, a)), b, a)) if not (is_conc(a) and is_conc(b)) else (b if cmp(op, b, a) else a)


def minmax(eng, a, k, op, what):
    if k:
        raise Unsupported("min/max keywords")
    if len(a) == 1:
        return extremum(eng, a[0], op, what)
    r = a[0]
    for x in a[1:]:
        r = pick(op, r, x)
    return r


def x_builtins_min(eng, a, k):
    return minmax(eng, a, k, "<", "min")


def x_builtins_max(eng, a, k):
    return minmax(eng, a, k, ">", "max")


def x_numpy_min(eng, a, k):
    return np_stat(eng, a, k, "min", lambda xs: minmax(eng, xs, {}, "<", "min") if len(xs) > 1 else xs[0])


def x_numpy_max(eng, a, k):
    return np_stat(eng, a, k, "max", lambda xs: minmax(eng, xs, {}, ">", "max") if len(xs) > 1 else xs[0])


def np_stat(eng, a, k, what, f):
    if len(a) > 1 or k:
        raise Unsupported("axis argument")
    r = rec_of(eng, a[0])
    if r is None:
        return a[0]
    if r.ndim == 1 and (r.dtype == "cell" or getattr(r, "masked", None)) and not conc_shape(r.shape):
        if what in ("min", "max") and eng.choose(cmp("<=", r.shape[0], 0)):
            raise PyRaise("ValueError", what)
        return statistic(eng, what, r)
    if conc_shape(r.shape):
        its = flat_items(eng, r)
        if not its:
            raise PyRaise("ValueError", what)
        return f(its)
    if r.ndim == 1 and what in ("min", "max") and not getattr(r, "masked", None):
        return extremum(eng, a[0], "<" if what == "min" else ">", what)
    raise Unsupported("%s of a symbolic array" % what)


def cell_stat(what):
    def f(eng, a, k):
        if what == "std" and "ddof" in k and norm(k["ddof"]) == 0:
            k = {x: y for x, y in k.items() if x != "ddof"}
        r = rec_of(eng, a[0])
        if len(a) > 1 or k or r is None or r.ndim != 1 or conc_shape(r.shape):
            raise Unsupported(what)
        return statistic(eng, what, r)
    return f


def nan_stat(what):
    def f(eng, a, k):
        r = rec_of(eng, a[0])
        if r is None or r.ndim != 1 or r.dtype != "cell" or getattr(r, "masked", None):
            raise Unsupported("nan" + what)
        ref = eng.alloc(r)
        keep = arr_map(eng, ref, lambda x: z3.Not(MISSING(x)), True, "bool")
        return ext_call(eng, "numpy." + what, [arr_index(eng, ref, keep)] + list(a[1:]), k)
    return f


x_numpy_median, x_numpy_std, x_numpy_mean = cell_stat("median"), cell_stat("std"), cell_stat("mean")
x_numpy_nanmin, x_numpy_nanmax, x_numpy_nanmedian = nan_stat("min"), nan_stat("max"), nan_stat("median")
x_numpy_nanmean, x_numpy_nanstd = nan_stat("mean"), nan_stat("std")


def x_numpy_minimum(eng, a, k):
    if rec_of(eng, a[0]) is None and rec_of(eng, a[1]) is None:
        return pick("<", a[0], a[1])
    return elementwise(eng, lambda x, y: pick("<", x, y), a[0], a[1])


def x_numpy_maximum(eng, a, k):
    if rec_of(eng, a[0]) is None and rec_of(eng, a[1]) is None:
        return pick(">", a[0], a[1])
    return elementwise(eng, lambda x, y: pick(">", x, y), a[0], a[1])


def x_numpy_clip(eng, a, k):
    f = lambda x: pick("<", pick(">", x, a[1]), a[2])
    return f(a[0]) if rec_of(eng, a[0]) is None else arr_map(eng, a[0], f)


def absval(x):
    if isinstance(x, Inf):
        return Inf(1)
    x = as_num(x)
    if is_conc(x):
        return abs(x)
    return z3.If(x >= 0, x, -x)


def x_builtins_abs(eng, a, k):
    if as_num(a[0]) is not None or isinstance(a[0], Inf):
        return absval(a[0])
    return arr_map(eng, a[0], absval)


x_numpy_abs = x_builtins_abs


def x_builtins_sum(eng, a, k):
    s = eng.as_seq(a[0])
    n = norm(s.n) if not isinstance(s.n, int) else s.n
    start = a[1] if len(a) > 1 else 0
    if isinstance(n, int):
        r = start
        for i in range(n):
            r = eng.binop(ast.Add(), r, s.get(i))
        return r
    from .loops import sum_term, int_sum, uniq
    kv = z3.Int("kv!%d" % uniq(eng))
    t = as_num(s.get(kv))
    if t is None:
        raise Unsupported("sum of non-numbers")
    if is_int(t) and is_int(start):
        return add(start, int_sum(eng, kv, t, n))
    return add(start, sum_term(eng, kv, R(t), n))


def x_numpy_sum(eng, a, k):
    if k or len(a) > 1:
        raise Unsupported("axis argument")
    r = rec_of(eng, a[0])
    if r is None:
        return a[0]
    if conc_shape(r.shape):
        t = 0
        for x in flat_items(eng, r):
            t = add(t, as_num(x))
        return t
    if r.ndim == 1 and r.dtype == "bool":
        return count_true(eng, r)
    if r.ndim == 1:
        return x_builtins_sum(eng, a, {})
    return grid_sum(eng, r, lambda x: norm(z3.If(Z(x), z3.IntVal(1), z3.IntVal(0))) if is_bool(x) else as_num(x))


def grid_some(eng, r, f):
    """Some element satisfies f."""
    from .loops import exists_term, uniq

    def rows(d, ix):
        if d == r.ndim:
            return Z(norm(f(arr_get(eng, r, ix))))
        n = norm(r.shape[d])
        if isinstance(n, int):
            return z3.Or(*[rows(d + 1, ix + (i,)) for i in range(n)])
        kv = z3.Int("kv!%d" % uniq(eng))
        return exists_term(eng, kv, rows(d + 1, ix + (kv,)), n)
    return norm(rows(0, ()))


def grid_sum(eng, r, f):
    """Sum of f over the elements, row by row."""
    from .loops import sum_term, int_sum, uniq
    if getattr(r, "masked", None) or r.dtype == "cell":
        raise Unsupported("sum of a selection")

    def rows(d, ix):
        if d == r.ndim:
            return f(arr_get(eng, r, ix))
        n = norm(r.shape[d])
        if isinstance(n, int):
            t = 0
            for i in range(n):
                t = add(t, rows(d + 1, ix + (i,)))
            return t
        kv = z3.Int("kv!%d" % uniq(eng))
        t = rows(d + 1, ix + (kv,))
        if t is None:
            raise Unsupported("sum of non-numbers")
        return int_sum(eng, kv, t, n) if is_int(t) else sum_term(eng, kv, R(t), n)
    return norm(rows(0, ()))


x_math_fsum = x_builtins_sum


def x_numpy_pad(eng, a, k):
    """Padding with a constant."""
    k = dict(k)
    pad = a[1] if len(a) > 1 else k.pop("pad_width", None)
    mode = a[2] if len(a) > 2 else k.pop("mode", "constant")
    cv = k.pop("constant_values", 0)
    r = rec_of(eng, a[0])
    if k or mode != "constant" or r is None or getattr(r, "masked", None) or not (is_num(cv) or is_bool(cv)):
        raise Unsupported("pad")

    def seq(v):
        s = eng.as_seq(v)
        n = norm(s.n) if not isinstance(s.n, int) else s.n
        if not isinstance(n, int):
            raise Unsupported("pad widths")
        return [s.get(i) for i in range(n)]
    pad = [pad] if is_num(pad) else seq(pad)
    if all(is_num(p) for p in pad):
        pad = [pad * 2 if len(pad) == 1 else pad] * r.ndim
    else:
        pad = [seq(p) for p in pad]
        if len(pad) == 1:
            pad = pad * r.ndim
    if len(pad) != r.ndim or any(len(p) != 2 or not all(is_int(x) for x in p) for p in pad):
        raise Unsupported("pad widths")
    for p in pad:
        for x in p:
            if eng.choose(cmp("<", x, 0)):
                raise PyRaise("ValueError", "pad widths")
    shape = tuple(norm(add(add(p[0], n), p[1])) for p, n in zip(pad, r.shape))
    if r.dtype == "bool":
        cv = cv if is_bool(cv) else norm(znot(eq(cv, 0)))
    elif is_bool(cv):
        cv = norm(I(cv))

    def g(ix):
        old = tuple(norm(sub(i, p[0])) for i, p in zip(ix, pad))
        inside = norm(zand(*[zand(cmp("<=", 0, i), cmp("<", i, n)) for i, n in zip(old, r.shape)]))
        return ite_any(eng, inside, lambda: arr_get(eng, r, old), lambda: cv)
    return eng.alloc(ArrObj(shape, get=g, dtype=r.dtype))


def x_builtins_float(eng, a, k):
    v = a[0]
    if isinstance(v, Dyn):
        v = v.num
    if is_num(v):
        return Fraction(v) if is_conc(v) else R(v)
    if is_bool(v):
        return R(v)
    if isinstance(v, str) and v in ("inf", "-inf", "nan"):
        return {"inf": Inf(1), "-inf": Inf(-1), "nan": NaN()}[v]
    if isinstance(v, (Inf, NaN)):
        return v
    r = rec_of(eng, v)
    if r is not None and r.items is not None and len(r.items) == 1:
        return R(r.items[0])
    raise Unsupported("float()")


def x_builtins_int(eng, a, k):
    v = as_num(a[0])
    if v is None:
        raise Unsupported("int()")
    if is_int(v):
        return v
    if is_conc(v):
        return int(v)
    return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))


def x_builtins_bool(eng, a, k):
    return eng.truth(a[0])


def x_builtins_str(eng, a, k):
    return FmtStr("{}", [a[0]], [(0, None, [])])


x_builtins_repr = x_builtins_str


def x_builtins_format(eng, a, k):
    return FmtStr("{}", list(a), [(0, None, [(1, None, [])] if len(a) > 1 else [])])


def x_builtins_isinstance(eng, a, k):
    c = a[1]
    if isinstance(c, Ref):
        raise PyRaise("TypeError")
    return isinst(eng, a[0], c)


def x_builtins_type(eng, a, k):
    return py_type(eng, a[0])


def x_builtins_enumerate(eng, a, k):
    s = eng.as_seq(a[0])
    st = a[1] if len(a) > 1 else k.get("start", 0)
    if getattr(s, "parts", None) is not None:
        raise Unsupported("numbering of a product")
    return eng.once(Seq(s.n, lambda i: (add(st, i), s.get(i))))


def true_positions(eng, mask, make):
    """The positions of the true elements, in order: a product of ranges with a condition."""
    sh = rec_of(eng, mask.ref).shape
    r = Seq(eng.fresh("n_true", "int"), no_element)
    eng.assume(r.n >= 0)
    r.parts, r.make = [Seq(n, lambda i: i) for n in sh], make
    r.where = lambda ix: arr_get(eng, rec_of(eng, mask.ref), tuple(ix))
    return r


def no_element(i):
    raise Unsupported("element of a sequence of positions")


def x_numpy_argwhere(eng, a, k):
    return true_positions(eng, x_numpy_nonzero(eng, a, k), lambda ix: eng.alloc(ArrObj((len(ix),), items=list(ix), dtype="int")))


def x_builtins_zip(eng, a, k):
    if a and all(isinstance(x, MaskCoord) and x.mask is a[0].mask for x in a):
        return eng.once(true_positions(eng, a[0].mask, lambda ix: tuple(ix[x.axis] for x in a)))
    ss = [eng.as_seq(x) for x in a]
    n = ss[0].n
    for s in ss[1:]:
        if not same_dim(eng, n, s.n):
            n = pick("<", n, s.n)
    return eng.once(Seq(n, lambda i: tuple(s.get(i) for s in ss)))


def product_seq(eng, parts, make):
    """All combinations, the last part varying fastest."""
    import itertools
    ns = [norm(q.n) if not isinstance(q.n, int) else q.n for q in parts]
    if all(isinstance(n, int) for n in ns):
        ix = list(itertools.product(*[range(n) for n in ns]))
        return Seq(len(ix), lambda i: make([q.get(j) for q, j in zip(parts, ix[norm(i)])]))

    def get(i):
        raise Unsupported("element of a product")
    n = 1
    for q in parts:
        n = mul(n, q.n)
    r = Seq(n, get)
    r.parts, r.make = parts, make
    return r


def x_itertools_product(eng, a, k):
    if k:
        raise Unsupported("product repeat")
    return eng.once(product_seq(eng, [eng.as_seq(x) for x in a], tuple))


def x_numpy_ndindex(eng, a, k):
    sh = shape_arg(eng, a[0]) if len(a) == 1 else tuple(a)
    return eng.once(product_seq(eng, [Seq(n, lambda i: i) for n in sh], tuple))


def x_numpy_ndenumerate(eng, a, k):
    ref = a[0]
    r = rec_of(eng, ref)
    if r is None or getattr(r, "masked", None):
        raise Unsupported("ndenumerate")
    return eng.once(product_seq(eng, [Seq(n, lambda i: i) for n in r.shape], lambda ix: (tuple(ix), arr_get(eng, rec_of(eng, ref), tuple(ix)))))


def columns(eng, s):
    """zip(*rows): the columns of a sequence of rows of one known length."""
    from .loops import uniq
    if eng.choose(cmp("<=", s.n, 0)):
        return Seq(0, lambda i: None)
    kv = z3.Int("kv!%d" % uniq(eng))
    row = s.get(kv)
    if isinstance(row, Ref) and isinstance(eng.obj(row), ListObj) and eng.obj(row).items is not None:
        m = len(eng.obj(row).items)
    elif isinstance(row, (tuple, Vec)):
        m = len(row if isinstance(row, tuple) else row.items)
    else:
        raise Unsupported("columns of %r" % (row,))
    cols = [Seq(s.n, lambda i, j=j: getitem(eng, s.get(i), j), "tuple") for j in range(m)]
    return Seq(m, lambda i: eng.index_items(cols, i))


def x_builtins_getattr(eng, a, k):
    if not isinstance(a[1], str):
        raise Unsupported("attribute of unknown name")
    if len(a) > 2:
        if not isinstance(a[0], Ref):
            raise Unsupported("getattr with a default")
        try:
            return eng.getattr(a[0], a[1])
        except PyRaise as e:
            if e.cls != "AttributeError":
                raise
            return a[2]
    return eng.getattr(a[0], a[1])


def x_builtins_setattr(eng, a, k):
    if not isinstance(a[1], str):
        raise Unsupported("attribute of unknown name")
    eng.setattr(a[0], a[1], a[2])
    return None


def x_builtins_sorted(eng, a, k):
    s = eng.as_seq(a[0])
    if k or norm(s.n) != 2:
        raise Unsupported("sorted")
    x, y = s.get(0), s.get(1)
    if as_num(x) is None or as_num(y) is None:
        raise Unsupported("sorted")
    return eng.alloc(ListObj(items=[pick("<", x, y), pick(">", x, y)]))


def x_builtins_slice(eng, a, k):
    if k or not 1 <= len(a) <= 3:
        raise Unsupported("slice")
    return slice(*a)


def x_builtins_reversed(eng, a, k):
    s = eng.as_seq(a[0])
    return eng.once(Seq(s.n, lambda i: s.get(sub(sub(s.n, 1), i))))


def x_builtins_list(eng, a, k):
    if not a:
        return eng.alloc(ListObj(items=[]))
    if isinstance(a[0], Iter) and a[0].src is not None:
        eng.as_seq(a[0])
        a = [a[0].src]
    if isinstance(a[0], Ref) and isinstance(eng.obj(a[0]), ListObj):
        r = eng.obj(a[0]).clone(frozen=False)
        if hasattr(eng.obj(a[0]), "loop"):
            r.loop = eng.obj(a[0]).loop
        return eng.alloc(r)
    s = eng.as_seq(a[0])
    n = norm(s.n) if not isinstance(s.n, int) else s.n
    if isinstance(n, int):
        return eng.alloc(ListObj(items=[s.get(i) for i in range(n)]))
    return eng.alloc(ListObj(n=n, get=s.get))


def x_builtins_tuple(eng, a, k):
    if not a:
        return ()
    s = eng.as_seq(a[0])
    n = norm(s.n) if not isinstance(s.n, int) else s.n
    if isinstance(n, int):
        return tuple(s.get(i) for i in range(n))
    return Seq(n, s.get, "tuple")


def x_builtins_dict(eng, a, k):
    d = {}
    if a:
        d.update(eng.obj(a[0]).items)
    d.update(k)
    return eng.alloc(DictObj(d))


def x_builtins_print(eng, a, k):
    h = getattr(eng.contract, "on_print", None)
    if h is not None:
        h(eng, a)
    return None


def x_builtins_round(eng, a, k):
    raise Unsupported("round")


def x_builtins_pow(eng, a, k):
    return eng.binop(ast.Pow(), a[0], a[1])


def x_builtins_map(eng, a, k):
    if len(a) != 2:
        raise Unsupported("map")
    s = eng.as_seq(a[1])
    n = norm(s.n) if not isinstance(s.n, int) else s.n
    if isinstance(n, int):
        items = [eng.call(a[0], [s.get(i)], {}) for i in range(n)]
        return eng.once(Seq(n, lambda i: eng.index_items(items, i)))
    return comprehension(eng, "[__f(__x) for __x in __s]", a)


def x_builtins_filter(eng, a, k):
    if len(a) != 2:
        raise Unsupported("filter")
    return comprehension(eng, "[__x for __x in __s if __x]" if a[0] is None else "[__x for __x in __s if __f(__x)]", a)


def comprehension(eng, text, a):
    """map and filter, done at once."""
    save, fid = eng.fid, eng.comp_frame()
    eng.st.frames[fid].update({"__f": a[0], "__s": a[1]})
    e = ast.parse(text, mode="eval").body
    eng.fid = fid
    try:
        r = eng.comp_list(e)
        return eng.once(eng.as_seq(r), r)
    finally:
        eng.fid = save


def x_builtins_all(eng, a, k):
    s = eng.as_seq(a[0])
    if isinstance(s.n, int):
        return norm(zand(*[eng.truth(s.get(i)) for i in range(s.n)]))
    raise Unsupported("all over a symbolic sequence")


def x_builtins_any(eng, a, k):
    s = eng.as_seq(a[0])
    if isinstance(s.n, int):
        return norm(zor(*[eng.truth(s.get(i)) for i in range(s.n)]))
    raise Unsupported("any over a symbolic sequence")


def np_all(eng, a, conj):
    r = rec_of(eng, a[0])
    if r is None:
        return eng.truth(a[0])
    if not conc_shape(r.shape) and not getattr(r, "masked", None) and r.dtype != "cell":
        return norm(znot(grid_some(eng, r, lambda x: znot(eng.truth(x))))) if conj else grid_some(eng, r, eng.truth)
    its = flat_items(eng, r)
    return norm((zand if conj else zor)(*[eng.truth(x) for x in its]))


def x_numpy_all(eng, a, k):
    return np_all(eng, a, True)


def x_numpy_any(eng, a, k):
    return np_all(eng, a, False)


def un(eng, v, f, total=False):
    n = as_num(v)
    if n is not None:
        return f(n)
    return arr_map(eng, v, lambda x: f(as_num(x)), total)


def x_numpy_sqrt(eng, a, k):
    return un(eng, a[0], eng.sqrt)


x_math_sqrt = x_numpy_sqrt


def x_numpy_log(eng, a, k):
    return un(eng, a[0], eng.log)


def x_math_log(eng, a, k):
    if len(a) > 1:
        raise Unsupported("log base")
    return x_numpy_log(eng, a, k)


def x_numpy_cos(eng, a, k):
    return un(eng, a[0], lambda t: eng.trig(t)[0], True)


def x_numpy_sin(eng, a, k):
    return un(eng, a[0], lambda t: eng.trig(t)[1], True)


x_math_cos, x_math_sin = x_numpy_cos, x_numpy_sin


def x_numpy_exp(eng, a, k):
    def f(t):
        e = eng.EXP(R(t))
        eng.define(e > 0)
        return e
    return un(eng, a[0], f, True)


x_math_exp = x_numpy_exp


def x_numpy_square(eng, a, k):
    return un(eng, a[0], lambda t: mul(t, t), True)


def x_numpy_power(eng, a, k):
    return eng.binop(ast.Pow(), a[0], a[1])


x_math_pow = x_numpy_power


def x_numpy_sign(eng, a, k):
    f = lambda t: (t > 0) - (t < 0) if is_conc(t) else z3.If(t > 0, z3.IntVal(1), z3.If(t < 0, z3.IntVal(-1), z3.IntVal(0)))
    return un(eng, a[0], f, True)


def x_math_copysign(eng, a, k):
    m = absval(a[0])
    return ite(norm(cmp(">=", a[1], 0)), m, neg(m))


x_numpy_copysign = x_math_copysign


def x_numpy_floor(eng, a, k):
    return un(eng, a[0], lambda t: R(eng.floor(t)) if not is_conc(t) else Fraction(eng.floor(t)), True)


def x_numpy_ceil(eng, a, k):
    return un(eng, a[0], lambda t: R(eng.ceil(t)) if not is_conc(t) else Fraction(eng.ceil(t)), True)


def x_math_floor(eng, a, k):
    return eng.floor(as_num(a[0]))


def x_math_ceil(eng, a, k):
    return eng.ceil(as_num(a[0]))


def x_numpy_hypot(eng, a, k):
    f = lambda x, y: eng.sqrt(norm(add(mul(x, x), mul(y, y))), nonneg=True)
    if as_num(a[0]) is not None and as_num(a[1]) is not None:
        return f(as_num(a[0]), as_num(a[1]))
    return elementwise(eng, f, a[0], a[1], total=True)


def x_math_hypot(eng, a, k):
    t = 0
    for x in a:
        t = add(t, mul(as_num(x), as_num(x)))
    return eng.sqrt(norm(t), nonneg=True)


def x_math_dist(eng, a, k):
    p, q = eng.as_seq(a[0]), eng.as_seq(a[1])
    t = 0
    for i in range(p.n):
        d = sub(as_num(p.get(i)), as_num(q.get(i)))
        t = add(t, mul(d, d))
    return eng.sqrt(norm(t), nonneg=True)


def x_numpy_deg2rad(eng, a, k):
    return un(eng, a[0], lambda t: mul(mul(t, PI), Fraction(1, 180)), True)


x_math_radians = x_numpy_deg2rad
x_numpy_radians = x_numpy_deg2rad


def finite(x):
    return not isinstance(x, (Inf, NaN))


def x_numpy_isfinite(eng, a, k):
    if isinstance(a[0], (Inf, NaN)):
        return False
    if as_num(a[0]) is not None:
        return True
    return arr_map(eng, a[0], finite, True, "bool")


x_math_isfinite = x_numpy_isfinite


def x_numpy_isnan(eng, a, k):
    if isinstance(a[0], (Inf, NaN)):
        return isinstance(a[0], NaN)
    if is_cell(a[0]):
        return MISSING(a[0])
    if as_num(a[0]) is not None:
        return False
    return arr_map(eng, a[0], lambda x: MISSING(x) if is_cell(x) else isinstance(x, NaN), True, "bool")


x_math_isnan = x_numpy_isnan


def x_numpy_isinf(eng, a, k):
    return isinstance(a[0], Inf) if as_num(a[0]) is not None or isinstance(a[0], (Inf, NaN)) else \
        arr_map(eng, a[0], lambda x: False, True, "bool")


x_math_isinf = x_numpy_isinf


def x_numpy_isscalar(eng, a, k):
    v = a[0]
    if isinstance(v, Dyn):
        return norm(zor(*[v.tag == t for t in (Dyn.INT, Dyn.FLOAT, Dyn.BOOL, Dyn.STR)]))
    return is_num(v) or is_bool(v) or isinstance(v, str)


def x_numpy_errstate(eng, a, k):
    return Opaque("errstate")


def x_numpy_seterr(eng, a, k):
    return None


def shape_arg(eng, v):
    if is_int(v):
        return (norm(v),)
    s = eng.as_seq(v)
    return tuple(norm(s.get(i)) for i in range(s.n))


def dtype_of(eng, a, k, pos):
    d = a[pos] if len(a) > pos else k.get("dtype")
    if d is None:
        return "real"
    if isinstance(d, str):
        return {"float": "real", "bool": "bool", "int": "int", "double": "real", "float64": "real"}[d]
    n = as_type(eng, d).names[0]
    return {"float": "real", "bool": "bool", "int": "int"}[n]


def full(eng, shape, val, dt):
    for s in shape:
        if not isinstance(s, int) and eng.choose(cmp("<", s, 0)):
            raise PyRaise("ValueError", "negative dimension")
    val = conv(dt, val) if not isinstance(val, NaN) else NANC
    if conc_shape(shape) and size(shape) <= 64:
        return eng.alloc(ArrObj(shape, items=[val] * size(shape), dtype=dt))
    return eng.alloc(ArrObj(shape, get=lambda ix: val, dtype=dt))


def x_numpy_zeros(eng, a, k):
    dt = dtype_of(eng, a, k, 1)
    return full(eng, shape_arg(eng, a[0] if a else k["shape"]), False if dt == "bool" else (0 if dt == "int" else Fraction(0)), dt)


def x_numpy_ones(eng, a, k):
    dt = dtype_of(eng, a, k, 1)
    return full(eng, shape_arg(eng, a[0]), True if dt == "bool" else 1, dt)


def x_numpy_full(eng, a, k):
    v = a[1]
    dt = dtype_of(eng, a, k, 2) if len(a) > 2 or "dtype" in k else "bool" if is_bool(v) else "real"
    return full(eng, shape_arg(eng, a[0]), v, dt)


def x_numpy_empty(eng, a, k):
    dt = dtype_of(eng, a, k, 1)
    shape = shape_arg(eng, a[0])
    nm = "empty!%d" % eng.fresh_id()
    F = z3.Function(nm, *([z3.IntSort()] * len(shape) + [z3.BoolSort() if dt == "bool" else z3.RealSort()]))
    if conc_shape(shape) and size(shape) <= 64:
        import itertools
        return eng.alloc(ArrObj(shape, items=[F(*[I(x) for x in ix]) for ix in itertools.product(*[range(s) for s in shape])], dtype=dt))
    return eng.alloc(ArrObj(shape, get=lambda ix: F(*[I(x) for x in ix]), dtype=dt))


def x_numpy_zeros_like(eng, a, k):
    r = rec_of(eng, a[0])
    return full(eng, r.shape, False if r.dtype == "bool" else Fraction(0), r.dtype)


def x_numpy_array(eng, a, k):
    return copy_arr(eng, a[0])


def x_numpy_asarray(eng, a, k):
    if isinstance(a[0], Ref) and isinstance(eng.obj(a[0]), ArrObj):
        return a[0]
    return copy_arr(eng, a[0])


def x_numpy_copy(eng, a, k):
    return copy_arr(eng, a[0])


def x_copy_copy(eng, a, k):
    v = a[0]
    if isinstance(v, Ref):
        o = eng.obj(v)
        if isinstance(o, ArrObj):
            return copy_arr(eng, v)
        if isinstance(o, ListObj):
            return eng.alloc(o.clone(frozen=False))
        raise Unsupported("copy")
    return v


def x_copy_deepcopy(eng, a, k):
    v = a[0]
    if isinstance(v, Ref):
        o = eng.obj(v)
        if isinstance(o, ArrObj):
            return copy_arr(eng, v)
        if isinstance(o, ListObj):
            if o.items is None:
                return eng.alloc(o.clone(frozen=False))
            return eng.alloc(ListObj(items=[x_copy_deepcopy(eng, [x], {}) for x in o.items]))
        raise Unsupported("deepcopy")
    return v


def x_numpy_reshape(eng, a, k):
    v = a[0]
    r = rec_of(eng, v)
    if r is None:
        r = ArrObj((1,), items=[v])
    sh = shape_arg(eng, a[1] if len(a) > 1 else k.get("newshape", k.get("shape")))
    if conc_shape(r.shape) and all(isinstance(s, int) for s in sh):
        tot = size(r.shape)
        if -1 in sh:
            known = 1
            for s in sh:
                if s != -1:
                    known *= s
            sh = tuple(tot // known if s == -1 else s for s in sh)
        if size(sh) != tot:
            raise PyRaise("ValueError", "reshape")
        n = ArrObj(sh, items=flat_items(eng, r), dtype=r.dtype)
        if isinstance(v, Ref) and isinstance(eng.obj(v), ArrObj):
            rt = root(eng, v)
            n.view = (rt.id, eng.st.heap[rt.id])
            n.flatview = not (getattr(r, "view", None) and not getattr(r, "flatview", False)) and \
                conc_shape(eng.st.heap[rt.id].shape)
        return eng.alloc(n)
    raise Unsupported("reshape of a symbolic array")


def x_numpy_ravel(eng, a, k):
    r = rec_of(eng, a[0])
    if conc_shape(r.shape):
        return x_numpy_reshape(eng, [a[0], (size(r.shape),)], {})
    if r.ndim == 1:
        return a[0]
    if r.ndim == 2:
        m = r.shape[1]
        n = ArrObj((mul(r.shape[0], m),), get=lambda ix: arr_get(eng, r, (I(ix[0]) / I(m), I(ix[0]) % I(m))), dtype=r.dtype)
        n.flat_of = r
        return eng.alloc(n)
    raise Unsupported("ravel")


def x_numpy_squeeze(eng, a, k):
    r = rec_of(eng, a[0])
    if conc_shape(r.shape):
        return x_numpy_reshape(eng, [a[0], tuple(s for s in r.shape if s != 1)], {})
    raise Unsupported("squeeze")


def x_numpy_linspace(eng, a, k):
    lo, hi = as_num(a[0]), as_num(a[1])
    n = norm(a[2] if len(a) > 2 else k.get("num", 50))
    if isinstance(n, Dyn):
        n = n.num
    ep = k.get("endpoint", a[3] if len(a) > 3 else True)
    if not isinstance(ep, bool) or set(k) - {"num", "endpoint"}:
        raise Unsupported("linspace arguments")
    if eng.choose(cmp("<", n, 0)):
        raise PyRaise("ValueError", "linspace")
    d = sub(hi, lo)
    if isinstance(n, int):
        m = n - 1 if ep else n
        items = [add(lo, mul(d, Fraction(i, m))) if m > 0 else (Fraction(lo) if is_conc(lo) else R(lo)) for i in range(n)]
        items = [Fraction(x) if is_conc(x) else x for x in items]
        return eng.alloc(ArrObj((n,), items=items))
    m = sub(n, 1) if ep else n
    if ep and eng.choose(cmp("<=", m, 0)):
        return eng.alloc(ArrObj((n,), get=lambda ix: lo))
    h = R(d) / R(m)

    def get(ix):
        i = ix[0]
        if is_conc(i) and i == 0:
            return R(lo)
        return add(R(lo), R(i) * R(d) / R(m))
    return eng.alloc(ArrObj((n,), get=get))


def x_numpy_meshgrid(eng, a, k):
    if len(a) != 2 or k.get("indexing", "xy") not in ("xy", "ij") or set(k) - {"indexing"}:
        raise Unsupported("meshgrid arguments")
    x, y = rec_of(eng, a[0]), rec_of(eng, a[1])
    if x.ndim != 1 or y.ndim != 1:
        raise Unsupported("meshgrid arguments")
    xy = k.get("indexing", "xy") == "xy"
    sh = (y.shape[0], x.shape[0]) if xy else (x.shape[0], y.shape[0])
    if all(isinstance(s, int) for s in sh):
        raise Unsupported("meshgrid of known size")
    p, q = (1, 0) if xy else (0, 1)
    return Vec([eng.alloc(ArrObj(sh, get=lambda ix: arr_get(eng, x, (ix[p],)))), eng.alloc(ArrObj(sh, get=lambda ix: arr_get(eng, y, (ix[q],))))], "list")


def x_numpy_linalg_norm(eng, a, k):
    r = rec_of(eng, a[0])
    if r is None:
        return absval(a[0])
    o = a[1] if len(a) > 1 else k.get("ord")
    if set(k) - {"ord"}:
        raise Unsupported("norm arguments")
    if r.ndim != 1 or not conc_shape(r.shape):
        raise Unsupported("norm of a symbolic array")
    its = [as_num(x) for x in flat_items(eng, r)]
    if isinstance(o, Inf) and o.s > 0:
        m = absval(its[0])
        for x in its[1:]:
            m = pick(">", m, absval(x))
        return m
    if o is None or norm(o) == 2:
        t = 0
        for x in its:
            t = add(t, mul(x, x))
        return eng.sqrt(norm(t), nonneg=True)
    if norm(o) == 1:
        t = 0
        for x in its:
            t = add(t, absval(x))
        return t
    raise Unsupported("norm order")


def x_numpy_finfo(eng, a, k):
    return Opaque("finfo")


def x_numpy_nonzero(eng, a, k):
    m = rec_of(eng, a[0])
    if m is None or k:
        raise Unsupported("nonzero")
    if m.dtype == "bool":
        return MaskIndex(copy_arr(eng, a[0]))
    return MaskIndex(elementwise(eng, lambda x: norm(znot(eq(x, 0))), a[0], dtype="bool"))


def x_numpy_flatnonzero(eng, a, k):
    if rec_of(eng, a[0]) is None or rec_of(eng, a[0]).ndim != 1:
        raise Unsupported("flatnonzero")
    return x_numpy_nonzero(eng, a, k)


def x_numpy_where(eng, a, k):
    if len(a) == 1 and not k:
        return x_numpy_nonzero(eng, a, k)
    if len(a) != 3:
        raise Unsupported("where")
    if is_bool(a[0]) and rec_of(eng, a[1]) is None and rec_of(eng, a[2]) is None:
        return ite(norm(a[0]), a[1], a[2])
    m = rec_of(eng, a[0])
    if m is not None and m.dtype != "bool" and not (m.items is not None and all(is_bool(x) for x in m.items)):
        raise Unsupported("where on numbers")
    if rec_of(eng, a[1]) is None and rec_of(eng, a[2]) is None:
        return elementwise(eng, lambda c, y: ite(norm(c), a[1], y), a[0], a[2])
    dts = {(rec_of(eng, x).dtype if rec_of(eng, x) is not None else "bool" if is_bool(x) else "real") for x in a[1:]}
    pairs = elementwise(eng, lambda x, y: (x, y), a[1], a[2], dtype="pair")
    return elementwise(eng, lambda c, p: ite(norm(c), p[0], p[1]), a[0], pairs, dtype=dts.pop() if len(dts) == 1 else "real")


def x_numpy_logical_and(eng, a, k):
    if is_bool(a[0]) and is_bool(a[1]):
        return norm(zand(a[0], a[1]))
    return elementwise(eng, lambda x, y: norm(zand(x, y)), a[0], a[1], dtype="bool")


def x_numpy_logical_or(eng, a, k):
    if is_bool(a[0]) and is_bool(a[1]):
        return norm(zor(a[0], a[1]))
    return elementwise(eng, lambda x, y: norm(zor(x, y)), a[0], a[1], dtype="bool")


def x_numpy_logical_not(eng, a, k):
    if is_bool(a[0]):
        return norm(znot(a[0]))
    return arr_map(eng, a[0], lambda x: norm(znot(x)), True, "bool")


def x_numpy_add(eng, a, k):
    return eng.binop(ast.Add(), a[0], a[1])


def x_numpy_subtract(eng, a, k):
    return eng.binop(ast.Sub(), a[0], a[1])


def x_numpy_multiply(eng, a, k):
    return eng.binop(ast.Mult(), a[0], a[1])


def x_numpy_divide(eng, a, k):
    return eng.binop(ast.Div(), a[0], a[1])


def x_numpy_count_nonzero(eng, a, k):
    r = rec_of(eng, a[0])
    if r is None or k or len(a) > 1 or getattr(r, "masked", None) or r.dtype == "cell":
        raise Unsupported("count_nonzero")
    if r.ndim == 1 and r.dtype == "bool" and not conc_shape(r.shape):
        return count_true(eng, r)
    return grid_sum(eng, r, lambda x: ite(norm(eng.truth(x)), 1, 0))


def x_numpy_flip(eng, a, k):
    r = rec_of(eng, a[0])
    if r.ndim != 1:
        raise Unsupported("flip of a grid")
    return arr_index(eng, a[0] if isinstance(a[0], Ref) and isinstance(eng.obj(a[0]), ArrObj) else eng.alloc(r), slice(None, None, -1))


def x_numpy_sort(eng, a, k):
    """Ascending sort; for a symbolic array an uninterpreted non-decreasing function fixed by the array's content."""
    r = rec_of(eng, a[0])
    axis = a[1] if len(a) > 1 else k.get("axis", -1)
    if set(k) - {"axis"}:
        raise Unsupported("sort arguments")
    if r.ndim == 2:
        if axis is not None:
            raise Unsupported("sort of a grid along an axis")
    elif r.ndim != 1:
        raise Unsupported("sort")
    src = getattr(r, "flat_of", r)
    p = [z3.Int("sp_%d" % d) for d in range(src.ndim)]
    scale, body = factored(z3.simplify(R(arr_get(eng, src, tuple(p)))), {"sp_%d" % d for d in range(src.ndim)})
    key = "%s|%s" % (body.sexpr(), ",".join(str(s) for s in src.shape))
    tab = eng.sort_tab
    if key not in tab:
        tab[key] = z3.Function("sorted%d" % len(tab), z3.IntSort(), z3.RealSort())
    F = tab[key]
    n = 1
    for s in src.shape:
        n = mul(n, s)
    i = z3.Int("si!%d" % eng.fresh_id())
    eng.st.univ.append(Univ([i], z3.And(i >= 0, i + 1 < I(n)), F(i) <= F(i + 1), "sorted"))
    if scale is None:
        return eng.alloc(ArrObj((n,), get=lambda ix: F(I(ix[0]))))
    # a multiple of a sorted array is sorted, backwards if the factor is negative
    if eng.choose(scale >= 0):
        return eng.alloc(ArrObj((n,), get=lambda ix: scale * F(I(ix[0]))))
    return eng.alloc(ArrObj((n,), get=lambda ix: scale * F(I(n) - 1 - I(ix[0]))))


def factored(t, names):
    """t == scale * body with scale free of the indices (None: one)."""
    from .solve import consts
    scale = None
    times = lambda a, b: b if a is None else a * b
    while True:
        k = t.decl().kind()
        free = [not (set(consts(c)) & names) for c in t.children()]
        if k == z3.Z3_OP_UMINUS:
            scale, t = times(scale, z3.RealVal(-1)), t.arg(0)
        elif k == z3.Z3_OP_DIV and free[1] and not free[0]:
            scale, t = times(scale, 1 / t.arg(1)), t.arg(0)
        elif k == z3.Z3_OP_MUL and any(free) and not all(free):
            rest = [c for c, f in zip(t.children(), free) if not f]
            for c, f in zip(t.children(), free):
                if f:
                    scale = times(scale, c)
            t = rest[0] if len(rest) == 1 else z3.Product(*rest)
        else:
            return scale, t


def x_numpy_argmax(eng, a, k):
    """First index of the maximum; for boolean arrays the first true element, 0 if none."""
    r = rec_of(eng, a[0])
    if r.ndim != 1 or r.dtype != "bool":
        raise Unsupported("argmax")
    n = r.shape[0]
    i = eng.fresh("argmax", "int")
    kk = z3.Int("ak!%d" % eng.fresh_id())
    eng.assume(z3.And(i >= 0, z3.Or(i < I(n), i == 0)))
    at = Z(arr_get(eng, r, (i,)))
    eng.assume(z3.Implies(z3.Not(at), i == 0))
    eng.st.univ.append(Univ([kk], z3.And(kk >= 0, kk < i), z3.Not(Z(arr_get(eng, r, (kk,)))), "argmax"))
    eng.st.univ.append(Univ([kk], z3.And(kk >= 0, kk < I(n), z3.Not(at)), z3.Not(Z(arr_get(eng, r, (kk,)))), "argmax"))
    return i


def x_numpy_column_stack(eng, a, k):
    raise Unsupported("column_stack")


# ---- matrices
Mat = z3.DeclareSort("Mat")
MUL = z3.Function("matmul", Mat, Mat, Mat)
TR = z3.Function("transpose", Mat, Mat)
INV = z3.Function("inverse", Mat, Mat)
LSTSQ = z3.Function("lstsq", Mat, Mat, Mat)
SOLVE = z3.Function("solve", Mat, Mat, Mat)
ENT = z3.Function("entry", Mat, z3.IntSort(), z3.IntSort(), z3.RealSort())


def mat_of(eng, v):
    r = rec_of(eng, v)
    if r is None or r.ndim != 2:
        raise Unsupported("matrix operand")
    if r.mat is None:
        raise Unsupported("matrix without a symbolic name")
    return r


def mk_mat(eng, m, shape):
    return eng.alloc(ArrObj(shape, get=lambda ix: ENT(m, I(ix[0]), I(ix[1])), mat=m))


def matmul(eng, a, b):
    ra, rb = rec_of(eng, a), rec_of(eng, b)
    if ra is None or rb is None:
        raise PyRaise("ValueError", "matmul")
    if ra.ndim == 1 and rb.ndim == 1 and conc_shape(ra.shape) and conc_shape(rb.shape):
        t = 0
        for x, y in zip(flat_items(eng, ra), flat_items(eng, rb)):
            t = add(t, mul(as_num(x), as_num(y)))
        return t
    if ra.ndim == 2 and rb.ndim == 2 and ra.mat is not None and rb.mat is not None:
        if not same_dim(eng, ra.shape[1], rb.shape[0]):
            raise Unsupported("matmul shape")
        return mk_mat(eng, MUL(ra.mat, rb.mat), (ra.shape[0], rb.shape[1]))
    if conc_shape(ra.shape) and conc_shape(rb.shape) and ra.ndim == 2 and rb.ndim <= 2:
        n, m = ra.shape
        p = rb.shape[1] if rb.ndim == 2 else 1
        A, B = flat_items(eng, ra), flat_items(eng, rb)
        items = []
        for i in range(n):
            for j in range(p):
                t = 0
                for q in range(m):
                    t = add(t, mul(as_num(A[i * m + q]), as_num(B[q * p + j])))
                items.append(t)
        return eng.alloc(ArrObj((n, p) if rb.ndim == 2 else (n,), items=items))
    raise Unsupported("matmul")


def x_numpy_matmul(eng, a, k):
    return matmul(eng, a[0], a[1])


def x_numpy_dot(eng, a, k):
    if as_num(a[0]) is not None or as_num(a[1]) is not None:
        return eng.binop(ast.Mult(), a[0], a[1])
    return matmul(eng, a[0], a[1])


def x_numpy_transpose(eng, a, k):
    r = rec_of(eng, a[0])
    if r.ndim == 1:
        return a[0]
    n = ArrObj((r.shape[1], r.shape[0]), get=lambda ix: arr_get(eng, r, (ix[1], ix[0])), dtype=r.dtype,
               mat=None if r.mat is None else TR(r.mat))
    if isinstance(a[0], Ref):
        rt = root(eng, a[0])
        n.view = (rt.id, eng.st.heap[rt.id])
    return eng.alloc(n)


def may_raise(eng, name):
    b = eng.fresh("raises", "bool")
    if eng.choose(b):
        raise PyRaise(name)


def x_numpy_eye(eng, a, k):
    n = norm(a[0]) if a else None
    if len(a) != 1 or set(k) - {"dtype"} or not isinstance(n, int):
        raise Unsupported("eye")
    return eng.alloc(ArrObj((n, n), items=[1 if i == j else 0 for i in range(n) for j in range(n)], mat=z3.Const("identity", Mat)))


x_numpy_identity = x_numpy_eye


def x_numpy_linalg_inv(eng, a, k):
    r = mat_of(eng, a[0])
    may_raise(eng, "numpy.linalg.LinAlgError")
    return mk_mat(eng, INV(r.mat), (r.shape[1], r.shape[0]))


def x_numpy_linalg_lstsq(eng, a, k):
    """Least squares: the result satisfies the normal equations, provided the cut-off for small singular
    values is (about) machine precision."""
    A, b = mat_of(eng, a[0]), mat_of(eng, a[1])
    rc = a[2] if len(a) > 2 else k.get("rcond", "warn")
    may_raise(eng, "numpy.linalg.LinAlgError")
    x = LSTSQ(A.mat, b.mat)
    ok = rc == "warn" or rc is None
    if not ok:
        rc = norm(as_num(rc))
        ok = is_conc(rc) and rc <= Fraction(1, 10 ** 14)
    if ok:
        At = TR(A.mat)
        eng.define(MUL(MUL(At, A.mat), x) == MUL(At, b.mat))
    else:
        x = z3.Const("truncated!%d" % eng.fresh_id(), Mat)
    res = mk_mat(eng, x, (A.shape[1], b.shape[1]))
    return (res, Opaque("residuals"), eng.fresh("rank", "int"), Opaque("singular values"))


def x_numpy_linalg_solve(eng, a, k):
    A, b = mat_of(eng, a[0]), mat_of(eng, a[1])
    may_raise(eng, "numpy.linalg.LinAlgError")
    if b.mat.decl().name() == "identity":
        return mk_mat(eng, INV(A.mat), (A.shape[1], b.shape[1]))
    x = SOLVE(A.mat, b.mat)
    eng.define(MUL(A.mat, x) == b.mat)
    return mk_mat(eng, x, (A.shape[1], b.shape[1]))


# ---- random numbers
def random_call(eng, name, a, k, gen):
    if name == "uniform":
        lo, hi = (list(a) + [Fraction(0), Fraction(1)][len(a):])[:2] if len(a) < 2 else a[:2]
        lo, hi = k.get("low", lo), k.get("high", hi)
        if len(a) > 2 or set(k) - {"low", "high"}:
            raise Unsupported("uniform arguments")
        r = eng.fresh("uniform")
        x, y = as_num(lo), as_num(hi)
        eng.assume(z3.Implies(R(x) <= R(y), z3.And(R(x) <= r, r <= R(y))))
        event(eng, "uniform", lo, hi, r)
        return r
    if name == "triangular":
        if len(a) != 3 or k:
            a = list(a) + [k[n] for n in ("left", "mode", "right")[len(a):] if n in k]
            if len(a) != 3:
                raise Unsupported("triangular arguments")
        l, m, h = [as_num(x) for x in a]
        if eng.choose(zor(cmp(">", l, m), cmp(">", m, h), cmp("==", l, h))):
            raise PyRaise("ValueError", "triangular")
        r = eng.fresh("triangular")
        eng.assume(z3.And(R(l) <= r, r <= R(h)))
        event(eng, "triangular", l, m, h, r)
        return r
    if name == "multivariate_normal":
        mean, cov = a[0] if a else k["mean"], a[1] if len(a) > 1 else k["cov"]
        rm = rec_of(eng, mean)
        k = {n: v for n, v in k.items() if not (n == "method" or n == "check_valid" and v in ("warn", "ignore"))}
        if len(a) > 2 or set(k) - {"mean", "cov"} or rm.ndim != 1 or not conc_shape(rm.shape):
            raise Unsupported("multivariate_normal arguments")
        items = [eng.fresh("mvn") for _ in range(rm.shape[0])]
        event(eng, "mvn", mean, cov_key(eng, cov), Vec(items, "np"))
        return eng.alloc(ArrObj(rm.shape, items=items))
    raise Unsupported("random.%s" % name)


def cov_key(eng, cov):
    r = rec_of(eng, cov)
    return r.mat if r.mat is not None else Vec(list(r.items), "np") if r.items is not None else cov


def x_numpy_random_uniform(eng, a, k):
    return random_call(eng, "uniform", a, k, None)


def x_numpy_random_random(eng, a, k):
    if k or a and a[0] is not None:
        raise Unsupported("random arguments")
    return random_call(eng, "uniform", [], {}, None)


x_numpy_random_rand = x_numpy_random_random_sample = x_random_random = x_numpy_random_random


def x_numpy_random_triangular(eng, a, k):
    return random_call(eng, "triangular", a, k, None)


def x_numpy_random_multivariate_normal(eng, a, k):
    return random_call(eng, "multivariate_normal", a, k, None)


def x_numpy_random_default_rng(eng, a, k):
    if a or k:
        event(eng, "seeded_rng", *a)
    return eng.alloc(ExtObj("rng", {}))


def x_numpy_random_seed(eng, a, k):
    event(eng, "seeded_rng", *a)
    return None


x_random_seed = x_numpy_random_seed


def x_random_uniform(eng, a, k):
    return random_call(eng, "uniform", a, k, None)


# ---- input / output
def x_io_StringIO(eng, a, k):
    start = [] if not a or a[0] == "" else [a[0]]
    return eng.alloc(ExtObj("stringio", {"chunks": eng.alloc(ListObj(items=start))}))


def x_bz2_BZ2File(eng, a, k):
    mode = a[1] if len(a) > 1 else k.get("mode", "r")
    f = eng.alloc(ExtObj("file", {"name": a[0] if a else k.get("filename"), "mode": mode, "kind": "bz2"}))
    return f


def x_bz2_open(eng, a, k):
    return x_bz2_BZ2File(eng, a, k)


def x_datetime_datetime_now(eng, a, k):
    return Opaque("datetime", {})


def x_logging_getLogger(eng, a, k):
    return Opaque("logger")
