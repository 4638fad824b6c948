"""Values and exact arithmetic of the symbolic executor.

Numbers are Python ints / Fractions when known, z3 Int / Real terms otherwise.  Floating point is
read as exact real arithmetic; decimal literals are read as the decimal they spell, and a literal
within 2 ulp of r*pi or r/pi (r a small rational) is read as that multiple of pi.
"""
import math
from fractions import Fraction
import z3

z3.set_param("smt.random_seed", 1)


class Unsupported(Exception):
    """The code uses something outside the verifier's subset."""


class Infeasible(Exception):
    """The current path condition is unsatisfiable."""


class Undef(Exception):
    """A numerically undefined operation (division by zero, log or root of a negative number)."""
    def __init__(self, what):
        super().__init__(what)
        self.what = what


class PyRaise(Exception):
    def __init__(self, cls, msg=None):
        super().__init__(str(cls))
        self.cls = cls          # ClassVal, or a str naming a builtin / external exception
        self.msg = msg

    @property
    def name(self):
        return self.cls if isinstance(self.cls, str) else self.cls.name


class Return_(Exception):
    def __init__(self, val):
        self.val = val


class Break_(Exception):
    pass


class Continue_(Exception):
    pass


class Inf:
    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return "Inf(%d)" % self.s


class NaN:
    pass


class Ref:
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("Ref", self.id))

    def __repr__(self):
        return "Ref(%s)" % self.id


class Vec:
    """A small fixed-length sequence stored by value: a row, vertex or well inside a symbolic list."""
    def __init__(self, items, kind):
        self.items = tuple(items)
        self.kind = kind        # 'tuple', 'list', 'np', 'mixed'

    def __repr__(self):
        return "Vec(%s,%r)" % (self.kind, self.items)


class Dyn:
    """A dynamically typed value: tag (z3 Int), numeric value, length, elements."""
    INT, FLOAT, BOOL, TUPLE, LIST, STR, NONE, OTHER = range(8)

    def __init__(self, tag, num, n, elems, name="dyn", fn=None, ident=None):
        self.ident = ident      # which specification this is, for contracts
        self.tag, self.num, self.n, self.elems, self.name = tag, num, n, elems, name
        self.fn = fn            # element at any position, where known
        # elems: python list of values; positions beyond it are not modelled


class Opaque:
    """An external value about which nothing is known."""
    def __init__(self, path, data=None):
        self.path = path
        self.data = data

    def __repr__(self):
        return "Opaque(%s)" % self.path


class Ext:
    """An external (library) module, function or class, by dotted path."""
    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "Ext(%s)" % self.path


class FmtStr:
    """A formatted string: template text and the values that were formatted into it."""
    def __init__(self, text, args, parts=None):
        self.text, self.args = text, list(args)
        self.parts = parts          # where known: strings and (index into args, conversion, parts of the format specification)

    def __repr__(self):
        return "FmtStr(%r,%r)" % (self.text, self.args)


class Func:
    def __init__(self, node, module, qualname, closure=None, cls=None, defaults=None):
        self.node, self.module, self.qualname = node, module, qualname
        self.closure, self.cls, self.defaults = closure, cls, defaults


class BoundMethod:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Native:
    """A function implemented by the verifier (contract parameter or method of a modelled object)."""
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class ClassVal:
    def __init__(self, name, module, node, bases):
        self.name, self.module, self.node, self.bases = name, module, node, bases
        self.members = {}
        self.qualname = module + "." + name

    def __repr__(self):
        return "Class(%s)" % self.name


class ModuleVal:
    def __init__(self, name):
        self.name = name


class Seq:
    """An immutable symbolic sequence (range, slice, zip, ...): length and getter."""
    def __init__(self, n, get, kind="seq"):
        self.n, self.get, self.kind = n, get, kind


class Iter:
    """An iterator (zip, map, generator expression, ...): a sequence that can be gone through once."""
    def __init__(self, seq, key, src=None):
        self.seq, self.key, self.src = seq, key, src


# ---- heap records (immutable; replaced on mutation) -----------------------------------------
class ListObj:
    def __init__(self, items=None, n=None, get=None, frozen=False, tag=None):
        self.items = items          # python list when the length is known
        self._n, self._get = n, get
        self.frozen = frozen
        self.tag = tag

    @property
    def n(self):
        return len(self.items) if self.items is not None else self._n

    def clone(self, **kw):
        d = dict(items=self.items, n=self._n, get=self._get, frozen=self.frozen, tag=self.tag)
        d.update(kw)
        return ListObj(**d)


class ArrObj:
    def __init__(self, shape, get=None, items=None, dtype="real", buf=None, frozen=False, mat=None):
        self.shape = tuple(shape)
        self.items = items          # flat list when the shape is known and small
        self.get_ = get
        self.dtype, self.buf, self.frozen, self.mat = dtype, buf, frozen, mat

    @property
    def ndim(self):
        return len(self.shape)

    def clone(self, **kw):
        d = dict(shape=self.shape, get=self.get_, items=self.items, dtype=self.dtype, buf=self.buf,
                 frozen=self.frozen, mat=self.mat)
        d.update(kw)
        return ArrObj(**d)


class InstObj:
    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class DictObj:
    def __init__(self, items, frozen=False):
        self.items = items          # python dict: concrete key -> value


class ExtObj:
    """An external object with verifier-side state (file, string buffer, random generator)."""
    def __init__(self, kind, data):
        self.kind, self.data = kind, data


# ---- tokens ---------------------------------------------------------------------------------
CELL = z3.DeclareSort("Cell")                               # an entry of a table: a number or a missing value
TEXT = z3.DeclareSort("Text")                               # a string about which nothing is known
MISSING = z3.Function("missing", CELL, z3.BoolSort())
NUMBER = z3.Function("number", CELL, z3.RealSort())


def is_cell(v):
    return isinstance(v, z3.ExprRef) and v.sort().eq(CELL)


def is_text(v):
    return isinstance(v, z3.ExprRef) and v.sort().eq(TEXT)


# ---- numbers --------------------------------------------------------------------------------
PI = z3.Real("pi")
IPI = z3.Real("inv_pi")
PI_FACTS = [PI > z3.RealVal("3.14159265358979"), PI < z3.RealVal("3.14159265358980"), PI * IPI == 1,
            IPI > z3.RealVal("0.318309886183790"), IPI < z3.RealVal("0.318309886183791")]


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_bool(v):
    return isinstance(v, (bool, z3.BoolRef))


def is_num(v):
    return (isinstance(v, (int, Fraction)) and not isinstance(v, bool)) or isinstance(v, z3.ArithRef)


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (isinstance(v, z3.ArithRef) and v.is_int())


def is_conc(v):
    return isinstance(v, (int, Fraction))


def Z(v):
    """z3 term of a number or boolean."""
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    if isinstance(v, z3.ExprRef):
        return v
    raise Unsupported("not a number: %r" % (v,))


def of_sum(v):
    """An integer term that involves a sum of integers (those sums are kept as reals)."""
    k = v.decl().kind()
    if k == z3.Z3_OP_TO_INT:
        return z3.is_app(v.arg(0)) and v.arg(0).decl().name().startswith("SUM")
    return k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_ITE) and any(of_sum(c) for c in v.children() if z3.is_int(c))


def real_of_int(v, deep=False):
    """ToReal, distributed over terms with sums of integers: such a sum is an integer, so ToReal(ToInt(sum)) is the sum."""
    if not (deep or of_sum(v)):
        return z3.ToReal(v)
    k, c = v.decl().kind(), v.children()
    if k == z3.Z3_OP_TO_INT and of_sum(v):
        return c[0]
    if k == z3.Z3_OP_ITE:
        return z3.If(c[0], real_of_int(c[1], deep), real_of_int(c[2], deep))
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL):
        c = [real_of_int(x, deep) for x in c]
        if k == z3.Z3_OP_ADD:
            return z3.Sum(*c)
        if k == z3.Z3_OP_MUL:
            return z3.Product(*c)
        if k == z3.Z3_OP_UMINUS:
            return -c[0]
        r = c[0]
        for x in c[1:]:
            r = r - x
        return r
    return z3.ToReal(v)


def R(v):
    """Real-sorted z3 term of a number."""
    if isinstance(v, bool):
        return z3.RealVal(1 if v else 0)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.RealVal(1), z3.RealVal(0))
    if isinstance(v, (int, Fraction)):
        return z3.RealVal(v)
    if isinstance(v, z3.ArithRef):
        if v.is_int():
            return real_of_int(v)
        return v
    if isinstance(v, Dyn):
        return v.num
    raise Unsupported("not a number: %r" % (v,))


def I(v):
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, z3.ArithRef) and v.is_int():
        return v
    raise Unsupported("not an integer: %r" % (v,))


_PI_MULT = [Fraction(a, b) for a in (1, 2, 3, 4, 8) for b in (1, 2, 3, 4, 6, 8, 180)]


def float_literal(x):
    if math.isinf(x):
        return Inf(1 if x > 0 else -1)
    if math.isnan(x):
        return NaN()
    if x == 0 or float(x).is_integer() or abs(x) < 1e-3 or abs(x) > 100:
        return Fraction(repr(x)) if not float(x).is_integer() else Fraction(int(x))
    for m in _PI_MULT:
        for base, t in ((math.pi, PI), (1 / math.pi, IPI)):
            w = float(m) * base
            if abs(abs(x) - w) <= 2 * math.ulp(w):
                m2 = m if x > 0 else -m
                return t if m2 == 1 else z3.RealVal(m2) * t
    return Fraction(repr(x))


def as_num(v):
    """Numeric view of a value in arithmetic (bools count as 0/1, scalars of dynamic type as their number)."""
    if is_num(v):
        return v
    if isinstance(v, bool):
        return 1 if v else 0
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, Dyn):
        return v.num
    return None


def add(a, b):
    if is_conc(a) and is_conc(b):
        return a + b
    if is_conc(a) and a == 0 and (is_int(b) == is_int(a) or not is_int(b)):
        return b
    if is_conc(b) and b == 0 and (is_int(b) == is_int(a) or not is_int(a)):
        return a
    if is_int(a) and is_int(b):
        return I(a) + I(b)
    return R(a) + R(b)


def neg(a):
    if is_conc(a):
        return -a
    return -a


def sub(a, b):
    if is_conc(a) and is_conc(b):
        return a - b
    if is_conc(b) and b == 0 and (is_int(b) == is_int(a) or not is_int(a)):
        return a
    if is_int(a) and is_int(b):
        return I(a) - I(b)
    return R(a) - R(b)


def mul(a, b):
    if is_conc(a) and is_conc(b):
        return a * b
    if is_conc(a) and a == 1 and (is_int(a) or not is_int(b)):
        return b
    if is_conc(b) and b == 1 and (is_int(b) or not is_int(a)):
        return a
    if is_int(a) and is_int(b):
        return I(a) * I(b)
    return R(a) * R(b)


def zsimp(t):
    return z3.simplify(t) if is_z3(t) else t


def lit_value(t):
    """Concrete value of a z3 numeral, else None."""
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


def norm(v):
    """Fold z3 numerals / boolean constants back to Python values."""
    if isinstance(v, z3.BoolRef):
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return v
    if isinstance(v, z3.ArithRef):
        l = lit_value(v)
        if l is None:
            s = z3.simplify(v)
            l = lit_value(s)
            if l is None:
                return v
        if v.is_int():
            return int(l)
        return Fraction(l)
    return v


def zand(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return False
    if not xs:
        return True
    if len(xs) == 1:
        return xs[0]
    return z3.And(*[Z(x) for x in xs])


def zor(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    if not xs:
        return False
    if len(xs) == 1:
        return xs[0]
    return z3.Or(*[Z(x) for x in xs])


def znot(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def zimp(a, b):
    if a is True:
        return b
    if a is False or b is True:
        return True
    return z3.Implies(Z(a), Z(b))


def eq(a, b):
    """Equality formula of two numbers / booleans."""
    if is_bool(a) and is_bool(b):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return Z(a) == Z(b)
    a, b = as_num(a), as_num(b)
    if a is None or b is None:
        raise Unsupported("equality of non-numbers")
    if is_conc(a) and is_conc(b):
        return a == b
    if is_int(a) and is_int(b):
        return I(a) == I(b)
    return R(a) == R(b)


def cmp(op, a, b):
    if isinstance(a, Inf) or isinstance(b, Inf):
        x = a.s if isinstance(a, Inf) else 0
        y = b.s if isinstance(b, Inf) else 0
        return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
    if isinstance(a, NaN) or isinstance(b, NaN):
        return op == "!="
    if is_cell(a) or is_cell(b):
        miss = zor(*[MISSING(x) for x in (a, b) if is_cell(x)])
        r = cmp(op, *[NUMBER(x) if is_cell(x) else x for x in (a, b)])
        return zor(miss, r) if op == "!=" else zand(znot(miss), r)
    a, b = as_num(a), as_num(b)
    if a is None or b is None:
        raise Unsupported("comparison of non-numbers")
    if is_conc(a) and is_conc(b):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    if is_int(a) and is_int(b):
        x, y = I(a), I(b)
    else:
        x, y = R(a), R(b)
    return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]


def ite(c, a, b):
    """Value-level conditional."""
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if is_z3(c):
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
    if is_bool(a) and is_bool(b):
        return z3.If(c, Z(a), Z(b))
    if (is_num(a) or is_bool(a)) and (is_num(b) or is_bool(b)):
        a, b = as_num(a), as_num(b)
        if is_int(a) and is_int(b):
            return z3.If(c, I(a), I(b))
        return z3.If(c, R(a), R(b))
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.sort().eq(b.sort()):
        return z3.If(c, a, b)
    if isinstance(a, (tuple, Vec)) and isinstance(b, (tuple, Vec)):
        ai = a if isinstance(a, tuple) else a.items
        bi = b if isinstance(b, tuple) else b.items
        ka = "tuple" if isinstance(a, tuple) else a.kind
        kb = "tuple" if isinstance(b, tuple) else b.kind
        if len(ai) == len(bi):
            items = [ite(c, x, y) for x, y in zip(ai, bi)]
            k = ka if ka == kb else "mixed"
            return tuple(items) if k == "tuple" else Vec(items, k)
    if isinstance(a, Dyn) and isinstance(b, Dyn) and len(a.elems) == len(b.elems):
        return Dyn(z3.If(c, a.tag, b.tag), z3.If(c, a.num, b.num), z3.If(c, a.n, b.n),
                   [ite(c, x, y) for x, y in zip(a.elems, b.elems)],
                   fn=None if a.fn is None or b.fn is None else lambda i: z3.If(c, a.fn(i), b.fn(i)))
    if isinstance(a, (str, type(None), Ref)) and a == b and type(a) is type(b):
        return a
    raise Unsupported("conditional merge of %r and %r" % (type(a).__name__, type(b).__name__))
