"""Symbolic executor / verification-condition generator for the Python of /repo.

Direct-style execution; a path is a list of decisions, and alternatives are explored by
re-executing from a state snapshot.  Calls of functions under contract use the contract, other
repository functions are executed in place, loops over symbolic sequences (and while loops) are
abstracted by an inductive invariant chosen by fixpoint from candidates.
"""
import ast
import os
import time
from fractions import Fraction
import sys
import z3
from .vals import *
from . import vals as V
from .solve import Solver_

BUILTIN_EXC = {}
for _n in dir(__builtins__ if not isinstance(__builtins__, dict) else object):
    pass
import builtins as _b
for _n in dir(_b):
    _o = getattr(_b, _n)
    if isinstance(_o, type) and issubclass(_o, BaseException):
        BUILTIN_EXC[_n] = _o


class State:
    def __init__(self):
        self.frames, self.heap, self.pc, self.ctr = {}, {}, [], 0
        self.univ = []          # universal facts
        self.defs = set()       # ids of definitional facts in pc

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.univ = list(self.univ)
        s.defs = set(self.defs)
        s.ctr = self.ctr
        return s


class Outcome:
    def __init__(self, kind, val, st):
        self.kind, self.val, self.st = kind, val, st

    def __repr__(self):
        return "Outcome(%s,%r)" % (self.kind, self.val)


class Poison:
    def __init__(self, name):
        self.name = name


class Explorer:
    _n = 0

    def __init__(self):
        Explorer._n += 1
        self.id = Explorer._n
        self.dec, self.pos, self.stack = [], 0, [[]]
        self.forced = set()


class Obligation:
    def __init__(self, name, pc, univ, goal, where):
        self.name, self.pc, self.univ, self.goal, self.where = name, pc, univ, goal, where
        self.result = None      # 'proved' | 'refuted' | 'unknown'
        self.model = None
        self.info = ""
        self.backend = ""
        self.time = 0.0
        self.abstract = False   # the path went through a loop or call abstraction


# ------------------------------------------------------------------------------------- program
class Program:
    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.sources = {}

    def path(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isfile(p + ".py"):
            return p + ".py"
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        return None

    def is_repo(self, name):
        return self.path(name) is not None

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        p = self.path(name)
        if p is None or not os.path.exists(p):
            raise Unsupported("module %s" % name)
        src = open(p, encoding="utf-8").read()
        self.sources[name] = src
        tree = ast.parse(src)
        m = {"__tree__": tree, "__name__": name, "__cache__": {}, "__defs__": {}, "__file__": p}
        self._collect(tree.body, m)
        self.modules[name] = m
        return m

    def _collect(self, body, m):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                m["__defs__"][s.name] = ("def", s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        m["__defs__"][a.asname] = ("mod", a.name)
                    else:
                        m["__defs__"][a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                mod = s.module or ""
                if s.level:
                    pk = m["__name__"].split(".")
                    pk = pk[:len(pk) - s.level]
                    mod = ".".join(pk + ([mod] if mod else []))
                for a in s.names:
                    m["__defs__"][a.asname or a.name] = ("from", mod, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        k = "many" if t.id in m["__defs__"] else "val"
                        m["__defs__"][t.id] = (k, s.value)
                    elif isinstance(t, ast.Tuple):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                m["__defs__"][e.id] = ("tup", t, s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                m["__defs__"][s.target.id] = ("val", s.value)
            elif isinstance(s, (ast.If, ast.Try)):
                pass


# ------------------------------------------------------------------------------------- engine
class Engine:
    MAX_PATHS = 4000
    UNROLL_LIMIT = 64

    def __init__(self, program, contracts, solver=None):
        self.prog = program
        self.contracts = contracts          # qualname -> contract
        self.solver = solver or Solver_()
        self.st = State()
        self.ex = None
        self.fid = None
        self.depth = 0
        self.obls = []
        self.contract = None                # contract under verification
        self.verifying = None
        self.unroll = None                  # int: loops are unrolled up to this many iterations
        self.quiet = 0                      # >0: obligations are not recorded (discovery passes)
        self.loop_cache = {}
        self.loopK = []                     # iteration constants of the loops under analysis, outermost first
        self.prune_cache = {}
        self.loop_log = []
        self.inlined = set()
        self.used_contracts = set()
        self.used_models = set()
        self.truncated = False
        self.paths = 0
        self.deadline = None
        self.keep = []
        self.skolem = set()
        self.counts = {}                    # name -> what is counted
        self.stats = {}                     # name -> what a statistic is taken of
        self.sums = {}                      # name -> (k, term, facts)
        self.exs = {}                       # name -> (k, formula, facts)
        self.sort_tab = {}
        self.spec_defs = {}                 # name of a spec function -> lambda args: defining formula
        from . import models
        self.models = models

    # ---- state helpers
    def fresh_id(self):
        self.st.ctr += 1
        return self.st.ctr

    def fresh(self, name, sort="real"):
        n = "%s!%d" % (name, self.fresh_id())
        if "/contracts/" in sys._getframe(1).f_code.co_filename:
            self.skolem.add(n)      # an arbitrary value of the specification's own
        if sort == "real":
            return z3.Real(n)
        if sort == "int":
            return z3.Int(n)
        if sort == "bool":
            return z3.Bool(n)
        raise ValueError(sort)

    def alloc(self, obj):
        r = Ref(self.fresh_id())
        self.st.heap[r.id] = obj
        return r

    def obj(self, r):
        return self.st.heap[r.id]

    def assume(self, f):
        if f is True:
            return
        if f is False:
            raise Infeasible()
        self.st.pc.append(Z(f))

    def define(self, f):
        """Assume a fact that holds of the standard interpretation (definition of sqrt, sin, ...)."""
        if f is True or z3.is_true(f):
            return
        self.st.pc.append(f)
        self.st.defs.add(f.get_id())
        self.keep.append(f)

    def oblige(self, name, goal, assume=True):
        """Record an obligation under the current path condition."""
        if not self.quiet:
            if isinstance(goal, bool):
                goal = z3.BoolVal(goal)
            self.obls.append(Obligation(name, list(self.st.pc), list(self.st.univ), goal, self.verifying))
        if assume:
            self.assume(goal)

    def lemma(self, name, hyps, goal):
        """Record hyps |- goal (nothing else is used) and assume the implication."""
        if not self.quiet:
            self.obls.append(Obligation("lemma: " + name, list(hyps), [], goal, self.verifying))
        have = {h.get_id() for p in self.st.pc for h in [p] + (p.children() if z3.is_and(p) else [])}
        rest = [h for h in hyps if h.get_id() not in have]
        self.assume(z3.Implies(z3.And(*rest), goal) if rest else goal)

    def feasible(self, f):
        return self.solver.feasible(self.st.pc, f)

    def check_time(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the verification-condition generator exhausted")

    # ---- path exploration
    def choose(self, c):
        c = norm(zsimp(c) if is_z3(c) else c)
        if isinstance(c, bool):
            return c
        ex = self.ex
        if ex is None:                  # no exploration is under way: the path condition has to decide
            if not self.feasible(z3.Not(c)):
                return True
            if not self.feasible(c):
                return False
            raise Unsupported("the pre-state depends on an undecided condition: %s" % str(c)[:80])
        if ex.pos < len(ex.dec):
            d = ex.dec[ex.pos]
        else:
            self.check_time()
            t = self.feasible(c)
            f = self.feasible(z3.Not(c)) if t else True
            if t and f and getattr(self.contract, "prune", False) and self.st.univ:
                # opt-in: the quantified facts decide the condition
                if self.follows(z3.Not(c)):
                    t = False
                elif self.follows(c):
                    f = False
            if t and f:
                ex.stack.append(ex.dec[:] + [False])
                d = True
            elif t:
                d = True
            else:
                if not self.solver.feasible(self.st.pc, z3.BoolVal(True)):
                    raise Infeasible()
                d = False
            ex.dec.append(d)
            if not (t and f):
                ex.forced.add(tuple(ex.dec))
        ex.pos += 1
        g = c if d else z3.Not(c)
        if tuple(ex.dec[:ex.pos]) in ex.forced:         # a fact of this path, not a condition on it
            self.define(g)
        else:
            self.assume(g)
        return d

    def follows(self, g):
        from . import discharge as D
        key = (tuple(p.get_id() for p in self.st.pc), len(self.st.univ), g.get_id())
        if key not in self.prune_cache:
            fl = D.Flat(self)
            inst = fl.flatten(self.st.pc, self.st.univ, g)
            self.prune_cache[key] = self.solver.valid(list(self.st.pc) + inst, g, ms=400)
            self.keep.append((list(self.st.pc), g))
        return self.prune_cache[key]

    def choose_n(self, n):
        """n-ary fork without a feasibility check."""
        if n == 0:
            raise Infeasible()
        ex = self.ex
        if ex.pos < len(ex.dec):
            d = ex.dec[ex.pos]
        else:
            for i in range(1, n):
                ex.stack.append(ex.dec[:] + [i])
            d = 0
            ex.dec.append(d)
        ex.pos += 1
        return d

    def explore(self, thunk, state, fid):
        """All outcomes of thunk from state."""
        outs = []
        saved = (self.ex, self.st, self.fid, self.depth)
        ex = Explorer()
        n = 0
        try:
            while ex.stack:
                n += 1
                if n > self.MAX_PATHS:
                    raise Unsupported("too many paths")
                self.check_time()
                ex.dec = ex.stack.pop()
                ex.pos = 0
                self.ex = ex
                self.st = state.copy()
                self.fid = fid
                self.depth = saved[3]
                try:
                    v = thunk()
                    outs.append(Outcome("normal", v, self.st))
                except Return_ as e:
                    outs.append(Outcome("return", e.val, self.st))
                except Break_:
                    outs.append(Outcome("break", None, self.st))
                except Continue_:
                    outs.append(Outcome("continue", None, self.st))
                except PyRaise as e:
                    outs.append(Outcome("raise", e, self.st))
                except Undef as e:
                    outs.append(Outcome("undef", e.what, self.st))
                except Infeasible:
                    pass
        finally:
            self.ex, self.st, self.fid, self.depth = saved
        self.paths += n
        return outs

    # ---- arithmetic with definedness
    def div(self, a, b):
        if isinstance(b, Inf):
            return Fraction(0)
        if isinstance(a, (Inf, NaN)) or isinstance(b, NaN):
            raise Unsupported("inf/nan arithmetic")
        if is_conc(b):
            if b == 0:
                raise Undef("division by zero")
            if is_conc(a):
                return Fraction(a) / Fraction(b)
            return R(a) / R(b)
        if self.choose(cmp("==", b, 0)):
            raise Undef("division by zero")
        return R(a) / R(b)

    def sqrt(self, t, nonneg=False):
        t = norm(t)
        if is_conc(t):
            if t < 0:
                raise Undef("sqrt of a negative number")
            import math
            f = Fraction(t)
            a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator:
                return Fraction(a, b)
        if not nonneg and self.choose(cmp("<", t, 0)):
            raise Undef("sqrt of a negative number")
        t = R(t)
        s = self.SQRT(t)
        self.define(z3.And(s >= 0, s * s == t))
        return s

    SQRT = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
    LOG = z3.Function("log", z3.RealSort(), z3.RealSort())
    SIN = z3.Function("sin", z3.RealSort(), z3.RealSort())
    COS = z3.Function("cos", z3.RealSort(), z3.RealSort())
    EXP = z3.Function("exp", z3.RealSort(), z3.RealSort())
    POW = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())

    def log(self, t):
        if self.choose(cmp("<=", t, 0)):
            raise Undef("log of a non-positive number")
        t = z3.simplify(R(t))
        if z3.is_app(t) and t.decl().eq(self.SQRT):
            return R(Fraction(1, 2)) * self.LOG(t.arg(0))
        return self.LOG(t)

    def trig(self, t):
        t = z3.simplify(R(t))
        c, s = self.COS(t), self.SIN(t)
        self.define(c * c + s * s == 1)
        return c, s

    def power(self, a, b):
        if isinstance(a, (Inf, NaN)):
            raise Unsupported("inf/nan arithmetic")
        b = norm(b)
        if is_conc(b):
            b = Fraction(b)
            if b.denominator == 1 and abs(b) <= 12:
                n = int(abs(b))
                r = 1 if is_int(a) else Fraction(1)
                for _ in range(n):
                    r = mul(r, a)
                return self.div(1, r) if b < 0 else r
            if b == Fraction(1, 2):
                return self.sqrt(a)
            if b == Fraction(-1, 2):
                return self.div(1, self.sqrt(a))
            if self.choose(cmp("<", a, 0)):
                raise Undef("fractional power of a negative number")
            p = self.POW(R(a), R(b))
            self.define(z3.And(z3.Implies(R(a) > 0, p > 0), z3.Implies(R(a) == 0, p == 0)) if b > 0
                        else z3.Implies(R(a) > 0, p > 0))
            return p
        raise Unsupported("symbolic exponent")

    def floor(self, a):
        if is_int(a):
            return a
        if is_conc(a):
            import math
            return math.floor(a)
        return z3.ToInt(a)

    def ceil(self, a):
        if is_int(a):
            return a
        if is_conc(a):
            import math
            return math.ceil(a)
        return -z3.ToInt(-a)

    def shape_check(self, x, y):
        """Array assignment needs equal dimensions; NumPy raises ValueError otherwise."""
        if not self.choose(eq(x, y)):
            raise PyRaise("ValueError", "assignment shape")

    # ---- truth
    def truth(self, v):
        if is_bool(v):
            return norm(v) if is_z3(v) else v
        if v is None:
            return False
        if is_num(v):
            return norm(cmp("!=", v, 0))
        if isinstance(v, (str,)):
            return len(v) > 0
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, Vec):
            if v.kind == "np":
                raise Unsupported("truth of an array")
            return len(v.items) > 0
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, ListObj):
                if o.items is None and getattr(o, "filt", None) is not None:
                    from .loops import exists_term, uniq
                    kv = z3.Int("kv!%d" % uniq(self))
                    some = norm(exists_term(self, kv, o.filt[1](kv), o.filt[0]))
                    self.assume(Z(some) == Z(norm(cmp(">", o.n, 0))))
                    return some
                return norm(cmp(">", o.n, 0))
            if isinstance(o, DictObj):
                return len(o.items) > 0
            if isinstance(o, InstObj):
                return True
        if isinstance(v, Seq):
            return norm(cmp(">", v.n, 0))
        if isinstance(v, (Func, BoundMethod, ClassVal, Native, Iter)):
            return True
        raise Unsupported("truth value of %r" % (v,))

    def test(self, v):
        return self.choose(self.truth(v))

    # ---- names
    def func_ctx(self):
        return self.st.frames[self.fid]["__func__"]

    def lookup(self, name):
        fid = self.fid
        first = True
        while fid is not None:
            fr = self.st.frames[fid]
            if name in fr:
                v = fr[name]
                if isinstance(v, Poison):
                    raise Unsupported("value of '%s' after a loop" % name)
                return v
            if first and name in fr["__locals__"]:
                raise PyRaise("UnboundLocalError", name)
            first = False
            fid = fr["__parent__"]
        return self.global_(self.func_ctx().module, name)

    def global_(self, modname, name):
        m = self.prog.module(modname)
        if name in m["__cache__"]:
            return m["__cache__"][name]
        if name not in m["__defs__"]:
            if name in self.models.BUILTINS:
                return self.models.BUILTINS[name]
            if name in BUILTIN_EXC:
                return Ext("builtins." + name)
            if name == "__name__":
                return modname
            raise PyRaise("NameError", name)
        d = m["__defs__"][name]
        if d[0] == "def":
            v = self.make_def(d[1], modname, modname)
        elif d[0] == "mod":
            v = ModuleVal(d[1]) if self.prog.is_repo(d[1]) else Ext(d[1])
        elif d[0] == "from":
            if self.prog.is_repo(d[1]):
                if self.prog.is_repo(d[1] + "." + d[2]):
                    v = ModuleVal(d[1] + "." + d[2])
                else:
                    v = self.global_(d[1], d[2])
            else:
                v = Ext(d[1] + "." + d[2])
        elif d[0] == "val":
            v = self.const_expr(d[1], modname)
        elif d[0] == "tup":
            raise Unsupported("global tuple assignment")
        else:
            raise Unsupported("global '%s' assigned more than once" % name)
        m["__cache__"][name] = v
        return v

    def const_expr(self, node, modname):
        """Value of a module-level constant; mutable or computed globals become opaque."""
        if isinstance(node, ast.Constant):
            return self.constant(node.value)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            v = self.const_expr(node.operand, modname)
            if is_num(v):
                return neg(v)
            if isinstance(v, Inf):
                return Inf(-v.s)
        if isinstance(node, ast.Tuple):
            return tuple(self.const_expr(e, modname) for e in node.elts)
        if isinstance(node, ast.BinOp):
            a, b = self.const_expr(node.left, modname), self.const_expr(node.right, modname)
            if is_num(a) and is_num(b):
                return self.binop(node.op, a, b)
        if isinstance(node, (ast.Name, ast.Attribute)):
            save = self.st, self.fid
            try:
                if isinstance(node, ast.Name):
                    return self.global_(modname, node.id)
                b = self.const_expr(node.value, modname)
                return self.getattr(b, node.attr)
            finally:
                self.st, self.fid = save
        if isinstance(node, ast.Call):
            f = self.const_expr(node.func, modname) if isinstance(node.func, (ast.Name, ast.Attribute)) else None
            if isinstance(f, Ext) and f.path == "logging.getLogger":
                return Opaque("logger")
            if isinstance(f, Ext) and f.path in ("numpy.array", "numpy.sqrt", "math.sqrt", "numpy.finfo", "float", "int") or True:
                return Opaque("global:computed")
        return Opaque("global:computed")

    def constant(self, v):
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, int):
            return v
        if isinstance(v, float):
            return float_literal(v)
        if v is Ellipsis:
            return Opaque("Ellipsis")
        raise Unsupported("constant %r" % (v,))

    def make_def(self, node, modname, prefix, closure=None, cls=None):
        if isinstance(node, ast.ClassDef):
            cv = ClassVal(node.name, modname, node, [])
            for b in node.bases:
                if isinstance(b, ast.Name):
                    cv.bases.append(self.global_(modname, b.id))
                else:
                    cv.bases.append(Opaque("base"))
            q = prefix + "." + node.name
            if node.decorator_list:
                raise Unsupported("class decorator")
            for s in node.body:
                if isinstance(s, ast.FunctionDef):
                    kind = "method"
                    for dec in s.decorator_list:
                        if isinstance(dec, ast.Name) and dec.id in ("property", "staticmethod", "classmethod"):
                            kind = dec.id
                        elif isinstance(dec, ast.Attribute) and dec.attr == "setter":
                            kind = "setter"
                        else:
                            kind = "unsupported"
                    f = Func(s, modname, q + "." + s.name, None, cv)
                    if kind == "setter":
                        cv.members["%s.setter" % s.name] = ("setter", f)
                    else:
                        cv.members[s.name] = (kind, f)
                elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    cv.members[s.targets[0].id] = ("const", s.value)
                elif isinstance(s, (ast.Pass, ast.Expr, ast.AnnAssign)):
                    pass
                else:
                    raise Unsupported("class body statement")
            return cv
        f = Func(node, modname, prefix + "." + node.name, closure, cls)
        if node.decorator_list:
            f.decorated = True
        return f

    # ---- attributes
    def class_member(self, cls, name):
        c = cls
        seen = 0
        while isinstance(c, ClassVal) and seen < 10:
            if name in c.members:
                return c.members[name]
            c = c.bases[0] if c.bases else None
            seen += 1
        return None

    def getattr(self, v, name):
        if isinstance(v, ModuleVal):
            if self.prog.is_repo(v.name + "." + name):
                return ModuleVal(v.name + "." + name)
            return self.global_(v.name, name)
        if isinstance(v, Ext):
            return self.models.ext_attr(self, v, name)
        if isinstance(v, ClassVal):
            m = self.class_member(v, name)
            if m is None:
                raise PyRaise("AttributeError", name)
            if m[0] in ("staticmethod", "method"):
                return m[1]
            if m[0] == "const":
                return self.const_expr(m[1], v.module)
            raise Unsupported("class attribute %s" % name)
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, InstObj):
                if name in o.attrs:
                    return o.attrs[name]
                if isinstance(o.cls, ClassVal):
                    m = self.class_member(o.cls, name)
                    if m is not None:
                        if m[0] == "property":
                            return self.call_func(m[1], [v], {})
                        if m[0] == "method":
                            return BoundMethod(m[1], v)
                        if m[0] == "staticmethod":
                            return m[1]
                        if m[0] == "const":
                            return self.const_expr(m[1], o.cls.module)
                        raise Unsupported("member kind %s" % m[0])
                    if name.startswith("_"):
                        raise Unsupported("attribute %s of unknown provenance" % name)
                    raise PyRaise("AttributeError", name)
                raise Unsupported("attribute %s" % name)
            return self.models.obj_attr(self, v, o, name)
        if isinstance(v, Opaque):
            return self.models.opaque_attr(self, v, name)
        if isinstance(v, (str, FmtStr)):
            return Native("str." + name, lambda eng, a, k: eng.models.str_method(eng, v, name, a, k))
        if isinstance(v, (Vec, Seq, tuple)):
            return self.models.seq_attr(self, v, name)
        if is_num(v):
            return self.models.num_attr(self, v, name)
        if v is None:
            raise PyRaise("AttributeError", name)
        raise Unsupported("attribute %s of %r" % (name, v))

    def setattr(self, v, name, val):
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, InstObj):
                if isinstance(o.cls, ClassVal):
                    m = self.class_member(o.cls, name + ".setter")
                    if m is not None:
                        self.call_func(m[1], [v, val], {})
                        return
                    m = self.class_member(o.cls, name)
                    if m is not None and m[0] == "property":
                        raise PyRaise("AttributeError", name)
                o = self.obj(v)
                attrs = dict(o.attrs)
                attrs[name] = val
                self.st.heap[v.id] = InstObj(o.cls, attrs)
                return
        if isinstance(v, Opaque):
            raise Unsupported("assignment to an attribute of an external object")
        raise Unsupported("attribute assignment")

    # ---- calls
    def call(self, f, args, kwargs):
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, BoundMethod):
            return self.call_func(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, Native):
            return f.fn(self, args, kwargs)
        if isinstance(f, Ext):
            return self.models.ext_call(self, f.path, args, kwargs)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Opaque):
            return self.models.opaque_call(self, f, args, kwargs)
        raise Unsupported("call of %r" % (f,))

    def is_exc_class(self, c):
        while isinstance(c, ClassVal):
            if not c.bases:
                return False
            c = c.bases[0]
        return isinstance(c, Ext) and c.path.split(".")[-1] in BUILTIN_EXC

    def instantiate(self, cls, args, kwargs):
        if self.is_exc_class(cls):
            return self.alloc(ExtObj("exception", {"cls": cls, "args": args}))
        con = self.contracts.get(cls.qualname)
        if con is not None and con is not self.contract and not (self.unroll and con.inline_in_unroll):
            self.used_contracts.add(cls.qualname)
            return con.call(self, args, kwargs)
        r = self.alloc(InstObj(cls, {}))
        m = self.class_member(cls, "__init__")
        if m is not None:
            self.call_func(m[1], [r] + list(args), kwargs)
        elif args or kwargs:
            raise PyRaise("TypeError", "constructor")
        return r

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if a.kwarg is not None:
            raise Unsupported("**kwargs parameter")
        out = {}
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise("TypeError", "too many arguments to " + f.qualname)
            out[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        for n, v in zip(names, args):
            out[n] = v
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k not in names and k not in konly or k in out:
                raise PyRaise("TypeError", "argument %s of %s" % (k, f.qualname))
            out[k] = v
        defs = a.defaults
        for n, d in zip(names[len(names) - len(defs):], defs):
            if n not in out:
                out[n] = self.default_value(f, n, d)
        for n, d in zip(konly, a.kw_defaults):
            if n not in out and d is not None:
                out[n] = self.default_value(f, n, d)
        for n in names + konly:
            if n not in out:
                raise PyRaise("TypeError", "missing argument %s of %s" % (n, f.qualname))
        return out

    def default_value(self, f, name, node):
        """Default arguments are evaluated once per definition: one shared object per parameter."""
        key = "default:%s:%s" % (f.qualname, name)
        if key in self.st.heap:
            return Ref(key)
        save = self.fid
        fid = "deffr:%d" % self.fresh_id()
        self.st.frames[fid] = {"__func__": f, "__locals__": frozenset(), "__parent__": f.closure}
        self.fid = fid
        try:
            v = self.eval(node)
        finally:
            self.fid = save
        if isinstance(v, Ref):
            o = self.obj(v)
            self.st.heap[key] = o.clone(buf=key) if isinstance(o, ArrObj) else o
            return Ref(key)
        return v

    def assigned_names(self, node):
        c = getattr(node, "_assigned", None)
        if c is not None:
            return c
        names = set()

        def visit(n, top):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and not top:
                names.add(n.name)
                return
            if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                return
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                raise Unsupported("global/nonlocal statement")
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    names.add((al.asname or al.name).split(".")[0])
            if isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
            for ch in ast.iter_child_nodes(n):
                visit(ch, False)
        visit(node, True)
        for x in ast.walk(node.args):
            if isinstance(x, ast.arg):
                names.add(x.arg)
        node._assigned = frozenset(names)
        return node._assigned

    def call_func(self, f, args, kwargs):
        if getattr(f, "decorated", False):
            raise Unsupported("decorated function %s" % f.qualname)
        con = self.contracts.get(f.qualname)
        if con is not None and f.qualname != self.verifying and not (self.unroll and con.inline_in_unroll):
            self.used_contracts.add(f.qualname)
            return con.call(self, args, kwargs)
        if self.depth > 30:
            raise Unsupported("recursion")
        if f.qualname != self.verifying:
            self.inlined.add(f.qualname)
        binding = self.bind(f, args, kwargs)
        return self.run_body(f, binding)

    def run_body(self, f, binding):
        fid = "fr:%d" % self.fresh_id()
        fr = {"__func__": f, "__locals__": self.assigned_names(f.node) if not isinstance(f.node, ast.Lambda) else frozenset(a.arg for a in f.node.args.args),
              "__parent__": f.closure}
        fr.update(binding)
        self.st.frames[fid] = fr
        save = self.fid
        self.fid = fid
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(f.node)):
                raise Unsupported("generator function")
            self.exec_block(f.node.body)
            return None
        except Return_ as e:
            return e.val
        finally:
            self.fid = save
            self.depth -= 1

    # ---- statements
    def exec_block(self, body):
        for s in body:
            self.exec(s)

    def exec(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        if self.is_log_call(s.value):
            self.do_log(s.value)
            return
        self.eval(s.value)

    LOGNAMES = ("info", "debug", "warning", "error", "exception", "critical", "log", "warn")

    def is_log_call(self, e):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in self.LOGNAMES \
                and isinstance(e.func.value, ast.Name):
            try:
                v = self.lookup(e.func.value.id)
            except (PyRaise, Unsupported):
                return False
            return isinstance(v, Opaque) and v.path == "logger" or isinstance(v, Ext) and v.path == "logging"
        return False

    def do_log(self, e):
        """Log calls have no effect on the program; what they were given is kept as an event."""
        vals = []
        for a in e.args:
            try:
                vals.append(self.eval(a))
            except Unsupported:
                vals.append(Opaque("unknown"))
        h = getattr(self.contract, "on_log", None)
        if h is not None:
            h(self, e.func.attr, vals)

    def s_Pass(self, s):
        pass

    def s_Return(self, s):
        raise Return_(self.eval(s.value) if s.value is not None else None)

    def s_Break(self, s):
        raise Break_()

    def s_Continue(self, s):
        raise Continue_()

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def s_FunctionDef(self, s):
        f = self.make_def(s, self.func_ctx().module, self.func_ctx().qualname + ".<locals>", closure=self.fid)
        if s.decorator_list:
            raise Unsupported("decorator")
        self.st.frames[self.fid][s.name] = f

    def s_Import(self, s):
        for a in s.names:
            n = a.name if a.asname else a.name.split(".")[0]
            self.st.frames[self.fid][a.asname or n] = ModuleVal(n) if self.prog.is_repo(n) else Ext(n)

    def s_ImportFrom(self, s):
        for a in s.names:
            if self.prog.is_repo(s.module):
                v = self.global_(s.module, a.name)
            else:
                v = Ext(s.module + "." + a.name)
            self.st.frames[self.fid][a.asname or a.name] = v

    def s_Assert(self, s):
        if not self.test(self.eval(s.test)):
            raise PyRaise("AssertionError")

    def s_Raise(self, s):
        if s.exc is None:
            cur = self.st.frames[self.fid].get("__exc__")
            if cur is None:
                raise PyRaise("RuntimeError", "no active exception")
            raise cur
        v = self.eval(s.exc)
        raise self.to_exc(v)

    def to_exc(self, v):
        if isinstance(v, ClassVal):
            return PyRaise(v)
        if isinstance(v, Ext):
            return PyRaise(v.path.split(".")[-1] if v.path.startswith("builtins.") else v.path)
        if isinstance(v, Ref) and isinstance(self.obj(v), ExtObj) and self.obj(v).kind == "exception":
            c = self.obj(v).data["cls"]
            return PyRaise(c if isinstance(c, ClassVal) else c.split(".")[-1] if c.startswith("builtins.") else c,
                           self.obj(v).data["args"])
        raise Unsupported("raise of %r" % (v,))

    def exc_matches(self, exc, cls):
        """Does exception class exc (ClassVal or name) match handler class cls?"""
        if isinstance(cls, tuple):
            return any(self.exc_matches(exc, c) for c in cls)
        want = cls
        if isinstance(want, Ext):
            want = want.path[9:] if want.path.startswith("builtins.") else want.path
        c = exc
        while True:
            if isinstance(c, ClassVal):
                if isinstance(want, ClassVal) and want.qualname == c.qualname:
                    return True
                if not c.bases:
                    return False
                c = c.bases[0]
                if isinstance(c, Ext):
                    c = c.path[9:] if c.path.startswith("builtins.") else c.path
                continue
            break
        if isinstance(want, ClassVal):
            return False
        if c == want:
            return True
        if c in BUILTIN_EXC and want in BUILTIN_EXC:
            return issubclass(BUILTIN_EXC[c], BUILTIN_EXC[want])
        if c not in BUILTIN_EXC:            # external exception
            if c.endswith("LinAlgError"):
                return want in ("Exception", "BaseException") or str(want).endswith("LinAlgError")
            if c == "any":                  # an unknown exception raised by an abstract function
                if want in ("BaseException",):
                    return True
                return self.choose(z3.Bool("exc_is_%s" % (want if isinstance(want, str) else want.name)))
            return want in ("Exception", "BaseException")
        return False

    def s_Try(self, s):
        def run():
            try:
                self.exec_block(s.body)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ty = self.eval(h.type)
                        ok = self.exc_matches(e.cls, ty)
                    if ok:
                        fr = self.st.frames[self.fid]
                        if h.name:
                            fr[h.name] = Opaque("exception", e)
                        old = fr.get("__exc__")
                        fr["__exc__"] = e
                        self.exec_block(h.body)
                        self.st.frames[self.fid]["__exc__"] = old
                        return
                raise
            else:
                self.exec_block(s.orelse)
        if not s.finalbody:
            run()
            return
        pend = None
        try:
            run()
        except (PyRaise, Return_, Break_, Continue_) as e:
            pend = e
        self.exec_block(s.finalbody)        # may itself return / raise, overriding pend
        if pend is not None:
            raise pend

    def s_With(self, s):
        mgrs = []
        for it in s.items:
            v = self.eval(it.context_expr)
            mgrs.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, self.models.enter(self, v))
            else:
                self.models.enter(self, v)
        try:
            self.exec_block(s.body)
        finally:
            for v in reversed(mgrs):
                self.models.exit(self, v)

    def s_If(self, s):
        if self.test(self.eval(s.test)):
            self.exec_block(s.body)
        else:
            self.exec_block(s.orelse)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.frames[self.fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value)
                i = self.eval(t.slice)
                self.models.list_pop(self, b, i)
            else:
                raise Unsupported("del")

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            v = self.eval(s.value)
            self.assign(t, self.inplace(s.op, cur, v))
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value)
            cur = self.getattr(b, t.attr)
            v = self.eval(s.value)
            self.setattr(b, t.attr, self.inplace(s.op, cur, v))
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value)
            i = self.eval_index(t.slice)
            cur = self.getitem(b, i)
            v = self.eval(s.value)
            self.setitem(b, i, self.inplace(s.op, cur, v, sub=True))
        else:
            raise Unsupported("augmented assignment")

    def inplace(self, op, cur, v, sub=False):
        if isinstance(cur, Ref):
            o = self.obj(cur)
            if isinstance(o, ArrObj) and not sub:
                res = self.binop(op, cur, v)
                self.models.arr_fill(self, cur, res)
                return cur
            if isinstance(o, ListObj) and isinstance(op, ast.Add):
                self.models.list_extend(self, cur, v)
                return cur
        return self.binop(op, cur, v)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.st.frames[self.fid][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), t.elts)
            for e, x in zip(t.elts, items):
                self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value)
            self.setitem(b, self.eval_index(t.slice), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, elts=None):
        if elts is not None and any(isinstance(e, ast.Starred) for e in elts):
            raise Unsupported("starred assignment")
        if isinstance(v, tuple):
            items = list(v)
        elif isinstance(v, Vec):
            items = list(v.items)
        elif isinstance(v, Dyn) and n <= len(v.elems):
            if not self.choose(z3.Or(v.tag == Dyn.TUPLE, v.tag == Dyn.LIST)):
                if self.choose(z3.Or(v.tag == Dyn.STR, v.tag == Dyn.OTHER)):
                    raise Unsupported("unpacking of a dynamic value")
                raise PyRaise("TypeError", "not iterable")
            if not self.choose(eq(v.n, n)):
                raise PyRaise("ValueError", "unpack")
            items = v.elems[:n]
        else:
            s = self.as_seq(v)
            if not isinstance(s.n, int):
                if not self.choose(eq(s.n, n)):
                    raise PyRaise("ValueError", "unpack")
                return [s.get(i) for i in range(n)]
            items = [s.get(i) for i in range(s.n)]
        if len(items) != n:
            raise PyRaise("ValueError", "unpack")
        return items

    # ---- sequences
    def once(self, seq, src=None):
        """An iterator over a sequence; src is the list behind it, if there is one."""
        key = "once:%d" % self.fresh_id()
        self.st.heap[key] = ExtObj("iterator", False)
        return Iter(seq, key, src)

    def as_seq(self, v):
        if isinstance(v, Iter):
            rec = self.st.heap.get(v.key)
            if rec is None or rec.data:
                raise Unsupported("an iterator that is gone through again")
            self.st.heap[v.key] = ExtObj("iterator", True)
            return v.seq
        if isinstance(v, Seq):
            return v
        if isinstance(v, tuple):
            return Seq(len(v), lambda i: self.index_items(list(v), i))
        if isinstance(v, Vec):
            return Seq(len(v.items), lambda i: self.index_items(list(v.items), i))
        if isinstance(v, str):
            return Seq(len(v), lambda i: v[i])
        if isinstance(v, self.models.MaskIndex):
            m = self.obj(v.ref)
            return Seq(m.ndim, lambda i: self.models.MaskCoord(v, i))
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, ListObj):
                if o.items is not None:
                    return Seq(len(o.items), lambda i: self.index_items(o.items, i), "list")
                return Seq(o.n, o._get, "list")
            if isinstance(o, ArrObj):
                if o.ndim == 1:
                    return Seq(o.shape[0], lambda i: self.models.arr_get(self, o, (i,)), "arr")
                if o.ndim == 2:
                    return Seq(o.shape[0], lambda i: self.models.arr_row(self, o, i), "arr")
            if isinstance(o, DictObj):
                ks = list(o.items)
                return Seq(len(ks), lambda i: ks[i])
        if isinstance(v, Dyn):
            if not self.choose(z3.Or(v.tag == Dyn.TUPLE, v.tag == Dyn.LIST)):
                if self.choose(z3.Or(v.tag == Dyn.STR, v.tag == Dyn.OTHER)):
                    raise Unsupported("iteration over a dynamic value")
                raise PyRaise("TypeError", "not iterable")
            for m in range(len(v.elems) + 1):
                if self.choose(eq(v.n, m)):
                    return Seq(m, lambda i: self.index_items(list(v.elems[:m]), i))
            if v.fn is None:
                raise Unsupported("iteration over a dynamic value")
            return Seq(v.n, lambda i: v.fn(I(i)))
        raise Unsupported("iteration over %r" % (v,))

    def index_items(self, items, i):
        """Element of a concrete list at a possibly symbolic index (already known to be in range)."""
        i = norm(i)
        if isinstance(i, int):
            return items[i]
        if not items:
            raise Infeasible()
        v = items[-1]
        v = self.models.by_value(self, v) if isinstance(v, Ref) else v
        for k in range(len(items) - 2, -1, -1):
            w = items[k]
            w = self.models.by_value(self, w) if isinstance(w, Ref) else w
            v = ite(eq(i, k), w, v)
        return v

    # ---- loops
    def s_For(self, s):
        it = self.eval(s.iter)
        live = None
        if isinstance(it, Ref) and isinstance(self.obj(it), ListObj):
            live = it
        seq = self.as_seq(it)
        n = norm(seq.n) if not isinstance(seq.n, int) else seq.n
        if isinstance(n, int) and (n <= self.UNROLL_LIMIT or self.unroll):
            i = 0
            broke = False
            while True:
                if live is not None:
                    cur = self.obj(live)
                    if cur.items is None:
                        raise Unsupported("list changes form during iteration")
                    if i >= len(cur.items):
                        break
                    x = cur.items[i]
                else:
                    if i >= n:
                        break
                    x = seq.get(i)
                self.assign(s.target, x)
                try:
                    self.exec_block(s.body)
                except Break_:
                    broke = True
                    break
                except Continue_:
                    pass
                i += 1
            if not broke:
                self.exec_block(s.orelse)
            return
        if getattr(seq, "parts", None) is not None:
            return self.product_loop(s, seq)
        if self.unroll:
            if live is not None:
                raise Unsupported("symbolic list in unrolled mode")
            i = 0
            while self.choose(cmp("<", i, n)):
                if i >= self.unroll:
                    self.truncated = True
                    raise Infeasible()
                self.assign(s.target, seq.get(i))
                try:
                    self.exec_block(s.body)
                except Break_:
                    return
                except Continue_:
                    pass
                i += 1
            self.exec_block(s.orelse)
            return
        from .loops import symbolic_loop
        symbolic_loop(self, s, seq=seq, live=live)

    def product_loop(self, s, seq):
        """A loop over a product of sequences: nested loops."""
        def breaks(b):
            for x in b:
                if isinstance(x, ast.Break):
                    return True
                if not isinstance(x, (ast.For, ast.While, ast.FunctionDef)):
                    for f in ("body", "orelse", "finalbody"):
                        if breaks(getattr(x, f, [])):
                            return True
                    if any(breaks(h.body) for h in getattr(x, "handlers", [])):
                        return True
            return False
        if breaks(s.body):
            raise Unsupported("break out of a loop over a product")
        u = self.fresh_id()
        fr = self.st.frames[self.fid]
        names = ["__pi%d_%d" % (u, d) for d in range(len(seq.parts))]
        for d, q in enumerate(seq.parts):
            fr["__ps%d_%d" % (u, d)] = q
        fr["__mk%d" % u] = Native("product", lambda eng, a, k: seq.make(a))
        load = lambda n: ast.Name(n, ast.Load())
        body = [ast.Assign([s.target], ast.Call(load("__mk%d" % u), [load(n) for n in names], []))] + s.body
        if getattr(seq, "where", None) is not None:
            fr["__wh%d" % u] = Native("where", lambda eng, a, k: seq.where(a))
            body = [ast.If(ast.Call(load("__wh%d" % u), [load(n) for n in names], []), body, [])]
        for d in range(len(names) - 1, -1, -1):
            f = ast.For(ast.Name(names[d], ast.Store()), load("__ps%d_%d" % (u, d)), body, [])
            body = [ast.fix_missing_locations(ast.copy_location(f, s))]
        self.exec_block(body + s.orelse)

    def s_While(self, s):
        if self.unroll:
            i = 0
            while True:
                if not self.test(self.eval(s.test)):
                    break
                if i >= self.unroll:
                    self.truncated = True
                    raise Infeasible()
                try:
                    self.exec_block(s.body)
                except Break_:
                    return
                except Continue_:
                    pass
                i += 1
            self.exec_block(s.orelse)
            return
        from .loops import symbolic_loop
        symbolic_loop(self, s)

    # ---- expressions
    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        return self.constant(e.value)

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr)

    def e_Tuple(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                s = self.as_seq(self.eval(x.value))
                if not isinstance(s.n, int):
                    raise Unsupported("starred symbolic sequence")
                out += [s.get(i) for i in range(s.n)]
            else:
                out.append(self.eval(x))
        return tuple(out)

    def e_List(self, e):
        return self.alloc(ListObj(items=list(self.e_Tuple(e))))

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported("dict unpacking")
            kk = self.eval(k)
            if not isinstance(kk, (str, int)):
                raise Unsupported("dict key")
            d[kk] = self.eval(v)
        return self.alloc(DictObj(d))

    def e_JoinedStr(self, e):
        args = []

        def go(vals):
            text, parts = "", []
            for p in vals:
                if isinstance(p, ast.Constant):
                    text += str(p.value)
                    parts += [str(p.value)] if p.value else []
                else:
                    text += "{}"
                    k = len(args)
                    args.append(None)
                    try:
                        args[k] = self.eval(p.value)
                    except Unsupported:
                        args[k] = Opaque("unknown")
                    conv = chr(p.conversion) if p.conversion > 0 else None
                    parts.append((k, conv, go(p.format_spec.values)[1] if p.format_spec is not None else []))
            return text, parts
        text, parts = go(e.values)
        return FmtStr(text, args, parts)

    def e_Lambda(self, e):
        return Func(e, self.func_ctx().module, self.func_ctx().qualname + ".<lambda>", closure=self.fid)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def e_IfExp(self, e):
        c = self.truth(self.eval(e.test))
        c = norm(c)
        if isinstance(c, bool):
            return self.eval(e.body if c else e.orelse)
        if self.pure(e.body) and self.pure(e.orelse):
            try:
                a, b = self.eval(e.body), self.eval(e.orelse)
                return ite(c, a, b)
            except Unsupported:
                pass
        return self.eval(e.body) if self.choose(c) else self.eval(e.orelse)

    def type_test(self, e, before):
        """isinstance of a variable, or of an expression that was evaluated just before."""
        def test(x):
            return isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "isinstance" and len(x.args) == 2 and not x.keywords \
                and isinstance(x.args[1], (ast.Name, ast.Attribute, ast.Tuple))
        if not test(e):
            return False
        try:
            f = self.lookup("isinstance")
        except (PyRaise, Unsupported):
            return False
        if not (isinstance(f, Ext) and f.path == "builtins.isinstance"):
            return False
        if isinstance(e.args[0], ast.Name):
            return True
        d = ast.dump(e.args[0])
        return test(before[0]) and ast.dump(before[0].args[0]) == d and len(before) == 1

    def pure(self, e):
        """Expression whose evaluation cannot fork, raise or have an effect."""
        ok = (ast.Name, ast.Constant, ast.Attribute, ast.BinOp, ast.UnaryOp, ast.Compare, ast.BoolOp, ast.Load,
              ast.Add, ast.Sub, ast.Mult, ast.USub, ast.UAdd, ast.Not, ast.And, ast.Or, ast.Lt, ast.LtE, ast.Gt,
              ast.GtE, ast.Eq, ast.NotEq)
        for n in ast.walk(e):
            if isinstance(n, ok):
                if isinstance(n, ast.Name):
                    try:
                        v = self.lookup(n.id)
                    except (PyRaise, Unsupported):
                        return False
                    if not (is_num(v) or is_bool(v) or isinstance(v, (Ref, Inf)) or v is None):
                        return False
                if isinstance(n, ast.Attribute):
                    if not isinstance(n.value, ast.Name):
                        return False
                    try:
                        b = self.lookup(n.value.id)
                    except (PyRaise, Unsupported):
                        return False
                    if not (isinstance(b, Ref) and isinstance(self.obj(b), InstObj) and n.attr in self.obj(b).attrs
                            and (is_num(self.obj(b).attrs[n.attr]) or is_bool(self.obj(b).attrs[n.attr]))):
                        return False
                continue
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "abs"):
                continue
            return False
        return True

    def e_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)
        acc = None
        for i, x in enumerate(e.values):
            v = self.eval(x)
            if not is_bool(v):
                # value semantics of and/or for non-booleans
                t = self.truth(v)
                if i == len(e.values) - 1 and acc is None:
                    return v
                if i < len(e.values) - 1 and acc is None:
                    if self.choose(t) != is_and:
                        return v
                    continue
                v = t
            if acc is not None:
                v = zand(acc, v) if is_and else zor(acc, v)
            v = norm(v)
            if i == len(e.values) - 1:
                return v
            if isinstance(v, bool):
                if v != is_and:
                    return v
                acc = None if v else acc
                acc = None
                continue
            if self.pure(e.values[i + 1]) or self.type_test(e.values[i + 1], e.values[:i + 1]):
                acc = v
                continue
            if self.choose(v) != is_and:
                return not is_and
            acc = None
        return acc

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            return norm(znot(self.truth(v)))
        if isinstance(e.op, ast.USub):
            if isinstance(v, Inf):
                return Inf(-v.s)
            n = as_num(v)
            if n is not None:
                return neg(n)
            return self.models.arr_map(self, v, neg)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.models.arr_map(self, v, lambda x: norm(znot(x)), True, "bool")
        raise Unsupported("unary operator")

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        if isinstance(op, (ast.BitAnd, ast.BitOr)) and is_bool(a) and is_bool(b):
            return self.models.gen_binop(self, op, a, b)
        x, y = (None if isinstance(a, Ref) else as_num(a)), (None if isinstance(b, Ref) else as_num(b))
        if x is not None and y is not None:
            for d in (a, b):
                if isinstance(d, Dyn):
                    if not self.choose(z3.Or(d.tag == Dyn.INT, d.tag == Dyn.FLOAT, d.tag == Dyn.BOOL)):
                        raise PyRaise("TypeError")
            return self.scalar_op(op, x, y)
        if isinstance(a, (Inf, NaN)) or isinstance(b, (Inf, NaN)):
            return self.inf_op(op, a, b)
        return self.models.gen_binop(self, op, a, b)

    def inf_op(self, op, a, b):
        raise Unsupported("inf/nan arithmetic")

    def scalar_op(self, op, x, y):
        if isinstance(op, ast.Add):
            return add(x, y)
        if isinstance(op, ast.Sub):
            return sub(x, y)
        if isinstance(op, ast.Mult):
            return mul(x, y)
        if isinstance(op, ast.Div):
            return self.div(x, y)
        if isinstance(op, ast.Pow):
            return self.power(x, y)
        if isinstance(op, ast.FloorDiv):
            if is_int(x) and is_int(y) and is_conc(y) and y > 0:
                return I(x) / I(y) if not is_conc(x) else x // y
            return self.floor(self.div(x, y))
        if isinstance(op, ast.Mod):
            if is_int(x) and is_int(y) and is_conc(y) and y > 0:
                return I(x) % I(y) if not is_conc(x) else x % y
            q = self.floor(self.div(x, y))
            return sub(x, mul(q, y))
        raise Unsupported("operator %s" % type(op).__name__)

    OPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}

    def e_Compare(self, e):
        left = self.eval(e.left)
        acc = True
        for op, r in zip(e.ops, e.comparators):
            if acc is not True and not self.pure(r):
                if not self.choose(acc):
                    return False
                acc = True
            right = self.eval(r)
            acc = norm(zand(acc, self.compare(op, left, right)))
            if acc is False:
                return False
            left = right
        return acc

    def type_tag(self, v):
        return self.models.py_type(self, v)

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(a, b)
            return r if isinstance(op, ast.Is) else znot(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b)
            return r if isinstance(op, ast.In) else znot(r)
        o = self.OPS[type(op)]
        if isinstance(a, self.models.TypeVal) or isinstance(b, self.models.TypeVal):
            r = self.identical(a, b)
            return r if o == "==" else znot(r)
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, str) and isinstance(b, str):
                return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o]
            if o in ("==", "!=") and not isinstance(a, (Opaque, FmtStr)) and not isinstance(b, (Opaque, FmtStr)):
                return o == "!="
            raise Unsupported("string comparison")
        if a is None or b is None:
            if o in ("==", "!="):
                return (a is b) == (o == "==")
            raise PyRaise("TypeError")
        for d in (a, b):
            if isinstance(d, Dyn):
                num = z3.Or(d.tag == Dyn.INT, d.tag == Dyn.FLOAT, d.tag == Dyn.BOOL)
                if o in ("==", "!="):
                    if not self.choose(num):
                        if isinstance(a, Dyn) and isinstance(b, Dyn):
                            raise Unsupported("comparison of dynamic values")
                        return o == "!="
                elif not self.choose(num):
                    raise PyRaise("TypeError")
        if isinstance(a, (tuple, Vec)) and isinstance(b, (tuple, Vec)) and o in ("==", "!=") and not \
                (isinstance(a, Vec) and a.kind == "np" or isinstance(b, Vec) and b.kind == "np"):
            ai = a if isinstance(a, tuple) else a.items
            bi = b if isinstance(b, tuple) else b.items
            if len(ai) != len(bi):
                return o == "!="
            r = zand(*[self.compare(ast.Eq(), x, y) for x, y in zip(ai, bi)])
            return r if o == "==" else znot(r)
        if (as_num(a) is not None or isinstance(a, (Inf, NaN))) and (as_num(b) is not None or isinstance(b, (Inf, NaN))):
            return cmp(o, a, b)
        return self.models.gen_compare(self, o, a, b)

    def identical(self, a, b):
        TV = self.models.TypeVal
        if isinstance(a, TV) and isinstance(b, TV):
            return self.models.same_type(self, a, b)
        if isinstance(a, TV) or isinstance(b, TV):
            a = self.models.as_type(self, a)
            b = self.models.as_type(self, b)
            return self.models.same_type(self, a, b)
        if a is None or b is None:
            if isinstance(a, Dyn) or isinstance(b, Dyn):
                d = a if isinstance(a, Dyn) else b
                return d.tag == Dyn.NONE
            return a is b
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a == b
        if is_bool(a) and is_bool(b):
            return eq(a, b)
        raise Unsupported("identity test")

    def contains(self, a, b):
        if isinstance(b, (tuple, Vec)):
            items = b if isinstance(b, tuple) else b.items
            return zor(*[self.compare(ast.Eq(), a, x) for x in items])
        if isinstance(b, Ref):
            o = self.obj(b)
            if isinstance(o, ListObj) and o.items is not None:
                return zor(*[self.compare(ast.Eq(), a, x) for x in o.items])
            if isinstance(o, DictObj):
                if isinstance(a, (Dyn, z3.ExprRef)):
                    raise Unsupported("membership of an unknown key")
                return a in o.items
        if isinstance(b, str) and isinstance(a, str):
            return a in b
        raise Unsupported("membership test")

    def eval_index(self, s):
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.eval(x) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x) for x in s.elts)
        return self.eval(s)

    def e_Subscript(self, e):
        b = self.eval(e.value)
        return self.getitem(b, self.eval_index(e.slice))

    def norm_index(self, i, n):
        """Index in [0, n) or IndexError."""
        if isinstance(i, Dyn):
            if not self.choose(z3.Or(i.tag == Dyn.INT, i.tag == Dyn.BOOL)):
                raise PyRaise("TypeError", "index")
            i = z3.ToInt(i.num)
        if not is_int(i):
            if is_bool(i):
                i = I(i)
            elif is_num(i):
                raise PyRaise("TypeError", "index")
            else:
                raise Unsupported("index %r" % (i,))
        i = norm(i)
        if isinstance(i, int) and isinstance(n, int):
            if i < 0:
                i += n
            if not 0 <= i < n:
                raise PyRaise("IndexError")
            return i
        if isinstance(i, int):
            if i < 0:
                i = add(n, i)
                if self.choose(cmp("<", i, 0)):
                    raise PyRaise("IndexError")
                return i
            if not self.choose(cmp("<", i, n)):
                raise PyRaise("IndexError")
            return i
        if self.choose(cmp("<", i, 0)):
            i = add(i, n)
            if self.choose(cmp("<", i, 0)):
                raise PyRaise("IndexError")
            return i
        if not self.choose(cmp("<", i, n)):
            raise PyRaise("IndexError")
        return i

    def getitem(self, b, i):
        return self.models.getitem(self, b, i)

    def setitem(self, b, i, v):
        self.models.setitem(self, b, i, v)

    def e_Call(self, e):
        f = self.eval(e.func)
        # builtins over comprehensions
        if isinstance(f, Ext) and f.path in ("builtins.sum", "builtins.all", "builtins.any", "builtins.min",
                                             "builtins.max", "builtins.list", "builtins.tuple", "numpy.sum", "math.fsum") \
                and len(e.args) == 1 and isinstance(e.args[0], ast.GeneratorExp) and not e.keywords:
            return self.reduce_comp(f.path.split(".")[-1], e.args[0])
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                s = self.as_seq(self.eval(a.value))
                n = norm(s.n) if not isinstance(s.n, int) else s.n
                if not isinstance(n, int):
                    if isinstance(f, Ext) and f.path == "builtins.zip" and len(e.args) == 1 and not e.keywords:
                        return self.models.columns(self, s)
                    raise Unsupported("starred symbolic sequence")
                args += [s.get(i) for i in range(n)]
            else:
                args.append(self.eval(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value)
                if isinstance(d, Ref) and isinstance(self.obj(d), DictObj):
                    kw.update(self.obj(d).items)
                    continue
                raise Unsupported("**kwargs call")
            kw[k.arg] = self.eval(k.value)
        return self.call(f, args, kw)

    # ---- comprehensions
    def e_ListComp(self, e):
        return self.comp_list(e)

    def e_GeneratorExp(self, e):
        r = self.comp_list(e)
        return self.once(self.as_seq(r), r)

    def comp_frame(self):
        fid = "fr:%d" % self.fresh_id()
        names = frozenset()
        self.st.frames[fid] = {"__func__": self.func_ctx(), "__locals__": names, "__parent__": self.fid}
        return fid

    def comp_list(self, e):
        """List comprehension: desugared to a loop that appends, in a scope of its own."""
        simple = len(e.generators) == 1 and not e.generators[0].ifs
        save = self.fid
        fid = self.comp_frame()
        it0 = self.eval(e.generators[0].iter)
        self.fid = fid
        try:
            if simple:
                seq = self.as_seq(it0)
                if isinstance(it0, Iter):
                    it0 = seq
                n = norm(seq.n) if not isinstance(seq.n, int) else seq.n
                if not isinstance(n, int) and not self.unroll:
                    r = self.map_comp(e, seq, n)
                    if r is not None:
                        return r
            acc = "__acc%d" % self.fresh_id()
            self.st.frames[fid][acc] = self.alloc(ListObj(items=[]))
            body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), "append", ast.Load()), [e.elt], []))]
            self.comp_loops(e, body, it0)
            return self.st.frames[fid][acc]
        finally:
            self.fid = save

    def comp_loops(self, e, body, it0):
        gens = e.generators
        for gi in range(len(gens) - 1, -1, -1):
            g = gens[gi]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            if gi == 0:
                nm = "__it%d" % self.fresh_id()
                self.st.frames[self.fid][nm] = it0
                it = ast.Name(nm, ast.Load())
            else:
                it = g.iter
            body = [ast.For(g.target, it, body, [])]
        for s in body:
            ast.fix_missing_locations(s)
            self.exec(s)

    def map_comp(self, e, seq, n):
        """[f(x) for x in symbolic sequence] with a pure, non-forking f: a lazy map."""
        g = e.generators[0]
        k = self.fresh("ck", "int")
        base = self.st.copy()
        base.pc = base.pc + [k >= 0, k < I(n)]

        def probe():
            self.assign(g.target, seq.get(k))
            return self.eval(e.elt)
        self.quiet += 1
        try:
            outs = self.explore(probe, base, self.fid)
        except Unsupported:
            return None
        finally:
            self.quiet -= 1
        if len(outs) != 1 or outs[0].kind != "normal":
            return None
        o = outs[0]
        # no effects: heap unchanged apart from new objects
        for h, rec in base.heap.items():
            if o.st.heap.get(h) is not rec:
                return None
        val = o.val
        if isinstance(val, Ref):
            save = self.st
            self.st = o.st
            try:
                val = self.models.by_value(self, val)
            finally:
                self.st = save
        facts = o.st.pc[len(base.pc):]
        fresh_consts = self.consts_since(val, facts, base.ctr, {str(k)})
        if fresh_consts:
            return None
        from .loops import subst_val

        def get(i):
            for f in facts:
                self.assume(z3.substitute(f, (k, I(i))))
            return subst_val(val, [(k, I(i))])
        return self.alloc(ListObj(n=n, get=get))

    def consts_since(self, val, facts, ctr, allowed):
        from .loops import consts_of_val
        out = set()
        for c in consts_of_val(val) | set().union(*[consts_of_val(f) for f in facts] or [set()]):
            if "!" in c and c not in allowed:
                try:
                    if int(c.rsplit("!", 1)[1]) > ctr:
                        out.add(c)
                except ValueError:
                    pass
        return out

    def reduce_comp(self, what, e):
        if what in ("list",):
            return self.comp_list(e)
        if what in ("tuple", "min", "max"):
            r = self.comp_list(e)
            return self.models.ext_call(self, "builtins." + what, [r], {})
        save = self.fid
        fid = self.comp_frame()
        it0 = self.eval(e.generators[0].iter)
        self.fid = fid
        try:
            acc = "__acc%d" % self.fresh_id()
            N = lambda c: ast.Name(acc, c)
            if what in ("sum", "fsum"):
                self.st.frames[fid][acc] = 0 if what == "sum" else Fraction(0)
                body = [ast.Assign([N(ast.Store())], ast.BinOp(N(ast.Load()), ast.Add(), e.elt))]
            else:
                self.st.frames[fid][acc] = what == "all"
                t = ast.UnaryOp(ast.Not(), e.elt) if what == "all" else e.elt
                body = [ast.If(t, [ast.Assign([N(ast.Store())], ast.Constant(what != "all")), ast.Break()], [])]
                if len(e.generators) > 1:
                    raise Unsupported("nested generator in all/any")
            self.comp_loops(e, body, it0)
            return self.st.frames[fid][acc]
        finally:
            self.fid = save
