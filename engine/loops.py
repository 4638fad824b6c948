"""Loops over symbolic sequences and while loops.

For every location a loop body modifies, an inductive closed form over the iteration counter K is
derived from the body's own update (unchanged, v0+K*d, v0+sum, v0 or exists, last value, written at one
index, appended per iteration, appended when a condition holds).  A closed form is accepted only if the
update is shown by the solver to have that shape, i.e. the closed form is an inductive invariant.
Locations with no closed form are arbitrary, constrained by those candidate invariants that hold at
entry and are preserved by every path of the body (Houdini).  A while loop has to end: one of the quantities that
its test compares comes nearer to its bound by a fixed positive amount in every round (decreases), except
under a contract that says may_not_end.
"""
import ast
import z3
from .vals import *
from . import vals as V
from .solve import Univ, consts, apps
from .core import State, Outcome, Poison

DEBUG = False


# --------------------------------------------------------------------------- values
def consts_of_val(v):
    if is_z3(v):
        return set(consts(v))
    if isinstance(v, (tuple, list)):
        return set().union(*[consts_of_val(x) for x in v]) if v else set()
    if isinstance(v, Vec):
        return consts_of_val(list(v.items))
    if isinstance(v, Dyn):
        return consts_of_val([v.tag, v.num, v.n] + list(v.elems))
    if isinstance(v, FmtStr):
        return consts_of_val(v.args)
    if isinstance(v, Iter):
        return consts_of_val(v.seq)
    if isinstance(v, Seq):
        s = consts_of_val(v.n) | consts_of_val(getattr(v, "masked", None))
        try:
            s |= consts_of_val(seq_probe(v)[1])
        except Unsupported:
            pass
        return {x for x in s if not x.startswith("probe_")}
    return set()


def seq_probe(v):
    sh = getattr(v, "shape", None)
    if sh and len(sh) > 1:
        ix = tuple(z3.Int("probe_%d" % d) for d in range(len(sh)))
        return ix, v.get(ix)
    i = z3.Int("probe_0")
    return i, v.get(i)


def map_val(v, f):
    """Apply a z3-term transformer through a value."""
    if is_z3(v):
        return norm(f(v))
    if isinstance(v, tuple):
        return tuple(map_val(x, f) for x in v)
    if isinstance(v, Vec):
        return Vec([map_val(x, f) for x in v.items], v.kind)
    if isinstance(v, Dyn):
        return Dyn(map_val(v.tag, f), map_val(v.num, f), map_val(v.n, f), [map_val(x, f) for x in v.elems], v.name,
                   None if v.fn is None else lambda i: map_val(v.fn(i), f), None if v.ident is None else map_val(v.ident, f))
    if isinstance(v, FmtStr):
        return FmtStr(v.text, [map_val(x, f) for x in v.args], v.parts)
    if isinstance(v, Iter):
        return Iter(map_val(v.seq, f), v.key, v.src)
    if isinstance(v, Seq):
        s = Seq(map_val(v.n, f), lambda i: map_val(v.get(i), f), v.kind)
        if getattr(v, "shape", None):
            s.shape = tuple(map_val(x, f) for x in v.shape)
        if getattr(v, "masked", None):
            s.get, s.masked = v.get, tuple(map_val(x, f) for x in v.masked)
        if getattr(v, "dtype", None):
            s.dtype = v.dtype
        return s
    return v


def subst_val(v, pairs):
    return map_val(v, lambda t: z3.substitute(t, *pairs))


def same_val(a, b):
    if a is b:
        return True
    if is_z3(a) and is_z3(b):
        return a.eq(b)
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) and type(a) is type(b):
        return a == b
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a == b
    if isinstance(a, (str,)) and isinstance(b, str):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, Vec) and isinstance(b, Vec) and a.kind == b.kind and len(a.items) == len(b.items):
        return all(same_val(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Inf) and isinstance(b, Inf):
        return a.s == b.s
    if isinstance(a, Func) and isinstance(b, Func):
        return a.node is b.node and a.closure == b.closure
    return False


from fractions import Fraction


# --------------------------------------------------------------------------- shapes
def shape(st, v):
    if isinstance(v, bool) or isinstance(v, z3.BoolRef):
        return ("b",)
    if is_num(v):
        return ("i",) if is_int(v) else ("r",)
    if isinstance(v, tuple):
        s = [shape(st, x) for x in v]
        return None if any(x is None for x in s) else ("t",) + tuple(s)
    if isinstance(v, Vec):
        s = [shape(st, x) for x in v.items]
        return None if any(x is None for x in s) else ("v:" + v.kind,) + tuple(s)
    if isinstance(v, Ref):
        o = st.heap.get(v.id)
        if isinstance(o, ArrObj) and o.items is not None and o.ndim == 1:
            s = [shape(st, x) for x in o.items]
            return None if any(x is None for x in s) else ("a",) + tuple(s)
        if isinstance(o, ListObj) and o.items is not None and o.items and all(is_num(x) for x in o.items):
            s = [shape(st, x) for x in o.items]
            return ("l",) + tuple(s)
    return None


def join_shape(a, b):
    if a is None or b is None:
        return None
    if a == b:
        return a
    if {a[0], b[0]} == {"i", "r"}:
        return ("r",)
    if {a[0], b[0]} <= {"t", "a", "v:np", "v:tuple", "v:list", "v:mixed", "l"} and len(a) == len(b):
        s = [join_shape(x, y) for x, y in zip(a[1:], b[1:])]
        if any(x is None for x in s):
            return None
        kinds = {{"t": "v:tuple", "a": "v:np", "l": "v:list"}.get(k, k) for k in (a[0], b[0])}
        return ((a[0] if a[0] == b[0] else kinds.pop() if len(kinds) == 1 else "v:mixed"),) + tuple(s)
    return None


def leaves(st, v, sh):
    if sh[0] in ("i", "r", "b"):
        return [v if sh[0] == "b" else v]
    if isinstance(v, tuple):
        items = v
    elif isinstance(v, Vec):
        items = v.items
    else:
        items = st.heap[v.id].items
    out = []
    for x, s in zip(items, sh[1:]):
        out += leaves(st, x, s)
    return out


def nleaves(sh):
    return 1 if sh[0] in ("i", "r", "b") else sum(nleaves(s) for s in sh[1:])


def sorts(sh):
    return [sh[0]] if sh[0] in ("i", "r", "b") else [x for s in sh[1:] for x in sorts(s)]


def build(eng, st, sh, ls):
    ls = list(ls)

    def go(s):
        if s[0] in ("i", "r", "b"):
            return ls.pop(0)
        items = [go(x) for x in s[1:]]
        if s[0] == "t":
            return tuple(items)
        if s[0] == "l":
            st.ctr += 1
            st.heap[st.ctr] = ListObj(items=items, frozen=True)
            return Ref(st.ctr)
        if s[0] == "a":
            st.ctr += 1
            st.heap[st.ctr] = ArrObj((len(items),), items=items, frozen=True)
            return Ref(st.ctr)
        return Vec(items, s[0][2:])
    return go(sh)


def mkconst(name, s):
    return {"i": z3.Int, "r": z3.Real, "b": z3.Bool}[s](name)


def coerce(v, s):
    if s == "r":
        return R(v)
    if s == "i":
        return I(v)
    return Z(v)


# --------------------------------------------------------------------------- sums and existentials
def one_point(c, k):
    """If c implies k == t (t free of k): t, else None."""
    c = z3.simplify(c)
    if z3.is_or(c):
        ts = [one_point(x, k) for x in c.children()]
        return ts[0] if ts[0] is not None and all(t is not None and t.eq(ts[0]) for t in ts) else None
    conj = []
    stack = [c]
    while stack:
        x = stack.pop()
        if z3.is_and(x):
            stack.extend(x.children())
        elif z3.is_not(x) and z3.is_or(x.arg(0)):
            stack.extend(z3.Not(y) for y in x.arg(0).children())
        elif z3.is_not(x) and z3.is_not(x.arg(0)):
            stack.append(x.arg(0).arg(0))
        else:
            conj.append(z3.simplify(x))
    kn = k.decl().name()
    for x in conj:
        if z3.is_eq(x) and x.arg(0).sort() == z3.IntSort():
            l, r = x.arg(0), x.arg(1)
        elif z3.is_or(x) and kn in consts(x):
            t = one_point(x, k)
            if t is not None:
                return t
            continue
        else:
            continue
        d = z3.simplify(l - r)
        if kn not in consts(d):
            continue
        d0 = z3.simplify(z3.substitute(d, (k, z3.IntVal(0))))
        d1 = z3.simplify(z3.substitute(d, (k, z3.IntVal(1))))
        co = z3.simplify(d1 - d0)
        if not z3.is_int_value(co) or abs(co.as_long()) != 1:
            continue
        chk = z3.simplify(d - (d0 + co * k))
        if not (z3.is_int_value(chk) and chk.as_long() == 0):
            continue
        t = z3.simplify(-d0 if co.as_long() == 1 else d0)
        if kn in consts(t):
            continue
        return t
    return None


def ite_leaves(t, conds=()):
    """[(path condition, leaf)] of a tree of conditionals."""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, x, y = t.children()
        return ite_leaves(x, conds + (c,)) + ite_leaves(y, conds + (z3.Not(c),))
    return [(z3.And(*conds) if conds else z3.BoolVal(True), t)]


def exists_term(eng, k, c, n, params=()):
    """Formula for: some k in [0, n) satisfies c."""
    c = z3.simplify(Z(c))
    n = I(n)
    if z3.is_false(c):
        return z3.BoolVal(False)
    if k.decl().name() not in consts(c):
        return z3.And(n > 0, c)
    if z3.is_or(c):
        return z3.Or(*[exists_term(eng, k, x, n, params) for x in c.children()])
    t = one_point(c, k)
    if t is not None:
        return z3.simplify(z3.And(t >= 0, t < n, z3.substitute(c, (k, t))))
    return register(eng, eng.exs, "EX", z3.Int("ek"), k, c, n, params, z3.BoolSort())


def register(eng, tab, prefix, kc, k, t, n, params, sort):
    """Application of the function that stands for the quantified term; every loop counter and other fresh
    symbol of the term is an argument, so substitution reaches it, and equal terms share one function."""
    body = z3.substitute(t, (k, kc))
    ps = []
    kn = kc.decl().name()
    pn = {p.decl().name() for p in params}
    for c in occurrence_order(body):
        nm = c.decl().name()
        if nm != kn and ("!" in nm or nm in pn):
            ps.append(c)
    canon = [z3.Const("par%d_%s" % (i, p.sort().name()), p.sort()) for i, p in enumerate(ps)]
    cb = z3.substitute(body, *zip(ps, canon)) if ps else body
    key = cb.sexpr()
    for nm, (k2, p2, b2, key2) in tab.items():
        if key2 == key:
            break
    else:
        nm = "%s%d" % (prefix, len(tab))
        tab[nm] = (kc, canon, cb, key)
    F = z3.Function(nm, *([z3.IntSort()] + [p.sort() for p in ps] + [sort]))
    return F(n, *ps)


def occurrence_order(t):
    out, seen = [], set()

    def go(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 0:
                out.append(x)
            for c in x.children():
                go(c)
    go(t)
    return out


def sum_term(eng, k, t, n, params=()):
    """Term for: sum of t over k in [0, n); factors that do not depend on k are taken out."""
    t = z3.simplify(R(t))
    n = I(norm(n))
    if k.decl().name() not in consts(t):
        return R(n) * t
    scale, t = out_of_sum(quotient(t), k.decl().name())
    s = register(eng, eng.sums, "SUM", z3.Int("sumk"), k, t, n, params, z3.RealSort())
    return s if scale is None else scale * s


def int_sum(eng, k, t, n, params=()):
    """The same for integers, as an integer (a sum of integers is one)."""
    t = z3.simplify(real_of_int(I(t), True))
    n = I(norm(n))
    if k.decl().name() not in consts(t):
        return n * I(norm(z3.simplify(z3.ToInt(t))))
    return z3.ToInt(register(eng, eng.sums, "SUM", z3.Int("sumk"), k, t, n, params, z3.RealSort()))


def quotient(t):
    """A product with quotients among its factors, as one quotient."""
    num, den = [], []

    def go(x, up):
        k, ch = x.decl().kind(), x.children()
        if k == z3.Z3_OP_MUL:
            for c in ch:
                go(c, up)
        elif k == z3.Z3_OP_UMINUS:
            num.append(z3.RealVal(-1))
            go(ch[0], up)
        elif k == z3.Z3_OP_DIV:
            go(ch[0], up)
            go(ch[1], not up)
        else:
            (num if up else den).append(x)
    go(t, True)
    if not den:
        return t
    return z3.simplify(z3.Product(*(num or [z3.RealVal(1)])) / z3.Product(*den))


def out_of_sum(t, kn):
    """t == scale * body, scale free of the index (None: one)."""
    kind, ch = t.decl().kind(), t.children()
    free = [kn not in consts(c) for c in ch]
    times = lambda a, b: b if a is None else a if b is None else a * b
    if kind == z3.Z3_OP_UMINUS:
        s, b = out_of_sum(ch[0], kn)
        return times(z3.RealVal(-1), s), b
    if kind == z3.Z3_OP_MUL and any(free):
        rest = [c for c, f in zip(ch, free) if not f]
        s, b = out_of_sum(rest[0], kn) if len(rest) == 1 else (None, z3.Product(*rest))
        for c, f in zip(ch, free):
            if f:
                s = times(s, c)
        return s, b
    if kind == z3.Z3_OP_DIV and free[1] and not free[0]:
        s, b = out_of_sum(ch[0], kn)
        return times(s, 1 / ch[1]), b
    if kind == z3.Z3_OP_ITE and not free[0]:
        for i, j in ((1, 2), (2, 1)):
            if z3.is_rational_value(ch[j]) and ch[j].as_fraction() == 0:
                if free[i]:
                    if z3.is_rational_value(ch[i]) and ch[i].as_fraction() == 1:
                        break
                    s, b = ch[i], z3.RealVal(1)
                else:
                    s, b = out_of_sum(ch[i], kn)
                    if s is None:
                        break
                return s, z3.If(ch[0], b, ch[j]) if i == 1 else z3.If(ch[0], ch[j], b)
    return None, t


# --------------------------------------------------------------------------- the loop rule
def uniq(eng):
    """A number that no other loop of this run uses (loops are summarized once, inner ones inside of outer ones)."""
    eng.loop_uniq = getattr(eng, "loop_uniq", 0) + 1
    return eng.loop_uniq


class Loc:
    def __init__(self, key, entry, kind):
        self.key, self.entry, self.kind = key, entry, kind      # kind: tree | poison | list | arr
        self.sh = None
        self.syms = []
        self.closed = None      # leaf closed forms (functions of K term) or list/arr descriptor


def annotated_loop(eng, node, seq, live, spec):
    """A loop with a contract (invariants over ghost state) of its own.

    spec.start(eng)        the state at entry
    spec.havoc(eng, k)     installs an arbitrary state that satisfies the invariants after k iterations, returns its locations
    spec.check(eng, k)     records that the state after k iterations satisfies the invariants
    """
    base = eng.st.copy()
    fid = eng.fid
    is_for = isinstance(node, ast.For)
    base.ctr += 1
    K = z3.Int("K!%d" % base.ctr)
    n = (norm(seq.n) if not isinstance(seq.n, int) else seq.n) if is_for else None
    live_id = getattr(live, "id", None)
    if is_for and live_id is not None:
        raise Unsupported("annotated loop over a list")

    def entry():
        spec.start(eng)
        spec.check(eng, z3.IntVal(0))
    eng.explore(entry, base.copy(), fid)
    poison = set()

    def head(k):
        keys = set(spec.havoc(eng, k))
        for nm in poison:
            eng.st.frames[fid][nm] = Poison(nm)
        return keys

    def thunk():
        keys = head(K)
        before = eng.st.copy()
        if is_for:
            eng.assign(node.target, seq.get(K))
        elif not eng.test(eng.eval(node.test)):
            return EXIT
        ends = not is_for and not getattr(eng.contract, "may_not_end", False)
        m = measures(eng, node.test) if ends else None
        try:
            eng.exec_block(node.body)
        except V.Continue_:
            pass
        if ends:
            decreases(eng, node, m, K)
        for key in diff(before, eng.st, None):
            if key not in keys:
                if key[0] != "loc" or key[1] != fid:
                    raise Unsupported("a loop changes what its contract does not mention")
                if key[2] not in poison:
                    poison.add(key[2])
                    raise Again_()
        spec.check(eng, K + 1)
        return NEXT
    for _ in range(12):
        g = base.copy()
        g.pc.append(K >= 0)
        if is_for:
            g.pc.append(K < I(n))
        n0 = len(eng.obls)
        try:
            outs = eng.explore(thunk, g, fid)
            break
        except Again_:
            del eng.obls[n0:]
    else:
        raise Unsupported("loop state does not stabilise")
    result = []
    for o in outs:
        if o.kind == "normal" and o.val == NEXT:
            continue
        if o.kind == "normal" and o.val == EXIT:
            o.kind = "exit"
        result.append(o)
    if is_for:
        ex = base.copy()
        ex.ctr = max([ex.ctr] + [o.st.ctr for o in outs])
        ex.pc.append(I(n) >= 0)

        def leave():
            head(I(n))
            return EXIT
        for o in eng.explore(leave, ex, fid):
            o.kind = "exit"
            result.append(o)
    for o in result:
        o.st.rest_loop = True
    eng.loop_log.append((node.lineno, 0, [], ["contract"], []))
    return result


def measures(eng, test):
    """Numbers that are not negative as long as the test of a while loop holds."""
    if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And):
        return [m for v in test.values for m in measures(eng, v)]
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not) and isinstance(test.operand, ast.Compare) and len(test.operand.ops) == 1:
        o = {ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Lt: ast.GtE, ast.LtE: ast.Gt}.get(type(test.operand.ops[0]))
        return measures(eng, ast.Compare(test.operand.left, [o()], test.operand.comparators)) if o else []
    pure = lambda e: all(isinstance(x, (ast.Name, ast.Attribute, ast.Constant, ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop, ast.expr_context))
                         or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("len", "abs", "min", "max") for x in ast.walk(e))
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) \
            and pure(test.left) and pure(test.comparators[0]):
        a, b = [V.as_num(eng.eval(e)) for e in (test.left, test.comparators[0])]
        if a is None or b is None:
            return []
        return [V.sub(b, a) if isinstance(test.ops[0], (ast.Lt, ast.LtE)) else V.sub(a, b)]
    if isinstance(test, (ast.Name, ast.Attribute)):
        v = eng.eval(test)
        if isinstance(v, Ref) and isinstance(eng.obj(v), ListObj):
            return [eng.as_seq(v).n]
    return []


def decreases(eng, node, before, K, arbitrary=lambda nm: "!" in nm):
    """One round of a while loop brings one of the measures down by a fixed amount: the loop ends."""
    after = measures(eng, node.test)
    goals = []
    for a, b in zip(before, after):
        d = sub(a, b)
        if V.is_int(a) and V.is_int(b):
            goals.append(norm(Z(d) >= 1))
            continue
        d = z3.simplify(Z(d), som=True)
        cs = consts(d)
        if K.decl().name() not in cs and not any(arbitrary(nm) for nm in cs):
            goals.append(norm(d > 0))
    if not goals or len(before) != len(after):
        raise Unsupported("a while loop that is not seen to end")
    goals = [z3.BoolVal(g) if isinstance(g, bool) else g for g in goals]
    g = next((g for g in goals if len(goals) == 1 or eng.solver.valid(eng.st.pc, g)), goals[0])
    eng.oblige("a round of a loop brings its end nearer by a fixed amount", g, assume=False)


class Again_(Exception):
    pass


def symbolic_loop(eng, node, seq=None, live=None):
    key = (eng.ex.id, tuple(eng.ex.dec[:eng.ex.pos]), id(node), eng.quiet > 0, eng.fid, eng.st.ctr)
    if key not in eng.loop_cache:
        h = getattr(eng.contract, "loop_spec", None)
        spec = h(eng, node, seq, live) if h is not None else None
        if spec is not None:
            eng.loop_cache[key] = annotated_loop(eng, node, seq, live, spec)
        else:
            eng.loop_cache[key] = analyse(eng, node, seq, live)
    outs = eng.loop_cache[key]
    i = eng.choose_n(len(outs)) if len(outs) != 1 else 0
    o = outs[i]
    eng.st = o.st.copy()
    if o.kind == "exit":
        eng.exec_block(node.orelse)
        return
    if o.kind == "break":
        return
    if o.kind == "return":
        from .vals import Return_
        raise Return_(o.val)
    if o.kind == "raise":
        raise o.val
    if o.kind == "undef":
        raise Undef(o.val)
    raise AssertionError(o.kind)


NEXT, EXIT = "next!", "exit!"


def diff(g, o, frames):
    """Locations of state g changed in state o."""
    out = {}
    for fid, fr in g.frames.items():
        fo = o.frames.get(fid, {})
        for nm, v in fo.items():
            if nm.startswith("__") and not nm.startswith("__acc"):
                continue
            if nm not in fr:
                out[("loc", fid, nm)] = None
            elif not same_val(fr[nm], v) and not (isinstance(fr[nm], Poison) and isinstance(v, Poison)):
                out[("loc", fid, nm)] = None
    for h, rec in g.heap.items():
        ro = o.heap.get(h)
        if ro is rec:
            continue
        if isinstance(rec, InstObj):
            for a in set(rec.attrs) | set(ro.attrs):
                if a not in rec.attrs or not same_val(rec.attrs[a], ro.attrs[a]):
                    out[("attr", h, a)] = None
        elif isinstance(rec, ListObj):
            out[("list", h)] = None
        elif isinstance(rec, ArrObj):
            out[("arr", h)] = None
        else:
            raise Unsupported("external object modified in a loop")
    for h in o.heap:
        if h == "events" and h not in g.heap:
            out[("list", h)] = None
    return out


def get_loc(st, key):
    if key[0] == "loc":
        return st.frames[key[1]].get(key[2])
    if key[0] == "attr":
        return st.heap[key[1]].attrs.get(key[2])
    return st.heap.get(key[1])


def set_loc(st, key, v):
    if key[0] == "loc":
        st.frames[key[1]][key[2]] = v
    elif key[0] == "attr":
        o = st.heap[key[1]]
        at = dict(o.attrs)
        at[key[2]] = v
        st.heap[key[1]] = InstObj(o.cls, at)
    else:
        st.heap[key[1]] = v


def entry_value(st, key):
    if key[0] == "loc":
        fr = st.frames[key[1]]
        v = fr.get(key[2], None) if key[2] in fr else Poison(key[2])
        return v
    if key[0] == "attr":
        return st.heap[key[1]].attrs.get(key[2], Poison(key[2]))
    if key == ("list", "events") and "events" not in st.heap:
        return ListObj(items=[])
    return st.heap[key[1]]


def no_elem(i):
    raise Unsupported("element of a list under construction in a loop")


def analyse(eng, node, seq, live):
    base = eng.st.copy()
    fid = eng.fid
    is_for = isinstance(node, ast.For)
    if live is not None:
        o = base.heap[live.id]
        if o.items is not None:
            seq = Seq(len(o.items), eng.models.seq_getter(eng, o))
    base.ctr += 1
    K = z3.Int("K!%d" % base.ctr)
    n = None
    if is_for:
        n = norm(seq.n) if not isinstance(seq.n, int) else seq.n
    # iterations of the enclosing loops: what is chosen anew in an iteration of this one depends on them too
    outer = list(eng.loopK)
    eng.loopK.append(K)
    try:
        return analyse_in(eng, node, seq, live, base, fid, is_for, K, n, outer)
    finally:
        eng.loopK.pop()


def analyse_in(eng, node, seq, live, base, fid, is_for, K, n, outer):

    def thunk():
        h = getattr(eng.contract, "loop_iter", None)
        if h is not None:
            h(eng, K)
        if is_for:
            eng.assign(node.target, seq.get(K))
        else:
            if not eng.test(eng.eval(node.test)):
                return EXIT
        ends = not is_for and not eng.quiet and not getattr(eng.contract, "may_not_end", False)
        m = measures(eng, node.test) if ends else None
        try:
            eng.exec_block(node.body)
        except V.Continue_:
            pass
        if ends:
            decreases(eng, node, m, K, lambda nm: nm in havoc_syms or is_fresh(nm))
        return NEXT

    # ---- which locations change, and their shapes
    locs = {}
    shapes = {}
    counters = {}          # integers that change by the same number in every iteration
    for _round in range(9):
        g = base.copy()
        apply_havoc(eng, g, locs, shapes)
        g.pc.append(K >= 0)
        if is_for:
            g.pc.append(K < I(n))
        for key, (e0, d0) in counters.items():
            g.pc.append(locs[key].syms[0] == e0 + d0 * K)
        eng.quiet += 1
        try:
            outs = eng.explore(thunk, g, fid)
        finally:
            eng.quiet -= 1
        nxt = [o for o in outs if o.kind == "normal" and o.val == NEXT]
        new = False
        for o in nxt:
            for key in diff(g, o.st, None):
                if key not in locs:
                    locs[key] = Loc(key, entry_value(base, key), None)
                    new = True
                    if key[0] == "list" and key[1] == getattr(live, "id", None):
                        raise Unsupported("the list being iterated over is modified")
        for key, L in locs.items():
            if key[0] == "list":
                L.kind = "list"
                lsh = list_last_shape(base, L.entry, nxt, key)
                if shapes.get(key) != lsh:
                    shapes[key] = lsh
                    new = True
                continue
            if key[0] == "arr":
                L.kind = "arr"
                continue
            if isinstance(L.entry, Poison):
                sh = None
            else:
                sh = shape(base, L.entry)
                old = shapes.get(key)
                sh = join_shape(sh, old) if old is not None else sh
                for o in nxt:
                    v = get_loc(o.st, key)
                    sh = join_shape(sh, shape(o.st, v)) if v is not None else None
            L.kind = "tree" if sh is not None else "poison"
            if shapes.get(key, 0) != sh:
                shapes[key] = sh
                new = True
        if not new and not is_for and not counters and len(nxt) > 1:
            for key, L in locs.items():
                if L.kind == "tree" and sorts(L.sh) == ["i"]:
                    v = L.syms[0]
                    ds = [z3.simplify(I(norm(leaves(o.st, get_loc(o.st, key), L.sh)[0])) - v) for o in nxt]
                    if all(z3.is_int_value(d) and d.eq(ds[0]) for d in ds):
                        counters[key] = (I(norm(leaves(base, L.entry, L.sh)[0])), ds[0])
            new = bool(counters)
        if not new:
            break
    else:
        raise Unsupported("loop state does not stabilise")

    # ---- closed forms
    fresh_from = g.ctr
    paths = []
    for j, o in enumerate(nxt):
        suf = o.st.pc[len(g.pc):]
        cond = [f for f in suf if f.get_id() not in o.st.defs]
        defs = [f for f in suf if f.get_id() in o.st.defs]
        us = o.st.univ[len(g.univ):]
        paths.append([o, cond, defs, us, None])
    multi = len(paths) > 1
    havoc_syms = {}
    for L in locs.values():
        for s in L.syms:
            havoc_syms[s.decl().name()] = s

    def is_fresh(name):
        if "!" not in name or name in havoc_syms or name.startswith(("probeix", "kv!", "uv!")):
            return False
        try:
            return int(name.rsplit("!", 1)[1]) > fresh_from
        except ValueError:
            return False
    path_facts = []        # facts about one iteration, in K
    nested = []            # Univ facts under a path
    for j, p in enumerate(paths):
        o, cond, defs, us, _ = p
        fc = [c for f in cond for c in consts(f) if is_fresh(c)]
        if multi and (us or fc):
            pb = z3.Bool("path!%d" % (1000000 + uniq(eng)))
            p[4] = pb
        else:
            p[4] = z3.And(*cond) if cond else z3.BoolVal(True)
        for u in us:
            nested.append((p[4] if multi else z3.BoolVal(True), u))
        path_facts.append(z3.And(p[4], *(cond + defs)) if (cond or defs) else p[4])

    def merge(vals):
        m = vals[-1]
        for p, v in list(zip(paths, vals))[-2::-1]:
            m = ite(norm(p[4]), v, m)
        return m

    solved = {}            # symbol name -> function K-term -> term
    unsolved = dict(havoc_syms)
    updates = {}           # symbol name -> (sort, entry, update term)
    for L in locs.values():
        if L.kind == "tree":
            es = leaves(base, L.entry, L.sh)
            ups = [leaves(p[0].st, get_loc(p[0].st, L.key), L.sh) for p in paths]
            for x, s in enumerate(sorts(L.sh)):
                if not paths:
                    continue
                u = merge([coerce(up[x], s) for up in ups])
                updates[L.syms[x].decl().name()] = (s, coerce(es[x], s), Z(u), (), [coerce(up[x], s) for up in ups])
        elif L.kind == "list":
            solve_list_len(eng, L, paths, base, updates, merge)
    liftcache = {}

    def lift(t, k):
        """A term of iteration K, at iteration k."""
        cs = consts(t)
        pairs = [(K, k)] if K.decl().name() in cs else []
        for nm, c in cs.items():
            if is_fresh(nm):
                pairs.append((c, z3.Function(nm + "@", *([z3.IntSort()] * (1 + len(outer)) + [c.sort()]))(k, *outer)))
        return z3.substitute(t, *pairs) if pairs else t

    def uses_iter(t):
        return any(nm == K.decl().name() or is_fresh(nm) for nm in consts(t))
    fnapps = [nm for nm in ()]
    ctx = base.pc + [K >= 0] + ([K < I(n)] if is_for else [])

    def solve_one(name, s, e, u, params, fail_last=False):
        """closed form as a function of the iteration count term, or None."""
        me = [c for nm, c in consts(u).items() if nm == name]
        if not me:
            if s == "b" or s == "i" or s == "r":
                if not uses_iter(u):
                    return lambda k: norm(ite(norm(k <= 0), e, u))
                return lambda k: norm(ite(norm(k <= 0), e, lift(u, z3.simplify(k - 1))))
        v = me[0]
        if z3.simplify(u).eq(v):
            return lambda k: e
        if s == "b":
            t1 = z3.substitute(u, (v, z3.BoolVal(True)))
            t0 = z3.substitute(u, (v, z3.BoolVal(False)))
            if z3.is_true(z3.simplify(t1)) or eng.solver.valid(ctx, t1):
                return lambda k: zor(e, exists_term(eng, KV, lift(t0, KV), k, params)) if not z3.is_true(e) else e
            if z3.is_false(z3.simplify(t0)) or eng.solver.valid(ctx, z3.Not(t0)):
                return lambda k: zand(e, z3.Not(exists_term(eng, KV, lift(z3.Not(t1), KV), k, params)))
            return None
        zero = z3.IntVal(0) if s == "i" else z3.RealVal(0)
        d = z3.simplify(z3.substitute(u, (v, zero)))
        if poly_eq(eng, ctx, u, v + d):
            if not uses_iter(d):
                if s == "i":
                    return lambda k: norm(e + k * d)
                return lambda k: norm(e + z3.ToReal(k) * d)
            if s == "i":
                return lambda k: e + int_sum(eng, KV, lift(d, KV), k, params)
            return lambda k: e + sum_term(eng, KV, lift(d, KV), k, params)
        us = z3.simplify(u)
        if z3.is_app(us) and us.decl().kind() == z3.Z3_OP_ITE:
            tree = ite_leaves(us)
            wr = [(c, x) for c, x in tree if not x.eq(v)]
            if any(name in consts(c) or name in consts(x) for c, x in wr) or len(tree) > 40:
                return None
            c = z3.Or(*[c for c, _ in wr])
            x = wr[-1][1]
            for c1, x1 in wr[-2::-1]:
                x = z3.If(c1, x1, x)
            cl, xl = lift(c, KV), lift(x, KV)
            ts = [one_point(lift(c1, KV), KV) for c1, _ in wr]
            if DEBUG: print("WR", [(z3.simplify(lift(c1,KV)), q) for (c1,_),q in zip(wr,ts)])
            t = ts[0] if ts[0] is not None and all(q is not None and q.eq(ts[0]) for q in ts) else None
            if t is not None:
                return lambda k: z3.If(z3.And(t >= 0, t < k, z3.substitute(cl, (KV, t))), z3.substitute(xl, (KV, t)), e)
        return None
    KV = z3.Int("kv!%d" % uniq(eng))

    def subst_solved(t, k=None):
        pairs = []
        kk = K if k is None else k
        for nm, c in consts(t).items():
            if nm in solved:
                val = solved[nm](kk)
                pairs.append((c, coerce(val, {z3.IntSort(): "i", z3.RealSort(): "r", z3.BoolSort(): "b"}[c.sort()])))
        return z3.substitute(t, *pairs) if pairs else t
    progress = True
    while progress:
        progress = False
        for nm, (s, e, u, params, ups) in list(updates.items()):
            if nm in solved:
                continue
            u2 = subst_solved(u)
            others = [c for c in consts(u2) if c in havoc_syms and c != nm and c not in solved]
            if others:
                continue
            f = solve_one(nm, s, e, u2, params)
            if f is not None:
                solved[nm] = f
                progress = True
    # arrays
    arr_closed = {}
    for L in locs.values():
        if L.kind == "arr":
            f = solve_array(eng, L, paths, merge, base, subst_solved, havoc_syms, solved, solve_one, is_fresh, K, ctx, lift, uses_iter)
            if f is None:
                raise Unsupported("array update without a closed form")
            arr_closed[L.key] = f
    # lists
    list_closed = {}
    for L in locs.values():
        if L.kind == "list":
            list_closed[L.key] = solve_list(eng, L, paths, base, subst_solved, lift, KV, K, is_fresh, solved, outer)

    # ---- Houdini for the rest
    rest = [nm for nm in updates if nm not in solved]
    invs = []
    if rest:
        invs = houdini(eng, base, g, locs, paths, updates, rest, solved, subst_solved, ctx, K, thunk, fid, havoc_syms)

    def install(st, k, facts=True):
        """Put the state of the loop head at iteration k into st."""
        for key, L in locs.items():
            if L.kind == "poison":
                if key[0] == "loc":
                    st.frames[key[1]][key[2]] = Poison(key[2])
                else:
                    set_loc(st, key, Poison(str(key[2])))
            elif L.kind == "tree":
                ls = []
                for x, s in zip(L.syms, sorts(L.sh)):
                    nm = x.decl().name()
                    if nm in solved:
                        ls.append(norm(solved[nm](k)))
                    elif k is K:
                        ls.append(x)
                    else:
                        ls.append(x)
                set_loc(st, key, build(eng, st, L.sh, ls))
            elif L.kind == "arr":
                set_loc(st, key, arr_closed[key](k))
            elif L.kind == "list":
                set_loc(st, key, list_closed[key](st, k))
        for f in invs:
            st.pc.append(subst_solved(f, k))
        if facts:
            pf = z3.Or(*path_facts) if path_facts else z3.BoolVal(False)
            imp = [z3.Implies(p[4], z3.And(*(p[1] + p[2]))) for p in paths if z3.is_const(p[4]) and (p[1] or p[2])]
            pf = z3.simplify(subst_solved(z3.And(pf, *imp)))
            base_guard = z3.And(KV >= 0, KV < k)
            symb = [c for c in consts(pf) if c in havoc_syms]
            if not symb and not z3.is_true(pf):
                st.univ.append(Univ([KV], base_guard, lift(pf, KV), "iteration"))
            for cnd, u in nested:
                cnd2 = lift(subst_solved(cnd), KV)
                gu, bo = lift(subst_solved(u.guard), KV), lift(subst_solved(u.body), KV)
                if not [c for t in (cnd2, gu, bo) for c in consts(t) if c in havoc_syms]:
                    st.univ.append(Univ([KV] + u.vars, z3.And(base_guard, cnd2, gu), bo, "nested"))

    # ---- final pass: obligations inside the body, early exits
    g2 = base.copy()
    g2.ctr = max(g2.ctr, g.ctr)
    install(g2, K)
    g2.pc.append(K >= 0)
    if is_for:
        g2.pc.append(K < I(n))
    outs2 = eng.explore(thunk, g2, fid)
    result = []
    for o in outs2:
        if o.kind == "normal" and o.val == NEXT:
            continue
        if o.kind == "normal" and o.val == EXIT:
            o.kind = "exit"
        result.append(o)
    if is_for:
        ex = base.copy()
        ex.ctr = max([ex.ctr, g.ctr] + [o.st.ctr for o in outs2])
        nz = I(n)
        if not isinstance(n, int):
            ex.pc.append(nz >= 0)
        install(ex, nz)
        result.append(Outcome("exit", None, ex))
    if not is_for:
        for o in result:
            # the iteration before the last one took the body: instantiate there
            for u in o.st.univ:
                if len(u.vars) == 1:
                    o.st.pc.append(u.inst([K - 1]))
            if o.kind == "exit" and not rest:
                e = iterations(eng, K, o.st.pc[len(base.pc):], o.st.pc)
                if e is not None:
                    install(o.st, e)
                    o.st.pc.append(K == e)
    eng.loop_log.append((node.lineno, len(locs), sorted(solved), rest, [str(i) for i in invs]))
    if DEBUG:
        print("loop line", node.lineno, "locs", list(locs), "solved", {k: str(f(K)) for k, f in solved.items()}, "rest", rest, "invs", invs)
    res = [o for o in result if eng.solver.feasible(o.st.pc, z3.BoolVal(True))]
    if not res:
        res = result[:1]
    for o in res:
        o.st.rest_loop = bool(rest)
    return res


def iterations(eng, K, atoms, pc):
    """The number of iterations of a while loop, where its exit condition fixes it: a term e with K == e."""
    kn = K.decl().name()
    seen = []

    def go(x):
        if z3.is_and(x) or z3.is_or(x) or z3.is_not(x) or z3.is_implies(x):
            for c in x.children():
                go(c)
        elif z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_int(x.arg(0)):
            d = x.arg(0) - x.arg(1)
            if kn not in consts(d):
                return
            c0 = z3.simplify(z3.substitute(d, (K, z3.IntVal(0))))
            c1 = z3.simplify(z3.substitute(d, (K, z3.IntVal(1))) - c0)
            if not z3.is_int_value(c1) or abs(c1.as_long()) != 1 or kn in consts(c0):
                return
            r = z3.simplify(c0 if c1.as_long() == -1 else -c0)
            for e in (r, z3.simplify(r - 1), z3.simplify(r + 1)):
                if not any(e.eq(y) for y in seen):
                    seen.append(e)
    for a in atoms:
        go(a)
    for e in seen[:9]:
        if eng.solver.linear(pc, K == e):
            return e
    return None


def poly_eq(eng, ctx, a, b):
    d = z3.simplify(a - b, som=True)
    if z3.is_rational_value(d) or z3.is_int_value(d):
        return d.as_fraction() == 0 if z3.is_rational_value(d) else d.as_long() == 0
    return eng.solver.valid(ctx, a == b, ms=600)


def apply_havoc(eng, g, locs, shapes):
    for key, L in locs.items():
        if L.kind == "poison":
            if key[0] == "loc":
                g.frames[key[1]][key[2]] = Poison(key[2])
            else:
                set_loc(g, key, Poison(str(key[2])))
        elif L.kind == "tree":
            sh = shapes[key]
            L.sh = sh
            L.syms = []
            for x, s in enumerate(sorts(sh)):
                g.ctr += 1
                L.syms.append(mkconst("%s.%d!%d" % (key[-1], x, g.ctr), s))
            set_loc(g, key, build(eng, g, sh, L.syms))
        elif L.kind == "list":
            g.ctr += 1
            nsym = z3.Int("len_%s!%d" % (key[1], g.ctr))
            L.syms = [nsym]
            g.pc.append(nsym >= 0)
            sh = shapes.get(key)
            L.sh = sh
            L.last = None
            get = no_elem
            if sh is not None:
                ls = []
                for x, s in enumerate(sorts(sh)):
                    g.ctr += 1
                    ls.append(mkconst("last_%s.%d!%d" % (key[1], x, g.ctr), s))
                L.syms = [nsym] + ls
                lastv = build(eng, g, sh, ls)
                if isinstance(lastv, Ref):
                    lastv = eng_by_value(g, lastv)
                L.last = lastv

                def get(i, nsym=nsym, lastv=lastv):
                    if z3.simplify(I(i) - nsym).eq(z3.IntVal(-1)):
                        return lastv
                    return no_elem(i)
            r = ListObj(n=nsym, get=get)
            r.app = ()
            r.origin = key
            r.lastv = L.last
            set_loc(g, key, r)
        elif L.kind == "arr":
            o = L.entry
            g.ctr += 1
            nm = "arr_%s!%d" % (key[1], g.ctr)
            srt = z3.BoolSort() if o.dtype == "bool" else z3.RealSort()
            F = z3.Function(nm, *([z3.IntSort()] * o.ndim + [srt]))
            L.F = F
            if o.items is not None:
                import itertools
                rec = ArrObj(o.shape, items=[F(*[z3.IntVal(x) for x in ix]) for ix in
                                             itertools.product(*[range(s) for s in o.shape])], dtype=o.dtype)
            else:
                rec = ArrObj(o.shape, get=lambda ix, F=F: F(*[I(x) for x in ix]), dtype=o.dtype)
            if getattr(o, "view", None):
                rec.view = o.view
            rec.frozen = o.frozen
            set_loc(g, key, rec)


def eng_by_value(st, ref):
    o = st.heap[ref.id]
    return Vec(o.items, "np" if isinstance(o, ArrObj) else "list")


def list_last_shape(base, entry, nxt, key):
    """Shape of the last element of a list that only grows by appending, when it has one at entry."""
    if entry.items is None or not entry.items:
        return None
    if key[1] == "events":
        return None
    sh = shape(base, entry.items[-1])
    for o in nxt:
        rec = o.st.heap[key[1]]
        for v in getattr(rec, "app", ()) or ():
            sh = join_shape(sh, shape(o.st, v))
    if sh is not None and sh[0] == "a":
        sh = ("v:np",) + sh[1:]
    return sh


def solve_list_len(eng, L, paths, base, updates, merge):
    key = L.key
    recs = [p[0].st.heap[key[1]] for p in paths]
    for r in recs:
        if getattr(r, "origin", None) != key:
            raise Unsupported("list changed in a loop other than by append")
    apps_ = [r.app for r in recs]
    L.apps = apps_
    L.stores = [getattr(r, "stores", ()) for r in recs]
    if any(L.stores) and (any(apps_) or not all(len(s) == 1 for s in L.stores)):
        raise Unsupported("list both appended to and stored into in a loop")
    nsym = L.syms[0]
    e = I(L.entry.n)
    ups = [nsym + len(a) for a in apps_]
    if paths:
        updates[nsym.decl().name()] = ("i", e, Z(merge(ups)), (), ups)
    if L.sh is not None and len(L.syms) > 1:
        es = leaves(base, L.entry.items[-1], L.sh)
        for x, s in enumerate(sorts(L.sh)):
            ups = []
            for p, a in zip(paths, apps_):
                ups.append(coerce(leaves(p[0].st, a[-1], L.sh)[x], s) if a else L.syms[1 + x])
            if paths:
                updates[L.syms[1 + x].decl().name()] = (s, coerce(es[x], s), Z(merge(ups)), (), ups)


def solve_list(eng, L, paths, base, subst_solved, lift, KV, K, is_fresh, solved, outer=()):
    """State of an append-only list at iteration k."""
    entry, key = L.entry, L.key
    nsym = L.syms[0]
    nname = nsym.decl().name()
    g0 = eng.models.seq_getter(eng, entry)
    n0 = entry.n
    counts = [len(a) for a in L.apps]
    closes = nname in solved

    def last_of(k):
        if L.last is None:
            return None
        ls = []
        for x in L.syms[1:]:
            nm = x.decl().name()
            ls.append(norm(solved[nm](k)) if nm in solved else x)
        st = State()
        v = build(eng, st, L.sh, ls)
        return eng_by_value(st, v) if isinstance(v, Ref) else v

    def lifted(val, k):
        return map_val(map_val(val, lambda t: subst_solved(t)), lambda t: lift(t, k))
    if any(L.stores):
        # one element is stored in every iteration, at the iteration's number plus an offset
        off = [z3.simplify(subst_solved(I(s[0][0])) - K) for s in L.stores]
        if any(not o.eq(off[0]) for o in off) or K.decl().name() in consts(off[0]) or any(is_fresh(c) or L.syms[0].decl().name() == c for c in consts(off[0])):
            raise Unsupported("position stored to in a loop")
        vs = [s[0][1] for s in L.stores]
        v = vs[-1]
        for p, w in list(zip(paths, vs))[-2::-1]:
            v = ite(norm(p[4]), w, v) if not same_val(v, w) else v
        solved[nname] = lambda k: I(n0)

        def at(st, k):
            def get(i):
                j = z3.simplify(I(i) - off[0])
                c = z3.And(j >= 0, j < k)
                if eng.solver.valid(eng.st.pc, c):
                    return lifted(v, j)
                if eng.solver.valid(eng.st.pc, z3.Not(c)):
                    return g0(i)
                return eng.models.ite_any(eng, c, lambda: lifted(v, j), lambda: g0(i))
            r = ListObj(n=n0, get=get)
            r.app, r.origin, r.stores = (), key, ()
            return r
        return at
    if counts and len(set(counts)) == 1:
        m = counts[0]
        elems = []
        for x in range(m):
            vs = [a[x] for a in L.apps]
            try:
                v = vs[-1]
                for p, w in list(zip(paths, vs))[-2::-1]:
                    v = ite(norm(p[4]), w, v) if not same_val(v, w) else v
            except Unsupported:
                v = None
            elems.append(v)

        def elem(k, x):
            if elems[x] is None:
                raise Unsupported("element of a list built on several paths")
            v = lifted(elems[x], k)
            return v

        def at(st, k):
            kk = k

            def get(i):
                c = norm(cmp("<", i, n0)) if not (isinstance(n0, int) and n0 == 0) else False
                if c is True:
                    return g0(i)
                j = norm(sub(i, n0))
                if m == 1:
                    w = elem(I(j), 0)
                else:
                    q = norm(I(j) / m) if not isinstance(j, int) else j // m
                    r = norm(I(j) % m) if not isinstance(j, int) else j % m
                    w = elem(I(q), r) if isinstance(r, int) else None
                    if w is None:
                        w = elem(I(q), 0)
                        for x in range(1, m):
                            w = ite(eq(r, x), elem(I(q), x), w)
                if c is False:
                    return w
                return ite(c, g0(i), w)
            nn = norm(add(n0, mul(m, kk)))
            r = ListObj(n=nn, get=get)
            r.app, r.origin, r.lastv = (), key, last_of(k)
            r.base = entry
            r.loop = ("map", m, n0, elem, k)
            if isinstance(nn, int) and nn == n0 and m == 0:
                return entry
            return r
        return at
    # appended on some paths only
    if any(c > 1 for c in counts):
        raise Unsupported("list grows by several elements on some paths")
    eng.loopid = getattr(eng, "loopid", 0) + 1
    t = "%s_%d" % (nname.replace("!", "_"), eng.loopid)
    def fn(nm):
        F = z3.Function(nm + t, *([z3.IntSort()] * (2 + len(outer))))
        return (lambda x: F(x, *outer)) if outer else F
    CNT, SRC, RANK = fn("count_"), fn("source_"), fn("rank_")
    app_paths = [(p, a[0]) for p, a in zip(paths, L.apps) if a]
    val = app_paths[-1][1]
    for p, v in app_paths[-2::-1]:
        if not same_val(val, v):
            try:
                val = ite(norm(p[4]), v, val)
            except Unsupported:
                val = None
                break
    KEEP = z3.Or(*[p[4] for p, _ in app_paths])
    hav = lambda tt: [c for c in consts(tt) if "!" in c and not is_fresh(c) and False]
    m_, i_, j_ = z3.Int("fm_" + t), z3.Int("fi_" + t), z3.Int("fj_" + t)

    keepf = lambda k: lift(subst_solved(KEEP), k)

    def at(st, k):
        cnt = CNT(k)
        f = [z3.And(cnt >= 0, cnt <= k)]
        st.pc.extend(f)
        st.univ.append(Univ([i_], z3.And(i_ >= 0, i_ < cnt), z3.And(SRC(i_) >= 0, SRC(i_) < k, keepf(SRC(i_))), "filter"))
        st.univ.append(Univ([i_], z3.And(i_ >= 0, i_ < k, keepf(i_)),
                            z3.And(RANK(i_) >= 0, RANK(i_) < cnt, SRC(RANK(i_)) == i_), "filter"))
        st.univ.append(Univ([i_, j_], z3.And(i_ >= 0, i_ < j_, j_ < cnt), SRC(i_) < SRC(j_), "filter order"))

        def get(i):
            c = norm(cmp("<", i, n0)) if not (isinstance(n0, int) and n0 == 0) else False
            if c is True:
                return g0(i)
            if val is None:
                raise Unsupported("element of a list built on several paths")
            lv = last_of(k)
            if lv is not None and z3.simplify(I(i) - (I(n0) + cnt)).eq(z3.IntVal(-1)):
                return lv
            w = lifted(val, SRC(I(sub(i, n0))))
            return w if c is False else ite(c, g0(i), w)
        r = ListObj(n=norm(add(n0, cnt)), get=get)
        r.app, r.origin, r.lastv = (), key, last_of(k)
        r.base = entry
        r.loop = ("filter", CNT, SRC, RANK, keepf, k)
        if isinstance(n0, int) and n0 == 0 and val is not None:
            r.filt = (k, keepf, lambda i: lifted(val, i))
        return r
    solved[nname] = lambda k: I(n0) + CNT(k)
    return at


def solve_array(eng, L, paths, merge, base, subst_solved, havoc_syms, solved, solve_one, is_fresh, K, ctx, lift, uses_iter):
    F, o = L.F, L.entry
    nd = o.ndim
    un = uniq(eng)
    P = [z3.Int("probeix%d!%d" % (d, un)) for d in range(nd)]
    s = "b" if o.dtype == "bool" else "r"
    v = mkconst("cell!%d" % un, s)
    e = coerce(eng.models.arr_get(eng, o, tuple(P)), s)
    for p in paths:
        r = p[0].st.heap[L.key[1]]
        if r.shape is not o.shape and (len(r.shape) != nd or not all(same_val(a, b) for a, b in zip(r.shape, o.shape))):
            raise Unsupported("array changes shape in a loop")
    ups = []
    for p in paths:
        r = p[0].st.heap[L.key[1]]
        ups.append(coerce(eng.models.arr_get(eng, r, tuple(P)), s))
    T = Z(merge(ups)) if ups else v
    T = subst_solved(T)
    bad = [c for c in consts(T) if c in havoc_syms and c not in solved]
    if bad:
        return None
    allapps = [a for a in apps(T) if a.decl().eq(F)]
    own = F(*P)
    T1 = z3.substitute(T, *[(a, v) for a in allapps]) if allapps else T
    if allapps:
        Tv = z3.substitute(T1, (v, own))
        if not (z3.simplify(Tv).eq(z3.simplify(T))) and not eng.solver.valid(ctx, Tv == T):
            return None
    f = solve_one(v.decl().name(), s, e, z3.simplify(T1), P)
    if f is None and DEBUG:
        print("array update", L.key, "v", v, "T", z3.simplify(T1))
    if f is None:
        return None

    def at(k):
        term = Z(f(k)) if not isinstance(f(k), (int, Fraction)) else R(f(k))

        def get(ix):
            return norm(z3.substitute(term, *[(p, I(x)) for p, x in zip(P, ix)]))
        if o.items is not None:
            import itertools
            rec = ArrObj(o.shape, items=[get(ix) for ix in itertools.product(*[range(x) for x in o.shape])], dtype=o.dtype)
        else:
            rec = ArrObj(o.shape, get=get, dtype=o.dtype)
        return rec
    # parameters of sums / existentials must follow the substitution: they are applied functions, so they do
    return at


def houdini(eng, base, g, locs, paths, updates, rest, solved, subst_solved, ctx, K, thunk, fid, havoc_syms):
    cands = []
    ents = {}
    upd = {}
    for nm in updates:
        s, e, u, params, ups = updates[nm]
        ents[nm] = e
        upd[nm] = ups
    sym = havoc_syms
    for nm in rest:
        s, e, u, params, ups = updates[nm]
        x = sym[nm]
        if s == "b":
            cands += [x == e]
            continue
        cands += [x == e, x >= e, x <= e, x >= 0, x <= 0, x > 0, x < 0]
        for nm2 in rest:
            if nm2 > nm and updates[nm2][0] == s:
                if z3.simplify(e - updates[nm2][1]).eq(z3.simplify(z3.IntVal(0) if s == "i" else z3.RealVal(0))):
                    cands.append(x == sym[nm2])
    h = getattr(eng.contract, "candidates", None)
    if h is not None:
        cands += h(eng, [(nm, updates[nm][0], sym[nm], updates[nm][1]) for nm in rest], locs)
    def at_entry(c):
        return z3.substitute(c, *[(sym[nm], ents[nm]) for nm in consts(c) if nm in ents]) if consts(c) else c

    def at_entry_full(c):
        c = subst_solved(c, z3.IntVal(0))
        return at_entry(c)
    cands = [c for c in cands if eng.solver.valid(base.pc, at_entry_full(c))]
    cands = [subst_solved(c) if not [n for n in consts(c) if n in rest] else c for c in cands]
    while True:
        keep = []
        assume = [subst_solved(c) for c in cands]
        dropped = False
        for c in cands:
            ok = True
            for j, p in enumerate(paths):
                pc = [subst_solved(f) for f in p[0].st.pc] + assume
                pairs = [(sym[nm], upd[nm][j]) for nm in consts(c) if nm in upd and nm not in solved]
                c2 = z3.substitute(c, *pairs) if pairs else c
                c2 = subst_solved(c2)
                pairs2 = [(sym[nm], Z(solved[nm](K + 1))) for nm in consts(c) if nm in solved]
                if pairs2:
                    # solved symbols move to the next iteration
                    c2 = z3.substitute(z3.substitute(c, *pairs2), *pairs) if pairs else z3.substitute(c, *pairs2)
                    c2 = subst_solved(c2)
                if not eng.solver.valid(pc, c2, ms=1200):
                    ok = False
                    break
            if ok:
                keep.append(c)
            else:
                dropped = True
        cands = keep
        if not dropped:
            return cands
