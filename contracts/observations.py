"""filter_obs: removal of the observations near a well and merging of duplicates, for lists of any length.

The observations that survive the buffer are numbered 0 .. m-1 in the order of the input; SRC (from the summary of
the first loop) is the position of a survivor in the input.  The merging loops rearrange the list of survivors in
place.  Their contracts speak about the position list: pos(x) is the survivor that stands at position x.

Merging loop, after t groups (ghosts: BEG(t), the position at which group t begins, FIN(x), the survivor that ends up
at position x, GRP(x), the group of position x, RET_c(t), the t-th retained observation; each is assigned once):
  - positions before i = BEG(t) are final; pos is a bijection with inverse inv; positions from i on are in input order
  - of the survivors from i on, none is within one metre of the first of an earlier group, all come after it
  - in a group, all are within one metre of its first, which comes first in the input
Gathering loop, at k (ghosts: sig, the position at entry of what now stands at x, tau its inverse):
  - sig is a bijection of (i, k), the identity elsewhere; increasing on (i, j) and on [j, k)
  - positions in (i, j) hold survivors within one metre of the one at i, positions in [j, k) do not
"""
import ast
from .base import *

UT = "oneka.utilities"
II = (I_, I_)


def unfold(t, *chain):
    """The argument i of chain[0](chain[1](...(i))), through conditionals."""
    t = R(t) if z3.is_real(t) else t
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(t.arg(0), unfold(t.arg(1), *chain), unfold(t.arg(2), *chain))
    if not chain:
        return t
    if z3.is_app(t) and t.decl().eq(chain[0]):
        return unfold(t.arg(0), *chain[1:])
    raise Unsupported("an element that is none of the observations")


def fn(eng, name, *sorts):
    return z3.Function("%s!%d" % (name, eng.fresh_id()), *sorts)


def few_facts(eng):
    """The invariants do not depend on how the survivors were chosen."""
    eng.st.univ = [u for u in eng.st.univ if u.name == "positive standard deviations"]


class Shared:
    """What the two contracts have in common in one run."""

    def __init__(self, O, m_in, nobs):
        self.O, self.m_in, self.nobs = O, m_in, nobs

    NEAR = z3.Function("near", I_, I_, B_)

    def near(self, a, b):
        """Survivors a and b are less than a metre apart; see define_near."""
        return self.NEAR(a, b)

    def define_near(self, eng, a, b):
        eng.assume(self.NEAR(a, b) == self.near_(a, b))

    def near_(self, a, b):
        dx, dy = self.S(0, a) - self.S(0, b), self.S(1, a) - self.S(1, b)
        return dx * dx + dy * dy < 1

    def S(self, c, a):
        return self.O[c](self.SRC(a))

    def element(self, a):
        return tuple(self.S(c, a) for c in range(4))

    def position_list(self, eng, ref, *chain):
        """x -> argument of the innermost function at position x, every element being an unaltered survivor."""
        rec = eng.st.heap[ref.id]
        get = eng.models.seq_getter(eng, rec)

        def pos(x):
            v = get(x)
            items = v if isinstance(v, tuple) else v.items if isinstance(v, Vec) else None
            if items is None or len(items) != 4:
                raise Unsupported("an element that is none of the observations")
            return unfold(items[0], self.O[0], self.SRC, *chain)
        return pos

    def intact(self, eng, ref, pos, x, *chain):
        rec = eng.st.heap[ref.id]
        v = eng.models.seq_getter(eng, rec)(x)
        items = v if isinstance(v, tuple) else v.items
        a = pos(x)
        for f in chain[::-1]:
            a = f(a)
        return zand(*[eq(items[c], self.S(c, a)) for c in range(4)])


def find_list(eng, node):
    """The local lists that the merging loop uses: (name of the rearranged list, name of the result)."""
    moved, grown = set(), set()
    for x in ast.walk(node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name):
            if x.func.attr in ("insert", "pop"):
                moved.add(x.func.value.id)
            elif x.func.attr == "append":
                grown.add(x.func.value.id)
    return moved, grown


class Gather:
    def __init__(self, sh, node, seq):
        self.sh, self.node, self.seq = sh, node, seq
        moved, _ = find_list(None, node)
        if len(moved) != 1:
            raise Unsupported("form of the loop that gathers duplicates")
        self.obs = moved.pop()

    def start(self, eng):
        self.enter(eng)

    def enter(self, eng):
        if hasattr(self, "ref"):
            return
        self.ref = eng.lookup(self.obs)
        rec = eng.st.heap[self.ref.id]
        self.m = I(rec.n)
        self.P = self.sh.P                     # positions at entry: the function of the merging loop
        self.i = I(eng.lookup(self.sh.i))
        # the counters the loop advances: the one that equals i + 1 at entry
        names = [x.target.id for x in ast.walk(self.node) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)]
        names += [t.id for x in ast.walk(self.node) if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Name)]
        fr = eng.st.frames[eng.fid]
        names = [n for n in dict.fromkeys(names) if n in fr and is_int(fr[n])]
        if len(names) != 1:
            raise Unsupported("form of the loop that gathers duplicates")
        self.j = names[0]
        self.fid = eng.fid
        self.k0 = I(self.seq.get(0))

    def CL(self, a, b):
        return self.sh.near(self.P(a), self.P(b))

    def inv(self, st):
        """Named clauses as functions of arbitrary positions x, y."""
        i, j, k, m, sig, tau = st["i"], st["j"], st["k"], self.m, st["sig"], st["tau"]
        moved = lambda x: z3.And(i < x, x < k)
        return [
            ("bounds", 0, lambda: z3.And(0 <= i, i < j, j <= k, k <= m)),
            ("what is outside stays", 1, lambda x: z3.Implies(z3.Or(x <= i, x >= k), z3.And(sig(x) == x, tau(x) == x))),
            ("rearrangement", 1, lambda x: z3.Implies(moved(x), z3.And(moved(sig(x)), moved(tau(x)), tau(sig(x)) == x, sig(tau(x)) == x))),
            ("input order is kept", 2, lambda x, y: z3.Implies(z3.And(i < x, x < y, y < k, z3.Or(y < j, x >= j)), sig(x) < sig(y))),
            ("the close ones are gathered", 1, lambda x: z3.Implies(moved(x), self.CL(i, sig(x)) == (x < j))),
        ]

    def havoc(self, eng, K):
        self.enter(eng)
        sh = self.sh
        sig, tau = fn(eng, "sig", *II), fn(eng, "tau", *II)
        j = eng.fresh(self.j, "int")
        st = dict(i=self.i, j=j, k=z3.simplify(self.k0 + K), sig=sig, tau=tau)
        eng.st.frames[self.fid][self.j] = j
        eng.st.heap[self.ref.id] = ListObj(n=self.m, get=lambda x: sh.element(self.P(sig(I(x)))))
        self.state = st
        eng.assume(self.inv(st)[0][2]())
        ghost(eng)["__gather"] = (self, st)
        return [("loc", self.fid, self.j), ("list", self.ref.id)]

    def facts(self, eng, st, xs):
        for name, n, f in self.inv(st):
            if n == 1:
                for x in xs:
                    eng.assume(f(x))
            elif n == 2:
                for x in xs:
                    for y in xs:
                        if not x.eq(y):
                            eng.assume(f(x, y))

    def check(self, eng, K):
        few_facts(eng)
        self.enter(eng)
        sh = self.sh
        old = ghost(eng).get("__gather")
        entry = old is None or old[0] is not self
        rec = eng.st.heap[self.ref.id]
        eng.oblige("the number of observations stays", eq(rec.n, self.m), assume=False)
        j = eng.st.frames[self.fid].get(self.j)
        if not is_int(j):
            raise Unsupported("form of the loop that gathers duplicates")
        j = I(j)
        k = z3.simplify(self.k0 + K)
        x, y = eng.fresh("x", "int"), eng.fresh("y", "int")
        if entry:
            pos = lambda t: unfold(I(sh.position_list(eng, self.ref, self.P)(t)))
            st = dict(i=self.i, j=j, k=k, sig=lambda t: t, tau=lambda t: t)
            eng.oblige("gathering: entry: elements", sh.intact(eng, self.ref, sh.position_list(eng, self.ref, self.P), x, self.P), assume=False)
            eng.oblige("gathering: entry: positions", pos(x) == x, assume=False)
        else:
            s0 = old[1]
            sig0, tau0, j0, k0 = s0["sig"], s0["tau"], s0["j"], s0["k"]
            pl = sh.position_list(eng, self.ref, self.P)
            sig = lambda t: pl(t)
            tau = lambda a: z3.If(j == j0, tau0(a), z3.If(tau0(a) == k0, j0, z3.If(z3.And(tau0(a) >= j0, tau0(a) < k0), tau0(a) + 1, tau0(a))))
            st = dict(i=self.i, j=j, k=k, sig=sig, tau=tau)
            pts = []
            for v in (x, y):
                pts += [v, z3.simplify(v - 1), tau0(v), sig0(v), sig0(v - 1)]
            self.facts(eng, s0, [k0, j0, self.i] + pts)
            sh.define_near(eng, self.P(sig0(self.i)), self.P(sig0(k0)))
            eng.oblige("gathering: elements are unaltered", sh.intact(eng, self.ref, pl, x, self.P), assume=False)
        for name, n, f in self.inv(st):
            eng.oblige("gathering: %s (%s)" % (name, "entry" if entry else "kept"), f(*[x, y][:n]), assume=False)


class Merge:
    def __init__(self, sh, node):
        self.sh, self.node = sh, node
        moved, grown = find_list(None, node)
        grown -= moved
        if len(moved) != 1 or len(grown) != 1:
            raise Unsupported("form of the merging loop")
        self.obs, self.ret = moved.pop(), grown.pop()
        names = [x.id for x in ast.walk(node.test) if isinstance(x, ast.Name) and x.id not in (self.obs, "len")]
        if len(set(names)) != 1:
            raise Unsupported("form of the merging loop")
        self.i = names[0]

    def start(self, eng):
        sh = self.sh
        self.fid = eng.fid
        self.ref, self.rref = eng.lookup(self.obs), eng.lookup(self.ret)
        rec = eng.st.heap[self.ref.id]
        lp = getattr(rec, "loop", None)
        if not lp or lp[0] != "filter":
            raise Unsupported("the survivors are not a filtered list")
        _, sh.CNT, sh.SRC, sh.RANK, sh.keepf, _ = lp
        self.m = I(rec.n)
        sh.m = self.m
        sh.i = self.i
        self.BEG, self.FIN, self.GRP = fn(eng, "BEG", *II), fn(eng, "FIN", *II), fn(eng, "GRP", *II)
        self.RET = [fn(eng, "RET%d" % c, I_, R_) for c in range(4)]
        sh.merge = self
        x = eng.fresh("x", "int")
        eng.oblige("merging: the survivors are unaltered", sh.intact(eng, self.ref, sh.position_list(eng, self.ref), x), assume=False)

    def weight(self, a):
        s = self.sh.S(3, a)
        return 1 / (s * s)

    def inv(self, st):
        i, q, m, P, Q = st["i"], st["q"], self.m, st["P"], st["Q"]
        B, FIN, GRP, near = self.BEG, self.FIN, self.GRP, self.sh.near
        own = lambda x: z3.And(0 <= x, x < m)
        return [
            ("bounds", "", lambda: z3.And(0 <= i, i <= m, B(q) == i, B(0) == 0, q >= 0)),
            ("groups follow each other", "tt", lambda t, u: z3.Implies(z3.And(0 <= t, t < u, u <= q), z3.And(B(t) < B(u), B(t + 1) <= B(u)))),
            ("every survivor has one position", "x", lambda x: z3.Implies(own(x), z3.And(own(P(x)), own(Q(x)), Q(P(x)) == x, P(Q(x)) == x))),
            ("the first positions are final", "x", lambda x: z3.Implies(z3.And(0 <= x, x < i), z3.And(P(x) == FIN(x), 0 <= GRP(x), GRP(x) < q, B(GRP(x)) <= x, x < B(GRP(x) + 1)))),
            ("the rest is in input order", "xx", lambda x, y: z3.Implies(z3.And(i <= x, x < y, y < m), P(x) < P(y))),
            ("the rest is apart from the groups", "tx", lambda t, x: z3.Implies(z3.And(0 <= t, t < q, i <= x, x < m), z3.And(z3.Not(near(FIN(B(t)), P(x))), FIN(B(t)) < P(x)))),
            ("a group is apart from earlier ones", "tx", lambda t, x: z3.Implies(z3.And(0 <= t, t < q, B(t + 1) <= x, x < i), z3.And(z3.Not(near(FIN(B(t)), FIN(x))), FIN(B(t)) < FIN(x)))),
            ("a group is close to its first", "tx", lambda t, x: z3.Implies(z3.And(0 <= t, t < q, B(t) < x, x < B(t + 1)), z3.And(near(FIN(B(t)), FIN(x)), FIN(B(t)) < FIN(x)))),
        ]

    def sums(self, eng, lo, hi):
        """Sums of z/s^2 and 1/s^2 over the final positions lo .. hi-1."""
        if not hasattr(self, "tmpl"):
            k, LO, HI = z3.Int("specg"), z3.Int("group_lo"), z3.Int("group_hi")
            a = self.FIN(LO + k)
            w = self.weight(a)
            self.tmpl = [LO, HI] + [sum_term(eng, k, f, HI - LO, [LO]) for f in (self.sh.S(2, a) / (self.sh.S(3, a) * self.sh.S(3, a)), w)]
        LO, HI = self.tmpl[:2]
        return [z3.substitute(f, (LO, lo), (HI, hi)) for f in self.tmpl[2:]]

    def value(self, eng, lo, hi, r):
        """r is the retained observation of the group lo .. hi-1."""
        sz, sw = self.sums(eng, lo, hi)
        a = self.FIN(lo)
        one = hi - lo == 1
        S = self.sh.S
        return [("location", z3.And(r[0] == S(0, a), r[1] == S(1, a))),
                ("single observation", z3.Implies(one, z3.And(r[2] == S(2, a), r[3] == S(3, a)))),
                ("level", z3.Implies(z3.Not(one), r[2] * sw == sz)),
                ("standard deviation", z3.Implies(z3.Not(one), z3.And(r[3] >= 0, r[3] * r[3] * sw == 1)))]

    def RET_at(self, t):
        return [f(t) for f in self.RET]

    def havoc(self, eng, q):
        sh = self.sh
        P, Q = fn(eng, "pos", *II), fn(eng, "inv", *II)
        i = eng.fresh(self.i, "int")
        st = dict(i=i, q=q, P=P, Q=Q)
        sh.P = P
        sh.gather = None
        eng.st.frames[self.fid][self.i] = i
        eng.st.heap[self.ref.id] = ListObj(n=self.m, get=lambda x: sh.element(P(I(x))))
        eng.st.heap[self.rref.id] = ListObj(n=q, get=lambda t: tuple(f(I(t)) for f in self.RET))
        ghost(eng)["__merge"] = (self, st)
        eng.assume(self.inv(st)[0][2]())
        return [("loc", self.fid, self.i), ("list", self.ref.id), ("list", self.rref.id)]

    def facts(self, eng, st, xs, ts):
        for name, sig, f in self.inv(st):
            dom = [{"x": xs, "t": ts}[c] for c in sig]
            if len(dom) == 1:
                for x in dom[0]:
                    eng.assume(f(x))
            elif len(dom) == 2:
                for x in dom[0]:
                    for y in dom[1]:
                        if not x.eq(y):
                            eng.assume(f(x, y))

    def check(self, eng, q):
        few_facts(eng)
        sh = self.sh
        old = ghost(eng).get("__merge")
        entry = old is None
        x, y, t, u = [eng.fresh(c, "int") for c in "xytu"]
        i = eng.st.frames[self.fid].get(self.i)
        if not is_int(i):
            raise Unsupported("form of the merging loop")
        i = I(i)
        rec, ret = eng.st.heap[self.ref.id], eng.st.heap[self.rref.id]
        eng.oblige("merging: the number of survivors stays", eq(rec.n, self.m), assume=False)
        eng.oblige("merging: one retained observation per group (%s)" % ("entry" if entry else "kept"), eq(ret.n, q), assume=False)
        if entry:
            eng.assume(self.BEG(0) == i)       # the first group begins where the loop begins
            idf = lambda a: a
            st = dict(i=i, q=q, P=idf, Q=idf)
            eng.oblige("merging: entry: positions", sh.position_list(eng, self.ref)(x) == x, assume=False)
        else:
            s0 = old[1]
            P0, Q0, i0, q0 = s0["P"], s0["Q"], s0["i"], s0["q"]
            pl = sh.position_list(eng, self.ref)
            if "__gather" in ghost(eng) and ghost(eng)["__gather"][0].P.eq(P0):
                ga, gs = ghost(eng)["__gather"]
                sig, tau = gs["sig"], gs["tau"]
            else:
                raise Unsupported("no search for duplicates")
            P = lambda a: pl(a)
            Q = lambda a: tau(Q0(a))
            st = dict(i=i, q=q, P=P, Q=Q)
            eng.oblige("merging: survivors are unaltered", sh.intact(eng, self.ref, pl, x), assume=False)
            # ghosts: group q0 is complete
            eng.assume(self.BEG(q) == i)
            for v in (x, y, i0):
                eng.assume(z3.Implies(z3.And(i0 <= v, v < i), z3.And(self.FIN(v) == P(v), self.GRP(v) == q0)))
            xs = [x, y, i0]
            ga.facts(eng, gs, xs + [Q0(x), sig(x), i])
            self.facts(eng, s0, [x, y, i0, sig(x), sig(y), Q0(x)], [t, u, q0, q])
            got = eng.models.seq_getter(eng, ret)
            tv = got(q0)
            simp = lambda v: tuple(z3.simplify(R(as_num(e))) for e in v)
            items = tv if isinstance(tv, tuple) else eng.unpack(tv, 4)
            if len(items) != 4:
                raise Unsupported("form of the result")
            items = simp(items)
            ov = got(t)
            ov = ov if isinstance(ov, tuple) else eng.unpack(ov, 4)
            eng.oblige("merging: earlier results stay", z3.Implies(z3.And(0 <= t, t < q0), zand(*[eq(a, f(t)) for a, f in zip(ov, self.RET)])), assume=False)
            k = z3.Int("anyg")
            eng.st.univ.append(Univ([k], z3.And(i0 <= k, k < i), self.FIN(k) == P(k), "ghost"))
            for name, g in self.value(eng, i0, i, [R(as_num(a)) for a in items]):
                eng.oblige("merging: %s of the new one" % name, g, assume=False)
        for name, sg, f in self.inv(st):
            eng.oblige("merging: %s (%s)" % (name, "entry" if entry else "kept"), f(*[{"x": x, "t": t}[c] if n == 0 or c != sg[0] else {"x": y, "t": u}[c] for n, c in enumerate(sg)]), assume=False)


class Hooks:
    def __init__(self):
        self.sh = None

    def loop_spec(self, eng, node, seq, live):
        moved, grown = find_list(eng, node)
        if isinstance(node, ast.While) and moved and (grown - moved):
            return Merge(self.sh, node)
        if isinstance(node, ast.For) and moved and not grown:
            if eng.fid is None or not hasattr(self.sh, "P"):
                raise Unsupported("form of the loop that gathers duplicates")
            return Gather(self.sh, node, seq)
        return None


def tasks(name, post):
    ctx = {}
    hooks = Hooks()

    def setup(eng):
        ctx.clear()
        obs, m, O = num_seq(eng, "obs", 4)
        wells, nw, W = num_seq(eng, "wells", 4)
        hooks.sh = Shared(O, m, m)
        i = z3.Int("ui")
        eng.st.univ.append(Univ([i], z3.BoolVal(True), O[3](i) > 0, "positive standard deviations"))
        ctx.update(observations=obs, wellfield=wells, buffer=real("buffer"), m=m, nw=nw, O=O, W=W, sh=hooks.sh)
        ctx["pre"] = eng.st.copy()
        return dict(ctx)

    def run(eng, c):
        f = cls(eng, UT, "filter_obs")
        return eng.call(f, [], {x.arg: c[x.arg] for x in f.node.args.args})

    def post_(eng, c, o):
        if o.kind != "normal":
            few_facts(eng)
        if o.kind == "raise":
            eng.oblige("no error (%s)" % o.val.name, False, assume=False)
            return
        eng.oblige("the retained observations are defined (%s)" % (o.val,), o.kind == "normal", assume=False)
        if o.kind != "normal":
            return
        post(eng, c, o)
    yield Task("filter_obs: " + name, UT + ".filter_obs", setup, run, post_, {}, hooks=hooks, seconds=240)
