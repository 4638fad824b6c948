"""From a recorded obligation to a decided one.

An obligation is  pc, univ |- goal  where univ are universally quantified facts (array contents, filters,
preconditions over whole sequences) and pc/goal may contain sums SUMj(n, p..) and bounded existentials
EXj(n, p..) introduced for loops.  The quantified parts are instantiated here; every instance is a
consequence of the facts, so 'proved' needs no completeness, while 'refuted' is only claimed when nothing
was left abstract.
"""
import time
import itertools
import z3
from .vals import *
from .solve import Univ, apps, consts

MAX_TERMS = 14


def split_goal(g):
    """Conjuncts of a goal as (extra hypotheses, goal)."""
    if z3.is_and(g):
        for c in g.children():
            yield from split_goal(c)
    elif z3.is_implies(g):
        for h, c in split_goal(g.arg(1)):
            yield [g.arg(0)] + h, c
    else:
        yield [], g


def int_terms(fs, eng, cap=MAX_TERMS):
    out = {}

    def put(t):
        t = z3.simplify(t)
        if z3.is_int_value(t) and abs(t.as_long()) > 64:
            return
        k = t.sexpr()
        if len(k) < 160 and "sumk" not in k and "(ek" not in k and "probe_" not in k:
            out.setdefault(k, t)
    seen = set()
    for f in fs:
        for a in apps(f):
            if a.get_id() in seen:
                continue
            seen.add(a.get_id())
            nm = a.decl().name()
            for i, x in enumerate(a.children()):
                if x.sort() == z3.IntSort():
                    if nm in eng.sums or nm in eng.exs:
                        if i > 0:
                            put(x)
                        else:
                            put(x - 1)
                    else:
                        put(x)
        for nm, c in consts(f).items():
            if c.sort() == z3.IntSort():
                put(c)
    ts = sorted(out.values(), key=lambda t: (len(t.sexpr()), t.sexpr()))
    return ts[:cap]


class Flat:
    def __init__(self, eng):
        self.eng = eng
        self.n = 0
        self.wit = {}

    def body_of(self, tab, a, k):
        kc, params, body, key = tab[a.decl().name()]
        sub = [(kc, k)] + list(zip(params, a.children()[1:]))
        return z3.substitute(body, *sub)

    def quant_apps(self, fs):
        ex, su = {}, {}
        for f in fs:
            for a in apps(f):
                nm = a.decl().name()
                if nm in self.eng.exs:
                    ex[a.get_id()] = a
                elif nm in self.eng.sums:
                    su[a.get_id()] = a
        return list(ex.values()), list(su.values())

    def flatten(self, fs, univ, goal, rounds=2, cap=MAX_TERMS, prio=()):
        """Ground facts implied by fs and univ, relevant to goal."""
        eng = self.eng
        out, done = [], set()
        base = list(fs)
        uterms = []

        def add(f):
            f = z3.simplify(f)
            if z3.is_true(f):
                return
            k = f.get_id()
            if k not in done:
                done.add(k)
                out.append(f)
        for r in range(rounds):
            cur = base + out + [goal]
            ex, su = self.quant_apps(cur)
            for a in ex:
                key = a.sexpr()
                if key not in self.wit:
                    self.n += 1
                    w = z3.Int("wit!%d" % self.n)
                    self.wit[key] = w
                w = self.wit[key]
                n = a.arg(0)
                add(z3.Implies(a, z3.And(w >= 0, w < n, self.body_of(eng.exs, a, w))))
            for a in su:
                add(z3.Implies(a.arg(0) <= 0, a == 0))
            # terms of the goal first, then of the facts
            ts = int_terms(list(prio) + [goal], eng, cap)
            seen = {t.sexpr() for t in ts}
            for t in int_terms(base + out, eng, cap + 10):
                if t.sexpr() not in seen and len(ts) < cap:
                    ts.append(t)
                    seen.add(t.sexpr())
            for a in ex:
                n = a.arg(0)
                for t in ts:
                    add(z3.Implies(z3.And(t >= 0, t < n, self.body_of(eng.exs, a, t)), a))
            for u in univ:
                m = len(u.vars)
                if m == 1:
                    for t in ts:
                        add(u.inst([t]))
                elif m == 2:
                    for p in itertools.product(ts[:8], repeat=2):
                        add(u.inst(list(p)))
                else:
                    for p in itertools.product(ts[:4], repeat=m):
                        add(u.inst(list(p)))
        return out


def linear_in(e, as_):
    """e == c0 + sum c_i a_i with c free of the a_i -> (c0, [c_i]); None otherwise."""
    zero = [(a, z3.RealVal(0)) for a in as_]
    c0 = z3.simplify(z3.substitute(e, *zero))
    cs = []
    for i, a in enumerate(as_):
        s = [(b, z3.RealVal(1 if j == i else 0)) for j, b in enumerate(as_)]
        c = z3.simplify(z3.substitute(e, *s) - c0)
        cs.append(c)
    rec = c0
    for a, c in zip(as_, cs):
        rec = rec + c * a
    d = z3.simplify(e - rec, som=True)
    if z3.is_rational_value(d) and d.as_fraction() == 0:
        return c0, cs
    from .solve import poly_identity
    if poly_identity([], e == rec):
        return c0, cs
    return None


def congruent(eng, facts, a, b):
    """The same operations on integers that are shown equal."""
    if a.eq(b):
        return True
    if a.sort() == z3.IntSort() and b.sort() == z3.IntSort() and eng.solver.linear(facts, a == b, 500):
        return True
    if z3.is_app(a) and z3.is_app(b) and a.num_args() and a.decl().eq(b.decl()) and a.num_args() == b.num_args():
        return all(congruent(eng, facts, x, y) for x, y in zip(a.children(), b.children()))
    return False


def sum_lemmas(eng, fl, fs, univ, goal, ms):
    """Equalities between sums over the same range whose summands are shown equal (or proportional)."""
    _, su = fl.quant_apps(list(fs) + [goal])
    lem = []
    group = list(range(len(su)))
    for cheap in (True, False):
        if not cheap and lem and prove(eng, list(fs) + lem, goal, ms)[0] == "proved":
            break
        for i in range(len(su)):
            for j in range(i + 1, len(su)):
                a, b = su[i], su[j]
                if group[i] == group[j] or not z3.simplify(a.arg(0)).eq(z3.simplify(b.arg(0))):
                    continue
                k = z3.Int("sk!%d!%d" % (a.get_id(), b.get_id()))
                fa, fb = fl.body_of(eng.sums, a, k), fl.body_of(eng.sums, b, k)
                ctx = list(fs) + [k >= 0, k < a.arg(0)]
                for ratio in (1, -1):
                    g = fa == ratio * fb
                    inst = fl.flatten(ctx, univ, g, 1, 6)
                    if cheap:
                        ok = ratio == 1 and congruent(eng, ctx + inst, z3.simplify(fa), z3.simplify(fb))
                    else:
                        ok = prove(eng, ctx + inst, g, ms, light=True)[0] == "proved" or prove(eng, [], g, ms)[0] == "proved"
                    if ok:
                        lem.append(a == ratio * b)
                        old = group[j]
                        group = [group[i] if x == old else x for x in group]
                        break
    return lem


def sum_signs(eng, fl, fs, univ, goal, ms):
    """A sum of positive terms over a range that is not empty is positive."""
    _, su = fl.quant_apps(list(fs) + [goal])
    lem = []
    for a in su:
        k = z3.Int("ss!%d" % a.get_id())
        f = fl.body_of(eng.sums, a, k)
        ctx = list(fs) + [k >= 0, k < a.arg(0)]
        g = f > 0
        if prove(eng, ctx + fl.flatten(ctx, univ, g, 1, 6), g, ms)[0] == "proved":
            lem.append(z3.Implies(a.arg(0) >= 1, a > 0))
    return lem


def prove(eng, pc, goal, ms, light=False):
    return eng.solver.prove(pc, goal, ms, light)


def sum_bounds(pc):
    """Facts without function symbols."""
    return [f for f in pc if not any(a.num_args() and a.decl().kind() == z3.Z3_OP_UNINTERPRETED for a in apps(f))]


def sum_equality(eng, fl, pc, univ, goal, ms, depth=0):
    """a == b where a-b is linear in sums over one range: termwise (sums of sums recursively)."""
    goal = z3.simplify(goal) if depth else goal
    if not (z3.is_eq(goal) and z3.is_arith(goal.arg(0))):
        return False
    e = R(goal.arg(0)) - R(goal.arg(1))
    _, su = fl.quant_apps([goal])
    su = [a for a in su]
    if not su:
        return False
    groups = {}
    for a in su:
        groups.setdefault(z3.simplify(a.arg(0)).sexpr(), []).append(a)
    lin = linear_in(e, su)
    if lin is None:
        return False
    c0, cs = lin
    cmap = {a.get_id(): c for a, c in zip(su, cs)}
    if prove(eng, pc, c0 == 0, ms)[0] != "proved":
        return False
    for key, as_ in groups.items():
        k = z3.Int("sg!%d" % as_[0].get_id())
        t = z3.RealVal(0)
        for a in as_:
            t = t + cmap[a.get_id()] * fl.body_of(eng.sums, a, k)
        ctx = list(pc) + [k >= 0, k < as_[0].arg(0)]
        g = t == 0
        inst = fl.flatten(ctx, univ, g, 1, 6)
        if prove(eng, [], g, ms)[0] != "proved" and prove(eng, ctx + inst, g, ms)[0] != "proved":
            if depth >= 2 or not sum_equality(eng, fl, ctx + inst, univ, g, ms, depth + 1):
                return False
    return True


def ite_conds(t):
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE:
                c = x.arg(0)
                if not any(c.eq(d) for d in out):
                    out.append(c)
            stack.extend(x.children())
    return out


def atoms(c):
    if z3.is_and(c) or z3.is_or(c) or z3.is_not(c):
        for x in c.children():
            yield from atoms(x)
    else:
        yield c


def case_prove(eng, facts, g, ms, depth=0):
    """Resolve the conditionals of an arithmetic goal under the facts, splitting when they leave one open."""
    if not ite_conds(g):
        return prove(eng, facts, g, ms)
    if eng.solver.linear(facts, g, 1000):
        return "proved", None, "z3", 0.0
    sub, undecided = [], []
    seen = set()
    for c in ite_conds(g):
        for a in atoms(c):
            if a.get_id() in seen or ite_conds(a):
                continue
            seen.add(a.get_id())
            if eng.solver.linear(facts, a):
                sub.append((a, z3.BoolVal(True)))
            elif eng.solver.linear(facts, z3.Not(a)):
                sub.append((a, z3.BoolVal(False)))
            elif prove(eng, facts, a, 300, light=True)[0] == "proved":
                sub.append((a, z3.BoolVal(True)))
            elif prove(eng, facts, z3.Not(a), 300, light=True)[0] == "proved":
                sub.append((a, z3.BoolVal(False)))
            else:
                undecided.append(a)
    g2 = z3.simplify(z3.substitute(g, *sub)) if sub else g
    if z3.is_true(g2):
        return "proved", None, "simplifier", 0.0
    left = ite_conds(g2)
    if not left:
        return prove(eng, facts, g2, ms)
    if not undecided:
        if sub and not g2.eq(g):
            return case_prove(eng, facts, g2, ms, depth + 1) if depth < 4 else prove(eng, facts, g2, ms)
        return prove(eng, facts, g2, ms)
    if depth >= 3:
        return prove(eng, facts, g2, ms)
    a = undecided[0]
    b = None
    for v in (a, z3.Not(a)):
        r = case_prove(eng, facts + [v], z3.simplify(z3.substitute(g2, (a, z3.BoolVal(v is a)))), ms, depth + 1)
        if r[0] != "proved":
            return r
        b = r
    return b


def expand_specs(eng, fs):
    """Definitions of the specification functions applied in fs."""
    out = []
    seen = set()
    for f in fs:
        for a in apps(f):
            nm = a.decl().name()
            if nm in eng.spec_defs and a.get_id() not in seen:
                seen.add(a.get_id())
                out.append(eng.spec_defs[nm](a))
    return out


def has_quant(eng, fs, univ):
    if univ:
        return True
    for f in fs:
        for a in apps(f):
            if a.decl().name() in eng.exs or a.decl().name() in eng.sums or a.decl().name() in eng.spec_defs:
                return True
    return False


def discharge(eng, o, ms):
    t0 = time.time()
    fl = Flat(eng)
    backs = []
    o.result = "proved"
    for hyp, g in split_goal(z3.simplify(o.goal) if z3.is_true(z3.simplify(o.goal)) else o.goal):
        pc = o.pc + hyp
        r, m, b = one(eng, fl, o, pc, g, ms, hyp)
        backs.append(b)
        if r != "proved":
            o.result, o.model, o.failed_goal = r, m, g
            break
    o.backend = "+".join(sorted(set(backs)))
    o.time = time.time() - t0


def one(eng, fl, o, pc, g, ms, hyp=()):
    gs = z3.simplify(g)
    if z3.is_true(gs):
        return "proved", None, "simplifier"
    quant = has_quant(eng, pc + [g], o.univ)
    # 1. as it stands
    if not quant:
        r, m, b, _ = prove(eng, pc, g, ms)
        if r == "refuted" and o.abstract:
            r = "unknown"
        return r, m, b
    r, m, b, _ = prove(eng, pc, g, 800, light=True)
    if r == "proved":
        return r, m, b
    # 2. instantiate
    inst = fl.flatten(pc, o.univ, g, prio=hyp)
    r, m, b, _ = prove(eng, pc + inst, g, min(ms, 1500), light=True)
    if r == "proved":
        return r, m, b + "+inst"
    if ite_conds(g):
        r, m, b, _ = case_prove(eng, pc + inst, g, 1500)
        if r == "proved":
            return r, m, b + "+cases"
    # 3. sums
    if sum_equality(eng, fl, pc + inst, o.univ, g, ms):
        return "proved", None, "termwise"
    lem = sum_lemmas(eng, fl, pc, o.univ, g, min(ms, 1500))
    facts = pc + inst + lem
    # 4. definitions of specification functions
    spec = expand_specs(eng, facts + [g])
    facts = facts + spec
    if ite_conds(g):
        r, m, b, _ = case_prove(eng, facts, g, ms)
        if r == "proved":
            return r, m, b + "+cases"
    r, m, b, _ = prove(eng, facts, g, ms)
    if r == "proved":
        return r, m, b + "+inst"
    if spec:
        inst2 = fl.flatten(facts, o.univ, g, rounds=2, cap=10, prio=hyp)
        r, m, b, _ = prove(eng, facts + inst2, g, ms)
        if r == "proved":
            return r, m, b + "+inst"
    pos = sum_signs(eng, fl, pc + inst, o.univ, g, min(ms, 1500)) if any(a.decl().name() in eng.sums for f in pc + [g] for a in apps(f)) else []
    if pos:
        r, m, b, _ = prove(eng, facts + pos, g, ms)
        if r != "proved":
            r, m, b, _ = prove(eng, lem + pos + [f for f in pc if any(x.decl().name() in eng.sums for x in apps(f)) or not apps(f)] + sum_bounds(pc), g, ms)
        if r == "proved":
            return r, m, b + "+sign"
    if r == "refuted" and (o.abstract or any(a.decl().name() in eng.sums for f in facts + [g] for a in apps(f))):
        r = "unknown" if o.abstract else "refuted"
    return r, m, b


def discharge_all(eng, obls, pre, task, t0):
    # the assumptions of every path are satisfiable and do not prove falsity (vacuity)
    failed = 0
    for o in obls:
        if failed >= 2 or time.time() - t0 > task.seconds * 2:
            o.result, o.backend = "not attempted", "budget" if failed < 2 else "skipped after %d failures" % failed
            continue
        eng.solver.deadline = time.time() + task.oblig
        discharge(eng, o, task.ms)
        failed += o.result != "proved"
    eng.solver.deadline = None
    eng.st = pre
    c = Obligation("canary", list(pre.pc), list(pre.univ), z3.BoolVal(False), task.func)
    fl = Flat(eng)
    inst = fl.flatten(c.pc, c.univ, c.goal)
    s = z3.Solver()
    s.set("timeout", 2000)
    s.add(*(c.pc + inst))
    if s.check() == z3.unsat:
        for o in obls:
            o.result = "unknown"
            o.info = "vacuous: the precondition is contradictory"


from .core import Obligation
