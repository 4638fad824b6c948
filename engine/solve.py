"""Discharging obligations: z3 (default, then nlsat on the arithmetic skeleton), a polynomial
normaliser, cvc5.  A result is 'proved' only if some back end reports unsat / an identity."""
import subprocess
import tempfile
import time
import os
import z3
from .vals import PI_FACTS, PI, IPI, is_z3


class Univ:
    """forall vars: guard -> body (an int-indexed universal fact, instantiated on demand)."""
    def __init__(self, vars_, guard, body, name=""):
        self.vars, self.guard, self.body, self.name = list(vars_), guard, body, name

    def inst(self, terms):
        sub = list(zip(self.vars, terms))
        return z3.Implies(z3.substitute(self.guard, *sub), z3.substitute(self.body, *sub))

    def map(self, f):
        return Univ(self.vars, f(self.guard), f(self.body), self.name)


def apps(t, seen=None, out=None):
    """All uninterpreted applications (arity>0) of a term."""
    if out is None:
        out = []
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
                out.append(x)
            stack.extend(x.children())
        elif z3.is_quantifier(x):
            stack.append(x.body())
    return out


_consts = {}


def consts(t):
    """Uninterpreted constants of a term, by name (memoised; the term is kept alive so that its id stays its own)."""
    i = t.get_id()
    r = _consts.get(i)
    if r is None:
        r = consts_(t)
        if len(_consts) > 200000:
            _consts.clear()
        _consts[i] = (t, r)
        return dict(r)
    return dict(r[1])


def consts_(t):
    out, seen, stack = {}, set(), [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 0:
                out[x.decl().name()] = x
            stack.extend(x.children())
        elif z3.is_quantifier(x):
            stack.append(x.body())
    return out


def has_pi(fs):
    for f in fs:
        c = consts(f)
        if "pi" in c or "inv_pi" in c:
            return True
    return False


class Solver_:
    def __init__(self):
        self.cache = {}
        self.keep = []
        self.nq = 0
        self.time = 0.0
        self.stats = {}
        self.deadline = None
        self.memo = {}
        self.nl_feasible = True     # decide feasibility of branches with products (otherwise they are opaque: more paths)
        self.nl_light = True        # infer invariants with products (otherwise only linear facts and signs)

    def _solver(self, ms):
        s = z3.Solver()
        s.set("timeout", ms)
        return s

    def feasible(self, pc, f, ms=400):
        key = (tuple(p.get_id() for p in pc), f.get_id())
        if key in self.cache:
            return self.cache[key]
        t0 = time.time()
        fs = list(pc) + [f]
        if has_pi(fs):
            fs += PI_FACTS
        s = self._solver(min(ms, 300))
        s.set("arith.nl", False)
        s.add(*[self.opaque(x) for x in fs])
        r = s.check()
        if self.nl_feasible and (r == z3.unknown or r == z3.sat and ms > 100):
            s = self._solver(ms)
            s.add(*fs)
            r = s.check()
        r = r != z3.unsat
        if r and not self.nl_feasible and self.by_sign(list(pc), z3.Not(f)):
            r = False
        self.nq += 1
        self.time += time.time() - t0
        self.cache[key] = r
        self.keep.append((list(pc), f))     # keep terms alive so ids stay unique
        return r

    def valid(self, pc, g, ms=1500):
        """Cheap validity test used while inferring invariants (result is re-checked by obligations)."""
        return self.prove(pc, g, ms, light=True)[0] == "proved"

    def prove(self, pc, goal, ms=5000, light=False):
        """-> (result, model, backend, seconds)"""
        t0 = time.time()
        if self.deadline is not None:
            left = int((self.deadline - t0) * 1000)
            if left < 20:
                return "unknown", None, "time", 0.0
            ms = min(ms, left)
        r, m, b = self._prove(pc, goal, ms, light)
        dt = time.time() - t0
        self.time += dt
        self.stats.setdefault(b, [0, 0.0])
        self.stats[b][0] += 1
        self.stats[b][1] += dt
        return r, m, b, dt

    def linear(self, pc, goal, ms=300):
        """Provable without any reasoning about products?"""
        t0 = time.time()
        s = self._solver(ms)
        s.set("arith.nl", False)
        fs = list(pc) + [z3.Not(goal)]
        if has_pi(fs):
            fs += PI_FACTS
        s.add(*fs)
        r = s.check() == z3.unsat
        self.time += time.time() - t0
        return r

    # ---- products, quotients, roots and powers as opaque numbers
    def opaque(self, t):
        if self.nl_feasible:
            return t
        memo = self.memo

        def go(x):
            i = x.get_id()
            if i in memo:
                return memo[i][0]
            y = x
            if z3.is_app(x) and x.num_args() > 0:
                d = x.decl()
                k = d.kind()
                ch = x.children()
                num = [c for c in ch if z3.is_rational_value(c) or z3.is_int_value(c)] if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV) else []
                if k == z3.Z3_OP_MUL and len(num) < len(ch) - 1 or k == z3.Z3_OP_DIV and not num[-1:] == ch[1:] \
                        or k == z3.Z3_OP_UNINTERPRETED and z3.is_real(x) and d.arity() and all(d.domain(a) == z3.RealSort() for a in range(d.arity())):
                    y = z3.Const("opaque!%d" % len(memo), x.sort())
                else:
                    c2 = [go(c) for c in ch]
                    if any(not a.eq(b) for a, b in zip(ch, c2)):
                        y = z3.substitute(x, *[(a, b) for a, b in zip(ch, c2) if not a.eq(b)]) if k not in (z3.Z3_OP_AND, z3.Z3_OP_OR) \
                            else (z3.And if k == z3.Z3_OP_AND else z3.Or)(*c2)
            memo[i] = (y, x)
            return y
        return go(t)

    # ---- sign rule: the sign of a product, quotient, sum, root or power from the signs of its parts
    def by_sign(self, pc, g):
        neg = False
        while z3.is_not(g):
            neg, g = not neg, g.arg(0)
        k = g.decl().kind() if z3.is_app(g) else None
        ops = {z3.Z3_OP_LE: "<=", z3.Z3_OP_GE: ">=", z3.Z3_OP_LT: "<", z3.Z3_OP_GT: ">"}
        if k not in ops or not z3.is_real(g.arg(0)):
            return False
        a, b, op = g.arg(0), g.arg(1), ops[k]
        if neg:
            op = {"<=": ">", ">=": "<", "<": ">=", ">": "<="}[op]
        if z3.is_rational_value(a) and a.as_fraction() == 0:
            a, b, op = b, a, {"<=": ">=", ">=": "<=", "<": ">", ">": "<"}[op]
        if not (z3.is_rational_value(b) and b.as_fraction() == 0):
            return False
        if not z3.is_app(a) or a.num_args() == 0:
            return False
        s = self.sign(pc, a, {})
        return s is not None and s in {"<=": ("-", "0-", "0"), ">=": ("+", "0+", "0"), "<": ("-",), ">": ("+",)}[op]

    def sign(self, pc, t, memo, depth=0):
        i = t.get_id()
        if i in memo:
            return memo[i][0]
        r = self._sign(pc, t, memo, depth)
        memo[i] = (r, t)
        return r

    def _sign(self, pc, t, memo, depth):
        if z3.is_rational_value(t):
            f = t.as_fraction()
            return "+" if f > 0 else "-" if f < 0 else "0"
        k, ch = t.decl().kind(), t.children()
        flip = {"+": "-", "-": "+", "0+": "0-", "0-": "0+", "0": "0"}
        if depth < 12:
            if k == z3.Z3_OP_UMINUS:
                s = self.sign(pc, ch[0], memo, depth + 1)
                return flip.get(s)
            if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
                r = "+"
                if len(ch) == 2 and ch[0].eq(ch[1]) and k == z3.Z3_OP_MUL:
                    return "0+"
                for c in ch:
                    s = self.sign(pc, c, memo, depth + 1)
                    if s is None or k == z3.Z3_OP_DIV and c is ch[1] and s not in "+-":
                        return None
                    if s == "0" or r == "0":
                        r = "0"
                        continue
                    m = ("-" in s) != ("-" in r)
                    z = "0" in s or "0" in r
                    r = ("0" if z else "") + ("-" if m else "+")
                return r
            if k == z3.Z3_OP_ITE and z3.is_real(t):
                a = self.sign(pc + [ch[0]], ch[1], {}, depth + 3)
                b = self.sign(pc + [z3.Not(ch[0])], ch[2], {}, depth + 3) if a is not None else None
                if a is None or b is None:
                    return self.atom_sign(pc, t)
                if a == b:
                    return a
                if "-" not in a and "-" not in b:
                    return "0+"
                if "+" not in a and "+" not in b:
                    return "0-"
                return None
            if k == z3.Z3_OP_ADD:
                s = self.atom_sign(pc, t)
                if s is not None:
                    return s
                ss = [self.sign(pc, c, memo, depth + 1) for c in ch]
                if all(x in ("+", "0+", "0") for x in ss):
                    return "+" if "+" in ss else "0+"
                if all(x in ("-", "0-", "0") for x in ss):
                    return "-" if "-" in ss else "0-"
                return None
            if k == z3.Z3_OP_UNINTERPRETED and t.decl().name() == "pow" and len(ch) == 2:
                if self.sign(pc, ch[0], memo, depth + 1) == "+":
                    return "+"
            if k == z3.Z3_OP_UNINTERPRETED and t.decl().name() == "sqrt" and len(ch) == 1:
                s = self.sign(pc, ch[0], memo, depth + 1)
                return "+" if s == "+" else "0+"
        return self.atom_sign(pc, t)

    def atom_sign(self, pc, t):
        z = z3.RealVal(0)
        s = self._solver(200)
        s.set("arith.nl", False)
        s.add(*[self.opaque(x) for x in pc])
        if has_pi(list(pc) + [t]):
            s.add(*PI_FACTS)
        t = self.opaque(t)
        out = None
        for name, c in (("0+", t < z), ("0-", t > z)):
            s.push()
            s.add(c)
            r = s.check()
            s.pop()
            if r == z3.unsat:
                s.push()
                s.add(t == z)
                r2 = s.check()
                s.pop()
                out = name[1] if r2 == z3.unsat else name
                break
        return out

    def _prove(self, pc, goal, ms, light):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return "proved", None, "simplifier"
        if z3.is_and(g) and g.num_args() > 1 and not light:
            bk = []
            for c in g.children():
                r, m, b = self._prove(pc, c, ms, light)
                if r != "proved":
                    return r, m, b
                bk.append(b)
            return "proved", None, sorted(bk, key=lambda b: ["simplifier", "z3", "signs", "normaliser", "nlsat", "cvc5"].index(b))[-1]
        fs = list(pc) + [z3.Not(goal)]
        if has_pi(fs):
            fs += PI_FACTS
        s = self._solver(min(ms, 500))
        s.set("arith.nl", False)
        s.add(*[self.opaque(x) for x in fs])
        r = s.check()
        if r == z3.unsat:
            return "proved", None, "z3"
        if self.by_sign(pc, goal):
            return "proved", None, "signs"
        if light and not self.nl_light:
            return "unknown", None, "z3"
        s = self._solver(min(ms, 1500) if not light else ms)
        s.add(*fs)
        r = s.check()
        if r == z3.unsat:
            return "proved", None, "z3"
        model = s.model() if r == z3.sat else None
        if light:
            return ("refuted" if model is not None else "unknown"), model, "z3"
        if r == z3.sat:
            return "refuted", model, "z3"
        if poly_identity(pc, goal):
            return "proved", None, "normaliser"
        # arithmetic skeleton: applications become variables
        try:
            sk = skeleton(fs)
            t = z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "qfnra-nlsat")
            s2 = z3.TryFor(t, ms).solver()
            s2.add(*sk)
            r = s2.check()
            if r == z3.unsat:
                return "proved", None, "nlsat"
            if r == z3.sat and len(sk) == len(fs) and not any(apps(f) for f in fs):
                try:
                    return "refuted", s2.model(), "nlsat"
                except z3.Z3Exception:
                    pass
        except z3.Z3Exception:
            pass
        s = self._solver(ms)
        s.set("random_seed", 7)
        s.add(*fs)
        r = s.check()
        if r == z3.unsat:
            return "proved", None, "z3"
        if r == z3.sat:
            return "refuted", s.model(), "z3"
        r = cvc5(fs, max(2, ms // 1000))
        if r == "unsat":
            return "proved", None, "cvc5"
        return "unknown", None, "none"


def skeleton(fs):
    sub = {}
    for f in fs:
        for a in apps(f):
            sub.setdefault(a.get_id(), a)
    terms = sorted(sub.values(), key=lambda a: -len(a.sexpr()))
    pairs = []
    for i, a in enumerate(terms):
        pairs.append((a, z3.Const("sk!%d" % i, a.sort())))
    return [z3.substitute(f, *pairs) for f in fs] if pairs else list(fs)


def cvc5(fs, sec):
    s = z3.Solver()
    s.add(*fs)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    p = None
    try:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
            p = f.name
        out = subprocess.run(["cvc5", "--tlimit=%d" % (sec * 1000), "--nl-cov", p], capture_output=True,
                             text=True, timeout=sec + 5).stdout
        return out.split("\n")[0].strip()
    except (OSError, subprocess.TimeoutExpired):
        return "unknown"
    finally:
        if p:
            os.unlink(p)


def z3_to_sympy(t, env):
    import sympy
    if z3.is_rational_value(t):
        return sympy.Rational(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_int_value(t):
        return sympy.Integer(t.as_long())
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_ADD:
        return sympy.Add(*[z3_to_sympy(c, env) for c in ch])
    if k == z3.Z3_OP_MUL:
        return sympy.Mul(*[z3_to_sympy(c, env) for c in ch])
    if k == z3.Z3_OP_SUB:
        a = z3_to_sympy(ch[0], env)
        for c in ch[1:]:
            a = a - z3_to_sympy(c, env)
        return a
    if k == z3.Z3_OP_UMINUS:
        return -z3_to_sympy(ch[0], env)
    if k == z3.Z3_OP_DIV:
        return z3_to_sympy(ch[0], env) / z3_to_sympy(ch[1], env)
    if k == z3.Z3_OP_TO_REAL:
        return z3_to_sympy(ch[0], env)
    if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1:
        return z3_to_sympy(ch[0], env) ** ch[1].numerator_as_long()
    key = t.sexpr()
    if t.decl().name() == "inv_pi":
        return 1 / env.setdefault("pi", sympy.Symbol("pi_"))
    if key == "pi":
        return env.setdefault("pi", sympy.Symbol("pi_"))
    if key not in env:
        env[key] = sympy.Symbol("v%d" % len(env))
    return env[key]


def poly_identity(pc, goal):
    """goal is a == b and a - b cancels to zero as a rational function (denominators are non-zero by
    the definedness obligations of the executor)."""
    if not z3.is_eq(goal) or not z3.is_arith(goal.arg(0)):
        return False
    try:
        import sympy
        env = {}
        e = z3_to_sympy(goal.arg(0), env) - z3_to_sympy(goal.arg(1), env)
        if len(str(e)) > 4000:
            return False
        num = sympy.numer(sympy.together(e))
        return sympy.expand(num) == 0
    except Exception:
        return False
