"""What the entry point writes to the log: the inputs of the run and the areas it found."""
import re
from .base import *
from engine import models
from . import D01
from .D01 import ARGS, same

LINE = re.compile(r"\s*([A-Za-z_][\w ]*?)\s*[:=]")
SETTINGS = [n for n in ARGS if n not in ("stochastic_wells", "observations")]
ACRE = Fraction(404686, 100)


def literal(t, args):
    """The template with the values that are plain strings put in, and the other values."""
    rest, auto = [], iter(range(len(args)))

    def put(m):
        i = int(m.group(1)) if m.group(1) else next(auto, len(args))
        if i >= len(args):
            raise Unsupported("form of a log entry")
        if isinstance(args[i], str):
            return args[i]
        rest.append(args[i])
        return "\0"
    return re.sub(r"\{(\d*)[^{}]*\}", put, t), rest


def percent(t, args):
    """A %-template as a {}-template."""
    at = iter(args)

    def put(m):
        if m.group(0) == "%%":
            return "%"
        v = next(at, None)
        if v is None or "{" in t or m.group(1) in "di" and not (is_num(v) and is_int(v)):
            raise Unsupported("form of a log entry")
        return "{}"
    return re.sub(r"%%|%[-+ 0#]*\d*(?:\.\d+)?([sdifgeEGrF])", put, t), list(args)


def occurs(c, t):
    return t.eq(c) or any(occurs(c, x) for x in t.children())


class Log(D01.Hooks):
    def __init__(self, ctx):
        self.ctx = ctx

    def ext(self, eng, path, a, k):
        if path == "numpy.argmax":
            # its facts are kept aside, for the entry that shows the point of the curve at this index
            n = len(eng.st.univ)
            i = models.x_numpy_argmax(eng, a, k)
            g = ghost(eng)
            g["found"] = g.get("found", ()) + ((i, tuple(eng.st.univ[n:])),)
            del eng.st.univ[n:]
            return i
        return super().ext(eng, path, a, k)

    def on_log(self, eng, level, vals):
        c, g = self.ctx, ghost(eng)
        v = vals[0] if vals else None
        if isinstance(v, FmtStr):
            t, args = literal(*(percent(v.text, v.args) if v.parts is None and "{" not in v.text else (v.text, v.args)))
        elif isinstance(v, str) and len(vals) > 1 and "%" in v:
            t, args = literal(*percent(v, vals[1:]))
        elif isinstance(v, str) and len(vals) == 1:
            t, args = v, []
        elif isinstance(v, (Seq, tuple, Ref)):
            t, args = "\0", [v]
        else:
            return              # not understood: a line that is missing then leaves the proof open
        m = LINE.match(t)
        name = m.group(1).replace(" ", "") if m else None
        if "create_impact_plot" in g or "create_deterministic_plot" in g:
            return self.result(eng, g, t, args)
        if "filter_obs" in g:
            return
        if name in SETTINGS and len(args) == 1:
            eng.oblige("the log states the caller's %s" % name, same(eng, args[0], c["a"][name]), assume=False)
            if name == "nrealizations":
                many = c["a"]["nrealizations"] > 1
                if "STOCHASTIC" in t or "DETERMINISTIC" in t:
                    eng.oblige("the log names the kind of analysis", many if "STOCHASTIC" in t else z3.Not(many), assume=False)
            g["said " + name] = True
        elif name in ("stochastic_wells", "observations"):
            if len(args) != 1:
                raise Unsupported("form of a log entry")
            n = eng.as_seq(c["a"][name]).n
            eng.oblige("the log states the number of the caller's %s" % name, R(as_num(args[0])) == R(n), assume=False)
            g["said " + name] = True
            g["list"], g["listed " + name] = name, 0
        elif len(args) == 1 and t.strip(" \0") == "" and g.get("list") and not is_num(args[0]):
            n = g["list"]
            i = g["listed " + n]
            s = eng.as_seq(c["a"][n])
            want = s.get(I(i))
            got = args[0]
            if isinstance(got, Ref):
                got = eng.unpack(got, 4)
            if not isinstance(got, (tuple, list)) or len(got) != 4:
                raise Unsupported("form of a log entry")
            for k in range(4):
                x, y = got[k], want[k]
                if isinstance(x, Dyn) and isinstance(y, Dyn):
                    ok = I(x.ident) == I(y.ident)
                elif is_num(x) and is_num(y):
                    ok = R(as_num(x)) == R(as_num(y))
                else:
                    raise Unsupported("form of a log entry")
                eng.oblige("entry i of the %s in the log is entry i of the caller's" % n, ok, assume=False)
            eng.oblige("the log lists no more than the caller's %s" % n, I(i) < I(s.n), assume=False)
            g["listed " + n] = norm(z3.simplify(I(i) + 1))

    def result(self, eng, g, t, args):
        if "dump_oneka" in g:
            return
        nums = [as_num(x) for x in args]
        if any(x is None for x in nums):
            return
        if "create_impact_plot" in g and len(args) == 3:
            k = g.get("levels", 0)
            g["levels"] = k + 1
            if not isinstance(k, int) or k > 18:
                raise Unsupported("number of levels")
            n = z3.Int("n_cells")
            pr, area = [z3.Function(s, I_, R_) for s in ("pr", "area")]
            # the first point of the curve that does not exceed the level (there is one: the curve ends at zero)
            f = eng.fresh("first", "int")
            j = z3.Int("uf%d" % k)
            level = R(Fraction(k + 1, 20))
            pc, univ = list(eng.st.pc), list(eng.st.univ)
            eng.assume(z3.And(f >= 0, f < n, pr(f) <= level))
            eng.st.univ.append(Univ([j], z3.And(j >= 0, j < f), pr(j) > level, "first"))
            for i, facts in g.get("found", ()):
                if is_z3(i) and any(occurs(i, R(x)) for x in nums):
                    eng.st.univ.extend(facts)
            eng.oblige("level k: probability and area, in square metres and acres, of the first point of the curve that does not exceed it",
                       z3.And(R(nums[0]) == pr(f), R(nums[1]) == area(f), R(nums[2]) * R(ACRE) == area(f)), assume=False)
            eng.st.pc, eng.st.univ = pc, univ
        elif "create_deterministic_plot" in g and len(args) == 1:
            unit = "m" if "[m^2]" in t else "acre" if "acre" in t else None
            if unit is None:
                return
            eng.oblige("the log reports the plotted area in %s" % ("square metres" if unit == "m" else "acres"),
                       R(nums[0]) * (R(ACRE) if unit == "acre" else 1) == R(g["plotted"]), assume=False)
            g["area " + unit] = True


def judge(eng, c, o):
    if o.kind != "normal":
        return              # D01 and D02 say when the run ends early
    g = c
    missing = [n for n in ARGS if not g.get("said " + n)]
    if missing:
        raise Unsupported("the log entry of %s" % missing[0])
    for n in ("stochastic_wells", "observations"):
        eng.oblige("the log lists all of the caller's %s" % n, I(g["listed " + n]) == I(eng.as_seq(c["a"][n]).n), assume=False)
    if "create_impact_plot" in g:
        if g.get("levels") != 19:
            raise Unsupported("number of levels")
    elif not (g.get("area m") and g.get("area acre")):
        raise Unsupported("the log entries of the area")


def tasks():
    yield D01.task("oneka, the log of a run", True, Log, judge)
