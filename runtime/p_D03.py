import importlib
import inspect
import io
import types
from lib import *
import entry

SETTING = dict(projectname="PROJECTNAME", target="TARGET", npaths="NPATHS", duration="DURATION", nrealizations="NREALIZATIONS", base="BASE", c_dist="C_DIST", p_dist="P_DIST", t_dist="T_DIST",
               stochastic_wells="WELLS", observations="OBSERVATIONS", buffer="BUFFER", spacing="SPACING", umbra="UMBRA", smooth="SMOOTH", confined="CONFINED", tol="TOL", maxstep="MAXSTEP")


def gen(rng, L):
    k = rng.random()
    if k < 0.15:
        return dict(kind="missing", name=rng.choice(["verif_no_such_module", "data.nothing_here", "verif_missing.sub", "data.basic2"]))
    s = entry.gen_args(rng, L)
    if rng.random() < 0.3:      # the driver hands on what it finds; refusing it is left to the entry point
        n = rng.choice([n for n in SETTING if isinstance(s[n], (int, float))])
        s[n] = rng.choice([0, -1, -3, 0.0, -2.5, 1, True, False, 10 ** 9, 0.125])
    return dict(kind="made", s=s, name=rng.choice(["verif_data_module", "verif_data_other"]))


def check(c):
    import runme
    import oneka.oneka as oo
    calls = []
    sig = inspect.signature(oo.oneka)

    def stand_in(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        calls.append(dict(b.arguments))
        return None
    mod = None
    if c["kind"] == "made":
        mod = types.ModuleType(c["name"])
        for k, n in SETTING.items():
            setattr(mod, n, copy.deepcopy(c["s"][k]))
    elif c["kind"] == "real":
        mod = importlib.import_module(c["name"])
    want = {k: copy.deepcopy(getattr(mod, n)) for k, n in SETTING.items()} if mod is not None else None
    lg = logging.getLogger("Oneka")
    old, level = list(lg.handlers), lg.level
    root = list(logging.getLogger().handlers)
    out = io.StringIO()
    if c["kind"] == "made":
        sys.modules[c["name"]] = mod
    try:
        with scratch(), patched([(runme, "oneka", stand_in), (oo, "oneka", stand_in)]), contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            runme.main(c["name"])
    finally:
        if c["kind"] == "made":
            sys.modules.pop(c["name"], None)
        for l, o in ((lg, old), (logging.getLogger(), root)):
            for h in list(l.handlers):
                if h not in o:
                    l.removeHandler(h)
                    h.close()
        lg.setLevel(level)
    if c["kind"] == "missing":
        need(not calls, "the entry point is called although the module does not exist")
        need(c["name"] in out.getvalue(), "the missing module is not reported: %r", out.getvalue())
        return
    need(len(calls) == 1, "the entry point is called %d times", len(calls))
    for k, v in calls[0].items():
        if k == "runtime":
            need(isinstance(v, str), "the run time is %r", v)
        else:
            need(type(v) is type(want[k]) and v == want[k], "%s is %r, the module's %s is %r", k, v, SETTING[k], want[k])
    for k, n in SETTING.items():
        need(getattr(mod, n) == want[k], "the module's %s was changed", n)


def fixed():
    for f in sorted(glob.glob(os.path.join(REPO, "data", "*.py"))):
        n = os.path.basename(f)[:-3]
        if n != "__init__":
            yield dict(kind="real", name="data." + n)
    yield dict(kind="missing", name="verif_no_such_module")
    yield dict(kind="missing", name="data.nothing_here")
