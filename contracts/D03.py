"""The driver.  The data module is arbitrary: its settings are opaque values; loading a module either yields it or
raises ModuleNotFoundError (contract of importlib)."""
from .base import *

SETTING = dict(projectname="PROJECTNAME", target="TARGET", npaths="NPATHS", duration="DURATION", nrealizations="NREALIZATIONS", base="BASE",
               c_dist="C_DIST", p_dist="P_DIST", t_dist="T_DIST", stochastic_wells="WELLS", observations="OBSERVATIONS", buffer="BUFFER",
               spacing="SPACING", umbra="UMBRA", smooth="SMOOTH", confined="CONFINED", tol="TOL", maxstep="MAXSTEP")


class Entry(Contract):
    """oneka(...): proved by D01, D02."""

    def call(self, eng, args, kwargs):
        b = eng.bind(cls(eng, "oneka.oneka", "oneka"), args, kwargs)
        g = ghost(eng)
        g["calls"] = g.get("calls", 0) + 1
        m = g.get("module")
        for p in b:
            if p == "runtime":
                r = b[p]
                eng.oblige("the run time is a string", isinstance(r, (str, FmtStr)) or isinstance(r, Opaque) and r.path in ("str", "datetime.strftime", "datetime.isoformat", "datetime.ctime"), assume=False)
                continue
            s = SETTING.get(p)
            if s is None:
                raise Unsupported("parameter %s of the entry point" % p)
            v = b[p]
            eng.oblige("%s is given the module's %s" % (p, s), m is not None and isinstance(v, Opaque) and v.data is m and v.path == "module." + s, assume=False)
        return Opaque("pfield")


class Hooks:
    SILENT = ("logging.shutdown", "logging.basicConfig", "logging.FileHandler", "logging.StreamHandler", "logging.Formatter", "builtins.input")

    def ext(self, eng, path, a, k):
        g = ghost(eng)
        if path == "importlib.import_module":
            eng.oblige("the module that was asked for is loaded", a and a[0] is g["name"], assume=False)
            if eng.choose(eng.fresh("no_such_module", "bool")):
                g["missing"] = True
                raise PyRaise("ModuleNotFoundError")
            g["module"] = Opaque("module", {})
            return g["module"]
        if path in ("time.time", "time.perf_counter", "time.monotonic", "time.process_time"):
            return eng.fresh("clock")
        if path in ("time.asctime", "time.ctime", "time.strftime", "builtins.str"):
            return Opaque("str")
        if path == "builtins.print":
            g["printed"] = g.get("printed", 0) + 1
            return None
        if path in self.SILENT:
            return Opaque(path)
        return NotImplemented

    def on_log(self, eng, level, vals):
        g = ghost(eng)
        g["printed"] = g.get("printed", 0) + 1

    def on_opaque_call(self, eng, f, a, k):
        return None


def setup(eng):
    g = ghost(eng)
    g["name"] = Opaque("str")
    return dict(name=g["name"])


def run(eng, c):
    f = cls(eng, "runme", "main")
    if len([x for x in f.node.args.args]) != 1:
        raise Unsupported("parameters of main")
    return eng.call(f, [c["name"]], {})


def post(eng, c, o):
    if c.get("missing"):
        eng.oblige("nothing is run for a module that does not exist", c.get("calls", 0) == 0, assume=False)
        if o.kind == "normal":
            eng.oblige("a module that does not exist is reported", c.get("printed", 0) > 0, assume=False)
        elif o.kind != "raise":
            raise Unsupported("outcome for a missing module")
        return
    eng.oblige("running the driver is defined (%s)" % getattr(o.val, "name", o.val), o.kind == "normal", assume=False)
    eng.oblige("the entry point is called once", c.get("calls", 0) == 1, assume=False)


def tasks():
    yield Task("main", "runme.main", setup, run, post, {"oneka.oneka.oneka": Entry()}, hooks=Hooks())
