"""dump_oneka and load_oneka, against the contracts of bz2 and pickle: what is dumped into a file and read back from
it is an equal copy of the value at the time it was dumped (assumed)."""
from .base import *
from engine.core import Poison
from engine.loops import same_val
from engine.models import by_value

ITEMS = ("projectname", "runtime", "target", "npaths", "duration", "nrealizations", "base", "c_dist", "p_dist", "t_dist", "stochastic_wells",
         "observations", "buffer", "spacing", "umbra", "smooth", "confined", "tol", "maxstep", "pfield")
OPEN = ("bz2.BZ2File", "bz2.open", "gzip.open", "gzip.GzipFile", "lzma.open", "lzma.LZMAFile", "builtins.open")
FORMAT = {"bz2.BZ2File": "bz2", "bz2.open": "bz2", "gzip.open": "gz", "gzip.GzipFile": "gz", "lzma.open": "xz", "lzma.LZMAFile": "xz", "builtins.open": "raw"}


def mode_of(eng, a, k):
    m = a[1] if len(a) > 1 else k.get("mode", "r")
    if not isinstance(m, str) or set(m) - set("rwb") or len(a) > 2 or set(k) - {"mode", "filename", "compresslevel", "compression"}:
        raise Unsupported("mode of a file")
    return m.replace("b", "")


def same_name(x, y):
    if isinstance(x, FmtStr) and isinstance(y, FmtStr):
        return x.text == y.text and len(x.args) == len(y.args) and all(same_name(p, q) for p, q in zip(x.args, y.args))
    return x is y or isinstance(x, str) and x == y or same_val(x, y)


class Pickled:
    """A value as pickled: Opaque bytes."""

    def __init__(self, v):
        self.v = v


class Files:
    """File system of the proof: the ghost "files" lists (name, format, pickled values)."""

    def ext(self, eng, path, a, k):
        g = ghost(eng)
        if path in OPEN:
            name = a[0] if a else k.get("filename")
            m = mode_of(eng, a, k)
            fs = g.get("files", ())
            if m == "w":
                if any(same_name(f[0], name) for f in fs):
                    raise Unsupported("file written twice")
                g["files"] = fs + ((name, FORMAT[path], ()),)
            elif m != "r":
                raise Unsupported("mode of a file")
            return eng.alloc(ExtObj("file", {"name": name, "mode": m, "format": FORMAT[path], "at": 0}))
        if path == "pickle.dump":
            self.write(eng, a[1], Pickled(self.snap(eng, a[0])))
            return None
        if path == "pickle.dumps":
            return Opaque("bytes", Pickled(self.snap(eng, a[0])))
        if path == "pickle.load":
            return self.fresh(eng, self.read(eng, a[0]))
        if path == "pickle.loads":
            if isinstance(a[0], Opaque) and isinstance(a[0].data, Pickled):
                return self.fresh(eng, a[0].data.v)
            raise Unsupported("pickle.loads")
        return NotImplemented

    def ext_attr(self, eng, ref, o, name):
        if o.kind == "file":
            if name == "write":
                def wr(e, a, k):
                    if not (isinstance(a[0], Opaque) and isinstance(a[0].data, Pickled)):
                        raise Unsupported("bytes written to a file")
                    self.write(e, ref, a[0].data)
                return Native("write", wr)
            if name == "read":
                return Native("read", lambda e, a, k: Opaque("bytes", Pickled(self.read(e, ref))))
            if name == "close":
                return Native("close", lambda e, a, k: None)
        return NotImplemented

    def snap(self, eng, v):
        o = eng.obj(v) if isinstance(v, Ref) else None
        if isinstance(o, DictObj):
            return dict(o.items)
        raise Unsupported("what is archived is not a dictionary")

    def fresh(self, eng, v):
        return eng.alloc(DictObj(dict(v)))

    def file(self, eng, f):
        o = eng.obj(f) if isinstance(f, Ref) else None
        if not isinstance(o, ExtObj) or o.kind != "file":
            raise Unsupported("file")
        return o

    def write(self, eng, f, v):
        o = self.file(eng, f)
        if o.data["mode"] != "w":
            raise PyRaise("UnsupportedOperation", "write")
        g = ghost(eng)
        g["files"] = tuple((n, t, c + (v,)) if same_name(n, o.data["name"]) else (n, t, c) for n, t, c in g["files"])

    def read(self, eng, f):
        o = self.file(eng, f)
        if o.data["mode"] != "r":
            raise PyRaise("UnsupportedOperation", "read")
        for n, t, c in ghost(eng).get("files", ()):
            if same_name(n, o.data["name"]) and t == o.data["format"] and len(c) == 1 and o.data["at"] == 0:
                eng.st.heap[f.id] = ExtObj("file", dict(o.data, at=1))
                return c[0].v
        raise Unsupported("contents of the file")


def setup(eng):
    from .analysis import spec
    wells, nw, _ = num_seq(eng, "wells", 4)
    obs, no, _ = num_seq(eng, "obs", 4)
    f = eng.alloc(InstObj(cls(eng, "oneka.probabilityfield", "ProbabilityField"),
                          {n: Poison(n) for n in ("pgrid", "rgrid", "nrows", "ncols", "xmin", "xmax", "ymin", "ymax", "deltax", "deltay", "total_weight")}))
    v = dict(projectname=Opaque("str"), runtime=Opaque("str"), stochastic_wells=wells, observations=obs, pfield=f, confined=z3.Bool("confined"),
             c_dist=spec("c_dist", 0), p_dist=spec("p_dist", 1), t_dist=spec("t_dist", 2))
    for n in ("target", "npaths", "nrealizations"):
        v[n] = z3.Int(n)
    for n in ITEMS:
        v.setdefault(n, z3.Real(n))
    return dict(v=v, pre=eng.st.copy())


def run(eng, c):
    f = cls(eng, "oneka.archive", "dump_oneka")
    names = [x.arg for x in f.node.args.args + f.node.args.kwonlyargs]
    if set(names) != set(ITEMS):
        raise Unsupported("parameters of dump_oneka")
    ret = eng.call(f, [], {n: c["v"][n] for n in names})
    fs = ghost(eng).get("files", ())
    eng.oblige("one file is written, with one archive", len(fs) == 1 and len(fs[0][2]) == 1, assume=False)
    if len(fs) != 1 or len(fs[0][2]) != 1:
        return None
    ghost(eng)["stored"] = fs[0][2][0].v
    return eng.call(cls(eng, "oneka.archive", "load_oneka"), [fs[0][0]], {})


def same_item(eng, a, b):
    if a is b or isinstance(a, Ref) and isinstance(b, Ref) and a == b:
        return True
    if is_num(a) and is_num(b) or is_bool(a) and is_bool(b):
        return eq(a, b)
    return False


def post(eng, c, o):
    if o.kind not in ("normal", "return"):
        eng.oblige("archiving and loading are defined (%s)" % getattr(o.val, "name", o.val), False, assume=False)
        return
    if "stored" not in c:
        return
    for what, d in (("archived", c["stored"]), ("loaded", eng.obj(o.val).items if isinstance(o.val, Ref) and isinstance(eng.obj(o.val), DictObj) else None)):
        eng.oblige("%s: a dictionary" % what, d is not None, assume=False)
        if d is None:
            continue
        eng.oblige("%s: exactly the twenty names" % what, set(d) == set(ITEMS), assume=False)
        for n in ITEMS:
            if n in d:
                eng.oblige("%s: %s is stored under its own name, unaltered" % (what, n), same_item(eng, d[n], c["v"][n]), assume=False)
    for n in ("stochastic_wells", "observations", "pfield"):
        a, b = c["pre"].heap[c["v"][n].id], o.st.heap[c["v"][n].id]
        eng.oblige("archiving does not change %s" % n, a is b or same_obj(eng, a, b), assume=False)


def tasks():
    yield Task("dump_oneka, then load_oneka", "oneka.archive.dump_oneka", setup, run, post, {}, hooks=Files())
