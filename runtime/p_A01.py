from lib import *
import entry
from p_D01 import fld_same

NAMES = entry.ORDER + ("pfield",)


def gen(rng, L):
    s = entry.gen_args(rng, L)
    if rng.random() < 0.3:
        # any values at all
        for k in rng.sample(NAMES[:-1], 6):
            s[k] = rng.choice([None, "", "x\u00e9\n", 0, -1, 1e300, nan, inf, (1, [2, {"a": 3}]), {"k": (1, 2)}, True, b"\x00\xff", [], 10 ** 30])
    return dict(kind="dump", s=s, f=gen_field(rng, L), kw=rng.random() < 0.5, again=rng.random() < 0.4)


def check(c):
    import oneka.archive as ar
    s = copy.deepcopy(c["s"])
    f = make_field(c["f"])
    keep = copy.deepcopy(f)
    with scratch() as d:
        old = {}
        if c.get("again"):
            # an earlier archive, perhaps within the same second
            ar.dump_oneka(*["earlier %d" % i for i in range(len(entry.ORDER))], None)
            old = {p: open(p, "rb").read() for p in entry.files(d)}
        if c["kw"]:
            ar.dump_oneka(pfield=f, **{k: s[k] for k in entry.ORDER})
        else:
            ar.dump_oneka(*[s[k] for k in entry.ORDER], f)
        fs = [p for p in entry.files(d) if p not in old or open(p, "rb").read() != old[p]]
        need(len(fs) == 1, "%d files were written: %r", len(fs), fs)
        got = ar.load_oneka(fs[0])
    need(repr(s) == repr(c["s"]) and fld_same(f, keep), "an item was changed")
    need(set(got) == set(NAMES), "the archive holds %r", sorted(set(got) ^ set(NAMES)))
    for k in entry.ORDER:
        need(type(got[k]) is type(s[k]) and repr(got[k]) == repr(s[k]), "%s is read back as %r instead of %r", k, got[k], s[k])
    need(type(got["pfield"]) is type(f) and fld_same(got["pfield"], f), "the field is read back differently")
