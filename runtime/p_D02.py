from lib import *
import entry

BAD = dict(
    target=["-1", "N", "N + 3", "0.0", "'0'", "None", "(0,)", "-N", "np.float64(0.0)"],
    npaths=["0", "-1", "-7", "1.5", "2.0", "'3'", "None", "np.float64(3.0)", "np.float32(2.0)"],
    duration=["0", "0.0", "-0.0", "'10'", "None", "[1.0]"],
    base=["None", "'a'", "[1.0]", "(1, 2)"],
    c_dist=["-1", "-1e-9", "(2, 1)", "(-1, 2)", "[-0.5, 1.0]", "(1, 3, 2)", "(2, 1, 3)", "(-1, 1, 2)", "None", "'a'", "(1,)", "()", "(1, 2, 3, 4)", "nan"],
    p_dist=["-0.1", "1.1", "(0.2, 1.1)", "(-0.1, 0.5)", "(0.5, 0.2)", "(0.1, 0.5, 1.2)", "(0.1, 0.5, 0.3)", "[0.3, 0.1, 0.5]", "None", "'a'", "(0.2,)", "(0.1, 0.2, 0.3, 0.4)", "nan"],
    t_dist=["-1", "-1e-9", "(2, 1)", "(-1, 2)", "(1, 3, 2)", "(2, 1, 3)", "(-1, 1, 2)", "None", "'a'", "(1,)", "()", "(1, 2, 3, 4)", "nan"],
    stochastic_wells=["[]", "E(0:3)", "E+(1.0,)", "E[0]='x'", "E[0]=None", "E[1]='x'", "E[1]=None", "E[1]=(1.0,)", "E[2]=0", "E[2]=0.0", "E[2]=-1", "E[2]=-1e-9", "E[2]=nan", "E[2]=None", "E[2]='1'", "E[3]=None", "E[3]=(2, 1)",
                      "E[3]=(1, 3, 2)", "E[3]=(2, 1, 3)", "E[3]='a'", "E[3]=(1,)", "E[3]=(1, 2, 3, 4)", "E[3]=()", "E[3]=nan"],
    observations=["[]", "SIX", "ONE", "E(0:3)", "E+(1.0,)", "E[0]='x'", "E[0]=None", "E[1]='x'", "E[1]=None", "E[2]=None", "E[2]='3'", "E[2]=(1.0, 2.0)", "E[3]=0", "E[3]=0.0", "E[3]=-1", "E[3]=-1e-9", "E[3]=nan", "E[3]=None", "E[3]='1'"],
    buffer=["0", "0.0", "-1", "-1e-9", "nan", "None", "'1'", "[1]"],
    spacing=["0", "0.0", "-1", "-1e-9", "nan", "None", "'1'", "(1, 2)"],
    umbra=["0", "0.0", "-1", "-1e-9", "nan", "None", "'1'"],
    smooth=["-1", "-1e-9", "None", "'1'", "[0]"],
    confined=["None", "1", "0", "'yes'", "1.0", "''", "[]"],
    tol=["0", "0.0", "-1", "-1e-9", "nan", "None", "'1'"],
    maxstep=["0", "0.0", "-1", "-1e-9", "nan", "None", "'1'"])


def gen(rng, L):
    s = entry.gen_args(rng, L)
    far = [o for o in s["observations"] if all(math.hypot(o[0] - v[0], o[1] - v[1]) > s["buffer"] for v in s["stochastic_wells"])]
    x, y = s["stochastic_wells"][0][0:2]
    i = 0
    while len(far) < 9:
        i += 1
        far.append((x + 5000.0 + 10 * i, y, 100.0, 1.0))
    rng.shuffle(far)
    s["observations"] = far
    if rng.random() < 0.25:
        # further valid values, boundaries included
        for k, vs in dict(target=[0, len(s["stochastic_wells"]) - 1], npaths=[1, 10 ** 6, 10 ** 9] + L.novel_counts, duration=[1e-6, -1e-6, 1], base=[0, 0.0, -5], c_dist=[0, 0.0, (0, 0), (0, 1, 1), [0, 5]], p_dist=[0, 1, 1.0, (0, 1), (0, 1, 1), [0.0, 0.5, 1.0]],
                          t_dist=[0, (0, 0, 0), [0, 3]], smooth=[0, 0.0, 1], buffer=[1e-9, 1], spacing=[1e-6, 1], umbra=[1e-6, 1], tol=[1e-9, 1], maxstep=[1e-9, 1], confined=[True, False], nrealizations=[1, 2]).items():
            if rng.random() < 0.3:
                s[k] = rng.choice(vs)
        if rng.random() < 0.3:
            # no more than are needed
            s["observations"] = far[:7]
        w = s["stochastic_wells"]
        i = rng.randrange(len(w))
        e = list(w[i])
        e[2] = rng.choice([1e-9, 1, e[2]])
        e[3] = rng.choice([0, -100, (-5, -5), [-1.0, 0, 0], (-inf, inf), e[3]])
        w[i] = type(w[i])(e)
        return dict(kind="valid", s=s, drop=[k for k in entry.OPTIONAL if rng.random() < 0.3])
    for k, most in (("observations", 3000), ("stochastic_wells", 1500)):
        # refused before anything is done: the number of entries costs little
        n, at = L.size(rng, 0, 3, 60, most), s[k][-1]
        s[k] = s[k] + [type(at)((at[0] + 7000.0 + 13.0 * i, at[1], at[2], at[3])) for i in range(n - len(s[k]))]
    k = rng.choice(sorted(BAD) + ["stochastic_wells", "observations"] * 3)
    return dict(kind="bad " + k, s=s, key=k, e=rng.choice(BAD[k]), at=rng.choice([rng.random(), rng.random(), 0.0, 0.999999]), drop=[])


def spoil(s, c):
    """Replaces one argument by an invalid value."""
    k, e = c["key"], c["e"]
    env = {"N": len(s["stochastic_wells"]), "nan": nan, "np": np}
    if e == "SIX":
        s[k] = s[k][:6]
    elif e == "ONE":
        s[k] = s[k][:1]
    elif e.startswith("E"):
        i = int(c["at"] * len(s[k]))
        t = type(s[k][i])
        v = list(s[k][i])
        if e == "E(0:3)":
            v = v[:3]
        elif e == "E+(1.0,)":
            v.append(1.0)
        else:
            v[int(e[2])] = eval(e[5:], env)
        s[k][i] = t(v)
    else:
        s[k] = eval(e, env)


def check(c):
    import oneka.oneka as oo
    s = copy.deepcopy(c["s"])
    if c["kind"] != "valid":
        spoil(s, c)
    with scratch() as d, entry.recording() as rec, logs() as out:
        out.clear()
        try:
            oo.oneka(**{k: s[k] for k in entry.ORDER if k not in c["drop"]})
            err = None
        except Exception as e:
            err = e
        left = entry.files(d)
    if c["kind"] == "valid":
        from oneka.utilities import filter_obs
        if len(filter_obs(s["observations"], s["stochastic_wells"], 100 if "buffer" in c["drop"] else s["buffer"])) <= 6:
            return
        if err is not None:
            fail("valid arguments are refused with %r: %r", err, {k: v for k, v in s.items() if k != "observations"})
        return
    what = "%s = %s" % (c["key"], c["e"])
    need(err is not None, "%s is not refused", what)
    need(not rec.calls, "%s is refused only after %s", what, rec.calls[0][0] if rec.calls else "")
    need(not out, "%s is refused only after something was logged: %r", what, out[:1])
    need(not left, "%s is refused only after a file was written", what)


def fixed():
    import random
    rng = random.Random(3)
    L = Lits(REPO)
    for k in sorted(BAD):
        for e in BAD[k]:
            while True:
                c = gen(rng, L)
                if c["kind"] != "valid":
                    break
            for at in ((0.0, 0.999) if e.startswith("E") else (0.5,)):
                yield dict(kind="bad " + k, s=copy.deepcopy(c["s"]), key=k, e=e, at=at, drop=[])
