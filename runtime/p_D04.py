import re
from lib import *
import entry

NUM = r"[-+]?[\d,]*\.?\d+(?:[eE][-+]?\d+)?"
ACRE = 4046.86
TWO = ("duration", "base", "buffer", "spacing", "umbra", "tol", "maxstep")
WHOLE = ("target", "npaths", "nrealizations")
LABEL = {"projectname": "project name", "runtime": "run time"}


def gen(rng, L):
    s = entry.gen_args(rng, L)
    if rng.random() < 0.3:
        # more observations, which the filter drops
        w = s["stochastic_wells"][0]
        s["observations"] += [type(s["observations"][0])((w[0] + 0.5 * s["buffer"] * rng.random(), w[1], 30.0 + k, 1.0)) for k in range(L.size(rng, 0, 50, 300, 3000))]
    if rng.random() < 0.1:
        s["stochastic_wells"] += [type(s["stochastic_wells"][0])((w[0] + 1e6, w[1] + k, 0.3, 100.0 + k)) for k in range(L.size(rng, 0, 50, 300, 1500)) for w in s["stochastic_wells"][:1]]
    if rng.random() < 0.15:
        # entries listed twice
        for k in ("observations", "stochastic_wells"):
            i = rng.randrange(len(s[k]))
            s[k] = s[k][:i + 1] + [copy.copy(s[k][i])] * rng.choice([1, 1, 2]) + s[k][i + 1:]
    n = rng.choice([1, 2, 20, L.size(rng, 1, 400)])
    kind = rng.random()
    if kind < 0.4:
        pr = [rng.random() for _ in range(n)]
    elif kind < 0.7:
        N = rng.choice([2, 3, 10, 20, 20, 50])
        pr = [rng.randint(0, N) / N for _ in range(n)]
    else:
        pr = [rng.uniform(0, rng.choice([0.02, 0.3, 1.0])) for _ in range(n)]
    if rng.random() < 0.3:
        # just above and below the levels
        pr += [min(1.0, rng.randint(1, 19) / 20 + rng.choice([-1, 1]) * 10.0 ** -rng.randint(4, 11)) for _ in range(rng.randint(1, 10))]
    if rng.random() < 0.3:
        pr += [L.pos(rng, 1e-6, 1.0) % 1.0]
    cell = L.pos(rng, 0.1, 1e4)
    return dict(s=s, pr=sorted(pr, reverse=True) + [0.0] * rng.choice([1, 5, 100]), cell=cell, area=rng.choice([0.0, L.pos(rng, 0.01, 1e8)]))


def number(t):
    return float(t.replace(",", ""))


def check(c):
    import oneka.oneka as oo
    from oneka.utilities import filter_obs
    s = copy.deepcopy(c["s"])
    if len(filter_obs(copy.deepcopy(s["observations"]), copy.deepcopy(s["stochastic_wells"]), s["buffer"])) <= 6:
        return
    pr = np.array(c["pr"])
    area = (np.arange(len(pr)) + 1) * c["cell"]
    with scratch(), entry.recording(curve=(pr.copy(), area.copy()), area=c["area"]) as rec, logs() as out:
        oo.oneka(**s)
    # the settings
    for n in entry.ORDER:
        if n in ("stochastic_wells", "observations"):
            at = [i for i, m in enumerate(out) if re.match(r"\s*%s\s*[:=]" % n, m)]
            need(at, "the log does not announce the %s", n)
            k = int(re.findall(r"\d+", out[at[0]])[0])
            need(k == len(s[n]), "the log announces %d %s of %d", k, n, len(s[n]))
            got = [m.strip() for m in out[at[0] + 1:at[0] + 1 + k]]
            for i, (g, w) in enumerate(zip(got, s[n])):
                need(g == str(w), "entry %d of the %s in the log is %s, given was %s", i, n, g, w)
            need(len(got) == k, "the log lists %d of %d %s", len(got), k, n)
            continue
        ms = [re.match(r"\s*(?:%s|%s)\s*=\s*(.*)$" % (n, LABEL.get(n, n)), m, re.S) for m in out]
        ms = [m.group(1).strip() for m in ms if m]
        need(ms, "the log does not state %s", n)
        m = ms[0]
        if n in TWO:
            close(number(re.findall(NUM, m)[0]), s[n], 0.00501 + 1e-12 * abs(s[n]), "the log's %s", n)
        elif n in WHOLE:
            need(int(re.findall(r"-?\d+", m)[0]) == s[n], "the log's %s is %s, given was %r", n, m, s[n])
            if n == "nrealizations":
                need(("STOCHASTIC" in m) == (s[n] > 1), "%d realizations are logged as %s", s[n], m)
        else:
            need(m == str(s[n]).strip(), "the log's %s is %s, given was %r", n, m, s[n])
    # the result
    if s["nrealizations"] > 1:
        rows = [re.match(r"\s*(%s)\s+(%s)\s+(%s)\s*$" % (NUM, NUM, NUM), m) for m in out]
        rows = [[number(g) for g in r.groups()] for r in rows if r]
        need(len(rows) == 19, "the log lists %d levels", len(rows))
        for k, (p, a, ac) in enumerate(rows):
            level = (k + 1) / 20
            cand = set()
            # at a tie rounding decides, except at the levels that have the same float however they are computed
            for lv in (level,) if k in (0, 1, 3, 4) else (level - 1e-13, level, level + 1e-13):
                hit = np.nonzero(pr <= lv)[0]
                if len(hit):
                    cand.add(int(hit[0]))
            ok = any(abs(p - pr[i]) <= 0.000501 and abs(a - area[i]) <= 0.501 + 1e-12 * area[i] and abs(ac - area[i] / ACRE) <= 0.00501 + 1e-12 * area[i]
                     for i in cand)
            i = min(cand)
            need(ok, "level %g: the log shows %r, %r m2, %r acres; the first point of the curve that does not exceed it is %r, %r m2, %r acres",
                 level, p, a, ac, pr[i], area[i], area[i] / ACRE)
    else:
        for unit, f, tol in (("[m^2]", 1.0, 0.501), ("[acres]", ACRE, 0.00501)):
            ms = [m for m in out if unit in m and re.findall(NUM, m.replace(unit, ""))]
            need(ms, "the log does not report the area in %s", unit)
            close(number(re.findall(NUM, ms[-1].replace(unit, ""))[0]), c["area"] / f, tol + 1e-12 * c["area"] / f, "the logged area in %s", unit)
