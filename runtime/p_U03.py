from lib import *


def gen(rng, L):
    nv = L.size(rng, 1, 5, 20, 60)
    n = L.size(rng, 1, 12, 60, 1300)
    cols = []
    for _ in range(nv):
        s = rng.choice([1, 100.0, 1e4])
        k = rng.random()
        col = [float(rng.randint(-5, 5)) if k < 0.2 else rng.uniform(-s, s) for _ in range(n)]
        if rng.random() < 0.2:
            c0 = rng.choice([437600.0, 5006600.25])
            col = [c0 + v for v in col]
        if rng.random() < 0.1:
            col = [col[0]] * n
        if rng.random() < 0.3:
            for i in range(n):
                if rng.random() < 0.4:
                    col[i] = nan
            if all(t != t for t in col):
                col[rng.randrange(n)] = 1.5
        if rng.random() < 0.08:
            for i in range(n):
                if col[i] == col[i] and rng.random() < 0.2:
                    col[i] = rng.choice([math.inf, -math.inf, math.inf])
        cols.append(col)
    rows = [tuple(c[i] for c in cols) for i in range(n)]
    how = rng.choice(["tuples", "lists", "array"])
    return dict(kind=how, rows=rows, fmt=[rng.choice(["14.4f", "16.6e", "12.2f", "15.5g", "12.0f", "18.5f"]) for _ in range(nv)], names=["v%d" % i for i in range(nv)], title=rng.choice(["T", "A long title of a table", ""]))


def check(c):
    import oneka.utilities as ut
    rows = np.array(c["rows"]) if c["kind"] == "array" else [list(r) for r in c["rows"]] if c["kind"] == "lists" else list(c["rows"])
    keep = repr(rows)
    text = ut.summary_statistics(rows, list(c["names"]), list(c["fmt"]), c["title"]).getvalue()
    need(repr(rows) == keep, "the table was changed")
    lines = {}
    names = None
    for l in text.split("\n"):
        t = l.split()
        if t and t[0].rstrip(":") in ("cnt", "min", "med", "max", "avg", "std") and t[0].endswith(":"):
            need(t[0] not in lines, "two rows are labelled %s", t[0])
            lines[t[0][:-1]] = t[1:]
        if t == c["names"]:
            names = True
    need(names, "the columns are not headed by their names in order")
    for lab in ("cnt", "min", "med", "max", "avg", "std"):
        need(lab in lines, "no row is labelled %s", lab)
        need(len(lines[lab]) == len(c["names"]), "the row %s has %d entries for %d columns: %r", lab, len(lines[lab]), len(c["names"]), lines[lab])
    for j, f in enumerate(c["fmt"]):
        x = sorted(r[j] for r in c["rows"] if r[j] == r[j])
        n = len(x)
        if any(map(math.isinf, x)):
            # an infinite value is not a missing value
            m = x[n // 2] if n % 2 else (x[n // 2 - 1] + x[n // 2]) / 2
            need(lines["cnt"][j] == str(n), "the count of column %d is %s, not %d", j, lines["cnt"][j], n)
            for lab, v in (("min", x[0]), ("max", x[-1]), ("med", m)):
                z = float(lines[lab][j])
                need(z == v if math.isinf(v) else z != z if v != v else abs(z - v) <= float(format(abs(v) * 1e-13, f)) + 1e-3 * abs(v) + 1, "the %s of column %d is %s, expected %r", lab, j, lines[lab][j], v)
            continue
        mean = math.fsum(x) / n
        want = dict(min=x[0], max=x[-1], med=x[n // 2] if n % 2 else (x[n // 2 - 1] + x[n // 2]) / 2, avg=mean, std=math.sqrt(math.fsum((t - mean) ** 2 for t in x) / n))
        need(lines["cnt"][j] == str(n), "the count of column %d is %s, not %d", j, lines["cnt"][j], n)
        big = max(abs(x[0]), abs(x[-1]), 1e-300)
        for lab, v in want.items():
            e = 1e-13 * big + 1e-15 * big * n + (1e-9 * big if lab == "std" else 0)
            z = lines[lab][j]
            lo, hi = float(format(v - e, f)), float(format(v + e, f))
            need(lo <= float(z) <= hi and (len(z) == len(format(float(z), f).strip()) or float(z) == 0), "the %s of column %d is %s, expected %s", lab, j, z, format(v, f).strip())


def fixed():
    yield dict(kind="tuples", rows=[(1.0, nan, 3.0), (2.0, 5.0, -1.0), (4.0, 7.0, nan), (10.0, nan, nan)], fmt=["12.3f", "12.4f", "14.5e"], names=["a", "b", "c"], title="t")
    yield dict(kind="tuples", rows=[(1.5,)], fmt=["12.3f"], names=["a"], title="t")
