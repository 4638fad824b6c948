from lib import *


def gen(rng, L):
    ops = []
    for _ in range(rng.randint(2, 8)):
        ops.append((rng.choice(["default", "array", "list", "fit", "mutate_passed", "mutate_returned", "assign_from", "mutate_coef", "mutate_default", "reassign", "column"]), rng.randrange(6), rng.randrange(6), L.num(rng, 10.0)))
    return dict(ops=[("default", 0, 0, 0.0)] + ops, m=gen_model(rng, L, nmax=2))


def coefs(mo):
    return [float(v) for v in np.ravel(mo.coef)]


def check(c):
    from oneka.model import Model
    m = c["m"]
    models, want, arrays, returned = [], [], [], []
    p = [m["cx"] + 40.0, m["cy"] + 55.0]
    if any(abs(p[0] - w[0]) + abs(p[1] - w[1]) < 1e-3 for w in m["wells"]):
        return

    def new(*a, **k):
        models.append(Model(m["base"], m["k"], m["por"], m["t"], copy.deepcopy(m["wells"]), *a, **k))

    def verify(what):
        for i, (mo, w) in enumerate(zip(models, want)):
            need(coefs(mo) == w, "after %s: model %d has coefficients %r, not %r", what, i, coefs(mo), w)
            ref = dict(m, coef=w, xo=mo.xo, yo=mo.yo)
            v, s = ref_pot(ref, *p)
            close(float(mo.compute_potential(*p)), v, (s + 1e-9) * 1e-7, "after %s: potential of model %d", what, i)
    for op, i, j, v in c["ops"]:
        if op == "default":
            new()
            want.append([0.0] * 6)
        elif op in ("array", "list", "column"):
            a = np.arange(6.0) + v
            if op == "column":
                a = a.reshape(6, 1)
            arg = a if op != "list" else [float(q) for q in a]
            arrays.append(arg)
            if op == "list":
                new(1.0, 2.0, np.array(arg))
            else:
                new(1.0, 2.0, arg)
            want.append([float(q) for q in np.ravel(a)])
        elif op == "fit":
            mo = models[i % len(models)]
            r = np.random.RandomState(int(abs(v) * 10) + j)
            obs = [(m["cx"] + 100 * r.randn(), m["cy"] + 100 * r.randn(), m["base"] + m["t"] * (1 + r.rand()), 1 + r.rand()) for _ in range(10)]
            ev, cov = mo.fit_regional_flow(obs, m["cx"], m["cy"])
            returned.append(ev)
            want[i % len(models)] = [float(q) for q in np.ravel(ev)]
        elif op == "mutate_passed" and arrays:
            a = arrays[i % len(arrays)]
            if isinstance(a, np.ndarray):
                a.ravel()[j] += v + 1
            else:
                a[j] += v + 1
        elif op == "mutate_returned" and returned:
            e = returned[i % len(returned)]
            if isinstance(e, np.ndarray) and e.flags.writeable:
                e.ravel()[j] += v + 1
        elif op == "assign_from" and len(models) > 1:
            a, b = i % len(models), j % len(models)
            models[a].coef = models[b].coef
            want[a] = list(want[b])
        elif op == "reassign":
            a = np.arange(6.0) - v
            arrays.append(a)
            models[i % len(models)].coef = a
            want[i % len(models)] = [float(q) for q in a]
        elif op in ("mutate_coef", "mutate_default"):
            k = (i if op == "mutate_coef" else 0) % len(models)
            mo = models[k]
            cf = mo.coef
            if isinstance(cf, np.ndarray) and cf.flags.writeable:
                cf[j] = v
                now = coefs(mo)
                w2 = list(want[k])
                w2[j] = float(v)
                need(now in (w2, want[k]), "unexpected coefficients %r", now)
                want[k] = now
        verify(op)
    new()
    want.append([0.0] * 6)
    verify("a new default model")


def fixed():
    m = dict(base=0, k=1.0, por=.2, t=10.0, wells=[(0.0, 0.0, 1.0, 10.0)], xo=0, yo=0, coef=[0.0] * 6, cx=0.0, cy=0.0)
    yield dict(ops=[("default", 0, 0, 0.0), ("mutate_default", 0, 2, 5.0), ("default", 0, 0, 0.0), ("fit", 0, 1, 3.0), ("mutate_returned", 0, 0, 4.0), ("default", 0, 0, 0)], m=m)
    yield dict(ops=[("default", 0, 0, 0.0), ("array", 0, 0, 1.0), ("mutate_passed", 0, 3, 2.0), ("assign_from", 0, 1, 0), ("mutate_coef", 0, 1, 9.0), ("mutate_coef", 1, 1, 8.0)], m=m)
