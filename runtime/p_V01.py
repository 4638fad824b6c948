from lib import *
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt


def gen(rng, L):
    g = gen_field(rng, L)
    if rng.random() < 0.5:
        g["dx"] = rng.choice([L.pos(rng, 0.1, 50), L.pos(rng, 0.01, 5000), 1, 10])
    g["dy"] = g["dx"]
    return dict(kind="field", f=g, sp=g["dx"], empty=rng.random() < 0.08)


def check(c):
    import oneka.visualize as vi
    g = dict(c["f"])
    if c["empty"]:
        g["W"] = 0
    elif g["W"] == 0:
        g["W"] = 3
    f = make_field(g)
    keep = fld_state(f)
    try:
        r = vi.create_impact_plot(c["sp"], f)
    except Exception as e:
        need(c["empty"], "create_impact_plot raises %r", e)
        return
    finally:
        plt.close("all")
    need(not c["empty"], "an empty field is not refused")
    z = fld_state(f)
    need(all(np.array_equal(keep[k], z[k]) for k in keep), "the field was modified")
    pr, area = np.array(r[0], dtype=float), np.array(r[1], dtype=float)
    want = np.sort((keep["P"] / keep["W"]).ravel())[::-1]
    need(pr.shape == want.shape and area.shape == want.shape, "%s probabilities and %s areas for %d nodes", pr.shape, area.shape, want.size)
    need(np.allclose(pr, want, rtol=1e-12, atol=1e-15), "the probabilities are %r..., expected %r...", pr[:5].tolist(), want[:5].tolist())
    w = np.arange(1, want.size + 1) * c["sp"] ** 2
    need(np.allclose(area, w, rtol=1e-12, atol=0), "the areas are %r..., expected %r...", area[:5].tolist(), w[:5].tolist())
