"""P17 runtime contracts: speckle visibility"""
import numpy as np

from rt.common import A, Frozen, close, ensure, eqv, op, require
from skbeam.core import speckle
from skbeam.core.fitting import lineshapes


def levels(n):
    """integration times 1, 2, 4, ... below n (at least one)"""
    k, t = 1, 2
    while t < n:
        k, t = k + 1, 2 * t
    return k


def gx(rng):
    nset, r, c = rng.randint(1, 3), rng.randint(1, 4), rng.randint(1, 4)
    n = rng.randint(1, 9)
    top = rng.choice([1, 3, 6])
    sets = []
    for _ in range(nset):
        a = rng.arr((rng.randint(1, 9) if rng.random() < .3 else n, r, c), 0, top, kind="i")
        sets.append(a)
    return {"sets": sets, "labels": rng.arr((r, c), 0, 3, kind="i"), "n": n if rng.random() < .8 else rng.randint(1, 12), "max": rng.choice([top + 2, top + 1, max(top, 2), None]),
            "bad": [[rng.random() < 0.15 for _ in range(s["shape"][0])] for s in sets], "float": rng.random() < .5}


def oracle(sets, lab, n, mx):
    u = [k for k in np.unique(lab) if k != 0]
    L = levels(n)
    mean = [[0.0] * len(u) for _ in range(L)]
    sq = [[0.0] * len(u) for _ in range(L)]
    cover = [[[] for _ in u] for _ in range(L)]
    for s in sets:
        for i in range(L):
            w = 2 ** i
            edges = np.arange(mx * w)
            wins = [np.sum(s[k:k + w], axis=0) for k in range(0, len(s) - w + 1, w)]
            wins = [x for x in wins if not np.isnan(x[lab != 0]).any()]
            for j, lb in enumerate(u):
                hs = []
                for x in wins:
                    v = x[lab == lb]
                    h = np.array([np.sum((v >= a) & ((v < b) if b != edges[-1] else (v <= b))) for a, b in zip(edges[:-1], edges[1:])], dtype=float)
                    t = h.sum()
                    hs.append(h / t if t else h)
                    cover[i][j].append(t > 0)
                if hs:
                    mean[i][j] = mean[i][j] + np.mean(hs, axis=0) / len(sets)
                    sq[i][j] = sq[i][j] + np.mean(np.square(hs), axis=0) / len(sets)
    return mean, sq, cover


@op("xsvs", gx, 120)
def xsvs(i):
    lab = A(i["labels"])
    require((lab != 0).any())
    sets = [A(s).astype(float) for s in i["sets"]]
    isint = True
    for s, b in zip(sets, i["bad"]):
        for k, f in enumerate(b[:len(s)]):
            if f:
                s[k] = np.nan
                isint = False
    mx = i["max"]
    kw = {}
    if mx is None:
        mx = max(np.nanmax(np.where(lab != 0, s, 0)) for s in sets)
        require(isint and mx >= 2)
        mx = int(mx)
    else:
        kw["max_cts"] = mx
    given = [s if i["float"] or not isint else s.astype(int) for s in sets]
    fz = Frozen(lab, *given)
    p, sd = speckle.xsvs(given, lab, number_of_img=i["n"], timebin_num=2, **kw)
    fz.check()
    mean, sq, cover = oracle(sets, lab, i["n"], mx)
    ensure(p.shape == (len(mean), len(mean[0])), "shape %s", p.shape)
    for a in range(p.shape[0]):
        for b in range(p.shape[1]):
            eqv(p[a, b], mean[a][b], "distribution at level %d, roi %d" % (a, b))
            ensure(np.min(p[a, b]) >= 0, "negative probability")
            var = np.asarray(sq[a][b]) - np.square(mean[a][b])
            got = np.where(np.isnan(np.asarray(sd[a, b], dtype=float)), 0, np.asarray(sd[a, b], dtype=float))
            ensure(close(np.square(got), np.maximum(var, 0), 1e-6, 1e-9), "spread at level %d, roi %d: %s expected %s", a, b, sd[a, b], np.sqrt(np.maximum(var, 0)))


@op("normalize_bin_edges", lambda rng: {"t": rng.randint(1, 4), "mean": [rng.dy(.25, 5) for _ in range(rng.randint(1, 4))], "max": rng.randint(2, 7)}, 40)
def normalize_bin_edges(i):
    m = A(i["mean"])
    fz = Frozen(m)
    e, c = speckle.normalize_bin_edges(i["t"], len(m), m, i["max"])
    fz.check()
    ensure(e.shape == (i["t"], len(m)) == c.shape, "shape %s", e.shape)
    for a in range(i["t"]):
        for b in range(len(m)):
            w = np.arange(i["max"] * 2 ** a) / (m[b] * 2 ** a)
            eqv(e[a, b], w, "edges at level %d roi %d" % (a, b))
            eqv(c[a, b], (w[1:] + w[:-1]) / 2, "centers")


@op("expected_distributions", lambda rng: {"k": rng.uniform(.2, 8), "m": rng.uniform(.5, 20), "n": rng.randint(2, 30)}, 40)
def expected_distributions(i):
    from scipy.stats import gamma, nbinom, poisson
    x = np.arange(i["n"])
    K, M = i["k"], i["m"]
    eqv(lineshapes.nbinom_dist(x, K, M), nbinom.pmf(x, M, M / (M + K)), "negative binomial", 1e-7, 1e-10)
    eqv(lineshapes.poisson_dist(x, K), poisson.pmf(x, K), "Poisson", 1e-7, 1e-10)
    y = x + .5
    eqv(lineshapes.gamma_dist(y, K, M), gamma.pdf(y, M, scale=K / M), "gamma", 1e-7, 1e-10)
