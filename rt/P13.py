"""P13 runtime contracts: multi-tau one-time correlation"""
import numpy as np

from rt.common import A, Frozen, ensure, eqv, op, raises, require
from skbeam.core import correlation as co
from skbeam.core.utils import multi_tau_lags


def g_frames(rng, n, r, c, nan=0.0, zero=0.0):
    out = []
    for _ in range(n):
        d = [rng.dy(0.125, 9) if rng.random() >= zero else 0.0 for _ in range(r * c)]
        if rng.random() < nan:
            d[rng.randrange(r * c)] = None
        out.append(d)
    return {"shape": [n, r, c], "kind": "f", "data": [v for f in out for v in f]}


def g(rng):
    r, c = rng.randint(1, 4), rng.randint(1, 5)
    labs = rng.choice([[0, 1], [0, 1, 2], [1, 2, 3], [0, 3, 7], [0, 2, 5, 9]])
    lab = {"shape": [r, c], "kind": "i", "data": [rng.choice(labs) for _ in range(r * c)]}
    n = rng.choice([1, 2, 3, 5, 8, 13, 17, 24, 33])
    return {"levels": rng.choice([1, 1, 2, 3, 4]), "bufs": rng.choice([2, 4, 4, 6, 8]), "labels": lab,
            "images": g_frames(rng, n, r, c, rng.choice([0, 0, 0.15]), rng.choice([0, 0, 0.3])), "split": rng.randint(0, n)}


def reference(imgs, lab, levels, bufs):
    """(g2, lags) after each prefix is derived from level-wise frame lists"""
    ids = [x for x in sorted(set(lab.ravel().tolist())) if x > 0]
    frames = [f.astype(float) for f in imgs]
    rows, lags = [], []
    for lev in range(levels):
        lo = 0 if lev == 0 else bufs // 2
        for i in range(lo, bufs):
            pairs = [(frames[t - i], frames[t]) for t in range(i, len(frames))]
            pairs = [(a, b) for a, b in pairs if not (np.isnan(a[lab > 0]).any() or np.isnan(b[lab > 0]).any())]
            row = []
            for k in ids:
                m = lab == k
                if not pairs:
                    row.append((0.0, 0.0, 0.0))
                    continue
                row.append((float(np.mean([(a[m] * b[m]).mean() for a, b in pairs])), float(np.mean([a[m].mean() for a, b in pairs])),
                            float(np.mean([b[m].mean() for a, b in pairs]))))
            rows.append(row)
            lags.append(i * 2 ** lev)
        frames = [(frames[2 * k] + frames[2 * k + 1]) / 2 for k in range(len(frames) // 2)]
    n = 0
    while n < len(rows) and all(p != 0 for _, p, _ in rows[n]):
        n += 1
    with np.errstate(all="ignore"):
        g2 = np.array([[np.float64(G) / (p * f) for G, p, f in row] for row in rows[:n]]).reshape(n, len(ids))
    return g2, lags[:n]


@op("multi_tau", g, 90)
def multi_tau(i):
    imgs, lab = A(i["images"]), A(i["labels"])
    require((lab > 0).any())
    fz = Frozen(imgs, lab)
    want, lags = reference(imgs, lab, i["levels"], i["bufs"])
    g2, ls = co.multi_tau_auto_corr(i["levels"], i["bufs"], lab, imgs)
    fz.check()
    ensure([int(x) for x in ls] == lags, "lags %s expected %s", list(ls), lags)
    eqv(np.asarray(g2).reshape(want.shape) if np.size(g2) == want.size else g2, want, "g2", 1e-9, 1e-9)


@op("lazy", g, 60)
def lazy(i):
    imgs, lab = A(i["images"]), A(i["labels"])
    require((lab > 0).any())
    fz = Frozen(imgs, lab)
    kept = []
    k = i["split"]
    st = None
    for part in (imgs[:k], imgs[k:]):
        for res in co.lazy_one_time((f for f in part), i["levels"], i["bufs"], lab, internal_state=st):
            kept.append((res.g2, res.lag_steps, np.array(res.g2)))
        if len(part):
            st = res.internal_state
    fz.check()
    ensure(len(kept) == len(imgs), "%d results for %d frames", len(kept), len(imgs))
    for n, (g2, ls, snap) in enumerate(kept):
        want, lags = reference(imgs[:n + 1], lab, i["levels"], i["bufs"])
        ensure([int(x) for x in ls] == lags, "lags after frame %d: %s expected %s", n + 1, list(ls), lags)
        eqv(np.asarray(g2).reshape(want.shape) if np.size(g2) == want.size else g2, want, "g2 after frame %d" % (n + 1))
        ensure(np.array_equal(g2, snap, equal_nan=True), "an earlier result changed afterwards")


@op("odd_bufs", lambda rng: {"bufs": rng.choice([1, 3, 5, 7])}, 4)
def odd_bufs(i):
    r = raises(ValueError, co.multi_tau_auto_corr, 2, i["bufs"], np.ones((2, 2), dtype=int), np.ones((4, 2, 2)))
    ensure(r is True, "odd buffer count accepted: %s", r)


@op("scat_factor", lambda rng: {"lags": rng.arr((5,), 0, 9), "beta": rng.dy(0, 1), "rate": rng.dy(0, 2), "base": rng.choice([None, 1.5, 0.0])}, 20)
def scat_factor(i):
    lags = A(i["lags"])
    kw = {} if i["base"] is None else {"baseline": i["base"]}
    got = co.auto_corr_scat_factor(lags, i["beta"], i["rate"], **kw)
    eqv(got, i["beta"] * np.exp(-2 * i["rate"] * A(i["lags"])) + (1 if i["base"] is None else i["base"]), "scattering factor")
