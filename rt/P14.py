"""P14 runtime contracts: two-time correlation"""
import numpy as np

from rt.common import A, Frozen, ensure, eqv, op, raises, require
from rt.P13 import g_frames
from rt import common
from skbeam.core import correlation as co

common.OPS.clear()


def g(rng):
    r, c = rng.randint(1, 4), rng.randint(1, 5)
    labs = rng.choice([[0, 1], [0, 1, 2], [1, 2, 3], [0, 3, 7]])
    n = rng.choice([1, 2, 3, 5, 8, 13, 17])
    lev = rng.choice([1, 1, 1, 2, 3])
    bufs = rng.choice([2, 4, 6, 8])
    if rng.random() < 0.12:      # deep hierarchies
        lev, bufs, r, c, n = rng.choice([4, 5]), rng.choice([2, 4]), 1, rng.randint(1, 3), rng.randint(20, 40)
    return {"bufs": bufs, "levels": lev, "labels": {"shape": [r, c], "kind": "i", "data": [rng.choice(labs) for _ in range(r * c)]},
            "images": g_frames(rng, n, r, c), "split": rng.randint(0, n), "extra": rng.choice([0, 0, 2])}


def reference(imgs, lab, levels, bufs, frames):
    ids = [x for x in sorted(set(lab.ravel().tolist())) if x > 0]
    g2 = np.zeros((len(ids), frames, frames))
    cur = [f.astype(float) for f in imgs]
    for lev in range(levels):
        w = 2 ** lev
        for t in range(len(cur)):
            for d in range(0 if lev == 0 else bufs // 2, bufs):
                if t - d < 0:
                    continue
                for q, k in enumerate(ids):
                    a, b = cur[t][lab == k], cur[t - d][lab == k]
                    v = (a * b).mean() / (a.mean() * b.mean())
                    for j in range(w):
                        x, y = t * w + j, (t - d) * w + j
                        g2[q, x, y] = g2[q, y, x] = v
        cur = [(cur[2 * k] + cur[2 * k + 1]) / 2 for k in range(len(cur) // 2)]
    return g2


@op("two_time", g, 90)
def two_time(i):
    imgs, lab = A(i["images"]), A(i["labels"])
    require((lab > 0).any())
    n = len(imgs) + i["extra"]
    fz = Frozen(imgs, lab)
    res = co.two_time_corr(lab, imgs, n, i["bufs"], i["levels"])
    fz.check()
    want = reference(imgs, lab, i["levels"], i["bufs"], n)
    eqv(res.g2, want, "two-time matrix")
    ensure(np.array_equal(res.g2, res.g2.transpose(0, 2, 1)), "not symmetric")


@op("two_time_lazy", g, 60)
def two_time_lazy(i):
    imgs, lab = A(i["images"]), A(i["labels"])
    require((lab > 0).any())
    n = len(imgs) + i["extra"]
    st, k, cnt = None, i["split"], 0
    for part in (imgs[:k], imgs[k:]):
        for st_ in co.lazy_two_time(lab, (f for f in part), n, i["bufs"], i["levels"], two_time_internal_state=st):
            cnt += 1
        if len(part):
            st = st_
    ensure(cnt == len(imgs), "%d states for %d frames", cnt, len(imgs))
    eqv(co.two_time_state_to_results(st).g2, reference(imgs, lab, i["levels"], i["bufs"], n), "resumed two-time matrix")


def g1(rng):
    q, n = rng.randint(1, 3), rng.randint(1, 7)
    a = rng.arr((q, n, n), 0, 4)
    if rng.random() < 0.4:
        for _ in range(2):
            a["data"][rng.randrange(len(a["data"]))] = None
    return {"g2": a, "errors": rng.random() < 0.5}


@op("one_time_from_two_time", g1, 80)
def one_time_from_two_time(i):
    g = A(i["g2"])
    fz = Frozen(g)
    out = co.one_time_from_two_time(g, calc_errors=i["errors"])
    fz.check()
    err = None
    if i["errors"]:
        out, err = out
    q, n = g.shape[0], g.shape[2]
    ensure(out.shape == (q, n), "shape %s", out.shape)
    for a in range(q):
        for j in range(n):
            d = [g[a, t, t + j] for t in range(n - j)]
            v = [x for x in d if x == x]
            m = sum(v) / len(v) if v else float("nan")
            eqv(out[a, j], m, "lag %d of region %d" % (j, a))
            if err is not None and v:
                eqv(err[a, j], np.sqrt(sum((x - m) ** 2 for x in v) / len(v)) / np.sqrt(len(d)), "error at lag %d" % j)
