"""P11 runtime contracts: 3-D gridding (rebuilt C extension)"""
import ctypes

import numpy as np

from rt.common import A, Frozen, ensure, eqv, op, raises, require
from skbeam.core.utils import grid3d
from skbeam.ext import ctrans


def threads(n):
    try:
        ctypes.CDLL("libgomp.so.1").omp_set_num_threads(int(n))
    except OSError:
        pass


def gg(rng):
    r, c, m = rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 3)
    n = r * c * m
    big = rng.random() < 0.15
    if big:
        m, r, c = 4, 12, 13
        n = m * r * c
    lo, hi = sorted([rng.dy(-9, 9), rng.dy(-9, 9)])
    q = rng.arr((n, 3), min(lo, hi - 1), hi, q=rng.choice([1, 8, 64, 4096, 1 << 30]))
    i = {"q": q, "img": rng.arr((m, r, c), -4, 9), "n": [rng.choice([None, rng.randint(1, 9), rng.choice([1, 2, 4, 8])]) if not rng.random() < .7 else rng.randint(1, 9) for _ in range(3)],
         "lim": [None if rng.random() < .6 else rng.dy(lo - 3, lo + (hi - lo) / 2) if k < 3 else rng.dy(hi - (hi - lo) / 3, hi + 3) for k in range(6)], "mask": rng.choice([None, None, "2d", "3d"]),
         "maskbits": [rng.random() < 0.7 for _ in range(n)], "intmask": rng.random() < 0.3, "intq": rng.random() < 0.2, "threads": rng.choice([1, 2, 3, 8]),
         "seed": rng.randint(0, 10 ** 6), "nan": rng.choice([None, None, rng.randint(0, n - 1)])}
    if all(k is None for k in i["n"]):
        i["n"][0] = 3
    return i


@op("grid3d", gg, 150)
def check_grid3d(i):
    q, img = A(i["q"]), A(i["img"])
    require(q.ndim == 2 and q.shape[1] == 3 and img.ndim == 3 and img.size == len(q))
    if i.get("intq"):
        q = np.floor(q).astype(int)
    n = [k if k is not None else 100 for k in i["n"]]
    require(np.prod(n) < 2e5)
    kw = {k: v for k, v in zip(("nx", "ny", "nz"), i["n"]) if v is not None}
    for k, v in zip(("xmin", "ymin", "zmin", "xmax", "ymax", "zmax"), i["lim"]):
        if v is not None:
            kw[k] = v
    lo = np.array([i["lim"][d] if i["lim"][d] is not None else q[:, d].min() for d in range(3)], dtype=float)
    hi = np.array([i["lim"][3 + d] if i["lim"][3 + d] is not None else q[:, d].max() for d in range(3)], dtype=float)
    require(all(lo[d] < hi[d] or (lo[d] == hi[d] and i["lim"][3 + d] is None) for d in range(3)))
    if i.get("nan") is not None:
        img = img.copy()
        img.ravel()[i["nan"]] = np.nan
    mask, keep = None, np.ones(len(q), dtype=bool)
    if i["mask"] == "2d":
        mask = np.array(i["maskbits"][:img[0].size]).reshape(img[0].shape)
        keep = np.tile(mask.ravel(), len(img))
    elif i["mask"] == "3d":
        mask = np.array(i["maskbits"]).reshape(img.shape)
        keep = mask.ravel().copy()
    if mask is not None:
        if i.get("intmask"):
            mask = mask.astype(int)
        kw["binary_mask"] = mask
    fz = Frozen(q, img, *([] if mask is None else [mask]))
    threads(i["threads"])
    mean, occ, err, bounds = grid3d(q, img, **kw)
    fz.check()
    ensure(mean.shape == tuple(n) == occ.shape == err.shape, "grid shape %s", mean.shape)
    for d in range(3):
        ensure(bounds[d][0] == lo[d] and bounds[d][2] == n[d], "bounds %s", bounds)
        if i["lim"][3 + d] is not None:
            ensure(bounds[d][1] == hi[d], "upper bound %s", bounds)
        else:
            s = max(abs(lo[d]), abs(hi[d]))
            ensure(hi[d] <= bounds[d][1] <= hi[d] + 1e-12 * s + 1e-300, "upper bound %s", bounds)
    # independence of the thread count and of the order of the points
    for t in (1, 4):
        threads(t)
        m2, o2, e2, b2 = grid3d(q, img, **kw)
        ensure(np.array_equal(o2, occ) and np.allclose(m2, mean, rtol=1e-12, atol=1e-12, equal_nan=True), "result depends on the thread count")
    if mask is None:
        pm = np.random.RandomState(i["seed"]).permutation(len(q))
        m2, o2, e2, b2 = grid3d(q[pm], img.ravel()[pm].reshape(img.shape), **kw)
        ensure(np.array_equal(o2, occ) and np.allclose(m2, mean, rtol=1e-12, atol=1e-12, equal_nan=True), "result depends on the order of the points")
    # every point in exactly the voxel its coordinates fall in; a point within rounding of a voxel face may go to either side
    v = img.ravel()
    keep = keep & ~np.isnan(v)
    width = np.array([(bounds[d][1] - lo[d]) for d in range(3)])
    pos = (q - lo) / width * n
    idx = np.floor(pos).astype(int)
    near = np.abs(pos - np.round(pos)) < 1e-9
    dyad = np.array([(k & (k - 1)) == 0 and i["lim"][3 + d] is not None for d, k in enumerate(n)])
    inside = keep.copy()
    for d in range(3):
        if i["lim"][3 + d] is None:
            inside &= q[:, d] >= lo[d]
            idx[:, d] = np.minimum(idx[:, d], n[d] - 1)
        else:
            inside &= (q[:, d] >= lo[d]) & (q[:, d] < hi[d])
            # a point exactly on an interior face belongs to the upper voxel when the arithmetic is exact
    amb = np.zeros(len(q), dtype=bool)
    for d in range(3):
        onlow = q[:, d] == lo[d]
        amb |= near[:, d] & ~onlow & ~((q[:, d] == hi[d]) & (i["lim"][3 + d] is None))
    if not dyad.all() and (amb & inside).any():
        # leave the points that rounding may put on either side of a face out of the per-voxel comparison
        inside &= ~amb
        sel = keep & ~amb
        q2, v2 = q[sel], v[sel]
        require(len(q2) > 0 and all(q2[:, d].max() == q[:, d].max() and q2[:, d].min() == q[:, d].min() for d in range(3)))
        mean, occ, err, bounds = grid3d(q2, v2.reshape(1, 1, -1), **{k: x for k, x in kw.items() if k != "binary_mask"})
    wo, ws, w2 = np.zeros(n), np.zeros(n), np.zeros(n)
    for p in np.nonzero(inside)[0]:
        t = tuple(idx[p])
        wo[t] += 1
        ws[t] += v[p]
        w2[t] += v[p] ** 2
    ensure(np.array_equal(occ, wo), "occupancy: total %s expected %s", occ.sum(), wo.sum())
    eqv(mean, ws / wo, "mean")
    var = np.where(wo > 0, np.maximum(w2 / wo - (ws / wo) ** 2, 0), 0)
    eqv(err ** 2, np.where(wo > 0, var / wo, 0), "standard error", 1e-6, 1e-9)


@op("grid3d_default_bounds", lambda rng: {"q": rng.floats((rng.randint(1, 40), 3), *rng.choice([(-9, -1), (-1, 1), (0, 1), (-1e-7, 0), (1e5, 1e5 + 1), (-1e5 - 1, -1e5)])),
                                          "n": [rng.randint(1, 60) for _ in range(3)], "xmin": rng.choice([None, -1e7])}, 120)
def grid3d_default_bounds(i):
    q = A(i["q"])
    kw = {} if i["xmin"] is None else {"xmin": i["xmin"]}
    m, occ, e, b = grid3d(q, np.ones(len(q)).reshape(1, 1, -1), *i["n"], **kw)
    ensure(occ.sum() == len(q), "with default bounds %d of %d points are inside", occ.sum(), len(q))
    ensure(not np.isnan(e).any(), "standard error of equal values is NaN")


@op("grid3d_rejects", lambda rng: {"w": rng.randint(1, 6), "m": rng.randint(1, 4)}, 10)
def grid3d_rejects(i):
    require(i["w"] != 3)
    ensure(raises(ValueError, grid3d, np.zeros((4, i["w"])), np.zeros((1, 2, 2))) is True, "q of width %s accepted", i["w"])
    ensure(raises(ValueError, grid3d, np.zeros((4, 3)), np.zeros((1, 2, 2)), binary_mask=np.ones((5, i["m"]), dtype=bool)) is True, "mask of another shape accepted")


@op("race", lambda rng: {"seed": rng.randint(0, 10 ** 6)}, 2)
def race(i):
    """large grids with many threads, repeatedly: private accumulators are cleared and merged exactly"""
    r = np.random.RandomState(i["seed"])
    d = np.concatenate([r.rand(4000, 3), np.ones((4000, 1))], axis=1)
    for t in (8, 5, 8, 3):
        threads(t)
        # dirty the heap so that uncleared memory would show
        junk = [np.full(40 * 40 * 40, 7.25) for _ in range(8)]
        del junk
        s, s2, o, e = ctrans.grid3d(d, (0., 0., 0.), (1., 1., 1.), (40, 40, 40))
        ensure(o.sum() == 4000 and s.sum() == 4000 and s2.sum() == 4000, "occupancy %s sum %s with %d threads", o.sum(), s.sum(), t)
