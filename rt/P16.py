"""P16 runtime contracts: masked spatial cross-correlation"""
import numpy as np

from rt.common import A, Frozen, ensure, op, raises, require
from skbeam.core import correlation as co


def g(rng):
    one = rng.random() < 0.3
    shape = [rng.randint(1, 9)] if one else [rng.randint(1, 6), rng.randint(1, 6)]
    n = int(np.prod(shape))
    labs = rng.choice([[0, 1], [1], [0, 1, 2], [0, 2, 5], [1, 2]])
    mask = None if rng.random() < 0.25 else {"shape": shape, "kind": "i", "data": [rng.choice(labs) for _ in range(n)]}
    ims = [{"shape": shape, "kind": "f", "data": [rng.choice([1.0, 5.0]) if k == 2 else rng.uniform(0.5, 6) for _ in range(n)]}
           for k in (0, 1, 0)]
    norm = rng.choice([None, "regular", "symavg", ["regular", "symavg"], ["symavg"], []])
    if "symavg" not in (norm or []) and rng.random() < 0.5:      # dark pixels inside the regions
        for im in ims:
            im["data"] = [0.0 if rng.random() < 0.3 else v for v in im["data"]]
    return {"shape": shape, "mask": mask, "im1": ims[0], "im2": ims[1] if rng.random() < 0.6 else None, "im3": ims[2],
            "norm": norm, "late": rng.random() < 0.3, "const": rng.random() < 0.2}


def direct(i1, i2, m, norm):
    r0, c0 = [int(x) for x in np.argwhere(m).min(axis=0)]
    r1, c1 = [int(x) for x in np.argwhere(m).max(axis=0)]
    H, W = r1 - r0 + 1, c1 - c0 + 1
    out = np.full((2 * H - 1, 2 * W - 1), np.nan)
    px = [tuple(p) for p in np.argwhere(m)]
    have = set(px)
    av1, av2 = np.mean([i1[p] for p in px]), np.mean([i2[p] for p in px])
    require(not norm or (av1 > 0 and av2 > 0))
    for dr in range(-(H - 1), H):
        for dc in range(-(W - 1), W):
            pairs = [((r + dr, c + dc), (r, c)) for r, c in px if (r + dr, c + dc) in have]
            if not pairs:
                if not norm:
                    out[dr + H - 1, dc + W - 1] = 0.0
                continue
            v = sum(i1[a] * i2[b] for a, b in pairs)
            n = len(pairs)
            if "symavg" in norm:
                v = v * n / sum(i1[a] for a, b in pairs) / sum(i2[b] for a, b in pairs)
            if "regular" in norm:
                v = v / n / (av1 * av2)
            out[dr + H - 1, dc + W - 1] = v
    return out


def run(i, obj, im1, im2, norm_call):
    mask = np.ones(i["shape"], dtype=int) if i["mask"] is None else A(i["mask"])
    kw = {} if norm_call is None else {"normalization": norm_call}
    fz = Frozen(im1) if im2 is None else Frozen(im1, im2)
    got = obj(im1, **kw) if im2 is None else obj(im1, im2, **kw)
    fz.check()
    ids = [k for k in sorted(set(mask.ravel().tolist())) if k]
    if len(ids) == 1:
        got = [got]
    ensure(len(got) == len(ids), "%d results for %d regions", len(got), len(ids))
    norm = norm_call if norm_call is not None else ("regular" if i["norm"] is None or i["late"] else i["norm"])
    for k, v in zip(ids, got):
        m = mask == k
        if m.ndim == 1:
            m = m.reshape(1, -1)
        a = im1.reshape(m.shape)
        b = a if im2 is None else im2.reshape(m.shape)
        want = direct(a, b, m, norm)
        v = np.asarray(v)
        if len(i["shape"]) == 1:
            want = want.reshape(-1)
        ensure(v.shape == want.shape, "region %s: shape %s expected %s", k, v.shape, want.shape)
        ok = np.isfinite(want)
        ensure(np.allclose(v[ok], want[ok], rtol=1e-7, atol=1e-7), "region %s: got %s expected %s", k, v.ravel()[:12], want.ravel()[:12])
        ensure(np.isnan(v[~ok]).all(), "region %s: a value is reported where no pair exists", k)


@op("cross_correlator", g, 140)
def cross_correlator(i):
    mask = None if i["mask"] is None else A(i["mask"])
    require(mask is None or (mask != 0).any())
    im1, im2, im3 = A(i["im1"]), None if i["im2"] is None else A(i["im2"]), A(i["im3"])
    if i["const"]:
        im1 = np.full(tuple(i["shape"]), 3.0)
        im2 = None
    shape = tuple(i["shape"])
    k0 = None if mask is None else mask.copy()
    if i["late"] or i["norm"] is None:
        obj = co.CrossCorrelator(shape, mask=mask)
        call = i["norm"] if i["late"] else None
    else:
        obj = co.CrossCorrelator(shape, mask=mask, normalization=i["norm"])
        call = None
    ensure(mask is None or np.array_equal(mask, k0), "mask modified")
    run(i, obj, im1, im2, call)
    run(i, obj, im3, None, call)
    run(i, obj, im1, im2, call)           # repeated use of the object
    # displacements
    pos, cen = obj.positions, obj.centers
    ids = [1] if mask is None else [k for k in sorted(set(mask.ravel().tolist())) if k]
    if len(ids) == 1:
        pos, cen = [pos], [cen]
    for k, p, c in zip(ids, pos, cen):
        m = np.ones(shape, dtype=bool) if mask is None else mask == k
        ext = [int(np.ptp(a)) for a in np.nonzero(m)]
        if len(shape) == 1:
            ensure(np.array_equal(p, np.arange(-ext[0], ext[0] + 1)), "positions")
        else:
            for q in range(2):
                ensure(np.array_equal(p[q], np.arange(-ext[q], ext[q] + 1)), "positions of axis %d: %s", q, p[q])
                ensure(int(c[q]) == ext[q], "center")


@op("outside_pixels", g, 60)
def outside_pixels(i):
    require(i["mask"] is not None)
    mask = A(i["mask"])
    require((mask != 0).any() and (mask == 0).any())
    a, b = A(i["im1"]), A(i["im1"])
    b[mask == 0] = 1e6
    obj = co.CrossCorrelator(tuple(i["shape"]), mask=mask, normalization=i["norm"])
    x, y = obj(a), obj(b)
    x, y = (x, y) if isinstance(x, list) else ([x], [y])
    for u, v in zip(x, y):
        ensure(np.array_equal(u, v, equal_nan=True), "a pixel outside every region changed the result")


@op("shape_rejected", lambda rng: {"k": rng.randint(0, 2)}, 3)
def shape_rejected(i):
    obj = co.CrossCorrelator((4, 5))
    bad = np.ones((4, 4))
    if i["k"] == 0:
        r = raises(ValueError, obj, bad)
    elif i["k"] == 1:
        r = raises(ValueError, obj, np.ones((4, 5)), bad)
    else:
        r = raises(ValueError, co.CrossCorrelator, (2, 2, 2), np.ones((2, 2, 2)))
    ensure(r is True, "shape accepted: %s", r)
