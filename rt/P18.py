"""P18 runtime contracts: masks"""
import numpy as np

from rt.common import A, Frozen, ensure, op, require
from skbeam.core import mask as M


def g_bad(rng):
    n, r, c = rng.randint(0, 8), rng.randint(1, 4), rng.randint(1, 4)
    return {"imgs": rng.arr((n, r, c)), "bad": sorted({rng.randint(0, 8) for _ in range(rng.randint(0, 5))}), "how": rng.choice(["list", "set", "array", "gen"]), "int": rng.random() < 0.4}


@op("bad_to_nan_gen", g_bad, 80)
def bad_to_nan_gen(i):
    imgs = A(i["imgs"])
    if i["int"]:
        imgs = imgs.astype(int)
    bad = {"list": list, "set": set, "array": np.array, "gen": tuple}[i["how"]](i["bad"])
    fz = Frozen(imgs)
    out = [np.array(x, copy=True) for x in M.bad_to_nan_gen(iter(imgs) if i["how"] == "gen" else imgs, bad)]
    fz.check()
    ensure(len(out) == len(imgs), "%d frames from %d", len(out), len(imgs))
    for n, (a, b) in enumerate(zip(out, imgs)):
        ensure(a.shape == b.shape, "shape of frame %d", n)
        if n in i["bad"]:
            ensure(np.isnan(a).all(), "bad frame %d not NaN", n)
        else:
            ensure(np.array_equal(a, b), "good frame %d changed", n)


def g_thr(rng):
    n, r, c = rng.randint(1, 7), rng.randint(1, 5), rng.randint(1, 5)
    i = {"imgs": rng.arr((n, r, c)), "thr": rng.dy(-4, 5), "int": rng.random() < 0.3}
    if rng.random() < 0.25:      # frames of different integer types
        i["dtypes"] = [rng.choice(["uint8", "uint16", "int64", "int32"]) for _ in range(n)]
        i["imgs"] = rng.arr((n, r, c), 0, 600, kind="i")
        i["thr"] = rng.randint(1, 500)
    if rng.random() < 0.5:
        i["mask"] = rng.arr((r, c), 0, 1, kind="i")
    return i


@op("threshold", g_thr, 100)
def threshold(i):
    imgs = A(i["imgs"])
    if i["int"]:
        imgs = imgs.astype(int)
    if i.get("dtypes"):
        imgs = [(f % 256).astype(t) if t == "uint8" else f.astype(t) for f, t in zip(imgs, i["dtypes"])]
    m0 = A(i["mask"]) if i.get("mask") else None
    cur = np.ones(imgs[0].shape) if m0 is None else m0.copy()
    fz = Frozen(imgs)
    k = -1
    for k, m in enumerate(M.threshold(imgs, i["thr"], *([] if m0 is None else [m0]))):
        cur = np.where(imgs[k] >= i["thr"], 0, cur)
        ensure(m.shape == cur.shape and np.array_equal(np.asarray(m), cur), "mask after frame %d: %s expected %s", k, m, cur)
    fz.check()
    ensure(k == len(imgs) - 1, "%d masks for %d frames", k + 1, len(imgs))


def g_mar(rng):
    return {"rows": rng.randint(1, 9), "cols": rng.randint(1, 9), "edge": rng.choice([0, 1, 2, 3, 5, 9, 10])}


@op("margin", g_mar, 120)
def margin(i):
    r, c, e = i["rows"], i["cols"], i["edge"]
    require(r >= 1 and c >= 1 and e >= 0)
    m = M.margin((r, c), e)
    a, b = np.indices((r, c))
    want = (a >= e) & (b >= e) & (a < r - e) & (b < c - e)
    ensure(m.shape == (r, c) and np.array_equal(m.astype(bool), want), "margin %s of shape %s: %s", e, (r, c), m)


def g_out(rng):
    r, c = rng.randint(2, 7), rng.randint(2, 7)
    nb = rng.randint(1, 4)
    e = [0.0]
    for _ in range(nb):
        e.append(e[-1] + rng.dy(0.5, 3))
    rad = [rng.choice([rng.choice(e), rng.uniform(0, e[-1])]) for _ in range(r * c)]
    i = {"img": rng.floats((r, c), 0, 10), "r": {"shape": [r, c], "kind": "f", "data": rad}, "bins": e,
         "alpha": rng.choice([0.5, 1, 2.0, 3, [0.5, 2.0], [3.0, 1.0]]), "flat": rng.random() < 0.3}
    if rng.random() < 0.6:
        i["mask"] = rng.arr((r, c), kind="b")
    return i


@op("binned_outlier", g_out, 150)
def binned_outlier(i):
    img, r, bins = A(i["img"]), A(i["r"]), A(i["bins"])
    mask = A(i["mask"]) if i.get("mask") else None
    keep = np.ones(img.shape, bool) if mask is None else (mask != 0).reshape(img.shape)
    require(keep.any())
    alpha = tuple(i["alpha"]) if isinstance(i["alpha"], list) else i["alpha"]
    arg = None if mask is None else (mask.ravel() if i.get("flat") else mask)
    fz = Frozen(img, r, bins, *([] if mask is None else [mask]))
    out = M.binned_outlier(img, r, alpha, bins, *([] if arg is None else [arg]))
    fz.check()
    ensure(out.shape == img.shape and out.dtype == bool, "result %s %s", out.shape, out.dtype)
    nb = len(bins) - 1
    al = np.linspace(alpha[0], alpha[1], nb) if isinstance(alpha, tuple) else np.full(nb, alpha)
    for b in range(nb):
        s = (bins[b] <= r) & ((r < bins[b + 1]) | ((b == nb - 1) & (r == bins[b + 1])))
        v = img[s & keep]
        if len(v) == 0:
            ensure(not out[s].any(), "pixels kept in a bin without unmasked pixels")
            continue
        m, t = v.mean(), al[b] * v.std()
        for p in np.argwhere(s):
            p = tuple(p)
            d = abs(img[p] - m)
            if not keep[p]:
                ensure(not out[p], "masked pixel %s kept", p)
            elif d < t - 1e-9:
                ensure(out[p], "pixel %s within %s sigma of bin %d rejected", p, al[b], b)
            elif d > t + 1e-9:
                ensure(not out[p], "pixel %s beyond %s sigma of bin %d kept", p, al[b], b)


def g_exact(rng):
    k, h = rng.randint(1, 4), rng.randint(1, 3)
    d = [float(h - 1)] * k + [float(h + 1)] * k
    rng.shuffle(d)
    return {"img": {"shape": [1, 2 * k], "kind": "f", "data": d}}


@op("binned_outlier_boundary", g_exact, 20)
def binned_outlier_boundary(i):
    """exact arithmetic: every pixel lies exactly one standard deviation from the mean"""
    img = A(i["img"])
    r = np.full(img.shape, 0.5)
    ensure(not M.binned_outlier(img, r, 1.0, np.array([0.0, 1.0])).any(), "pixel exactly on the threshold kept")
    ensure(M.binned_outlier(img, r, 1.5, np.array([0.0, 1.0])).all(), "pixel within the threshold rejected")
