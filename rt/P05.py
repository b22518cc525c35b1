"""P05 runtime contracts: ROI extraction and statistics"""
import numpy as np

from rt.common import A, Frozen, ensure, op, raises, require
from skbeam.core import roi


def g_lab(rng, r, c, hi=4, lo=0):
    return rng.arr((r, c), lo, hi, kind="i")


def g_ext(rng):
    r, c = rng.randint(1, 9), rng.randint(1, 9)
    return {"rows": r, "cols": c, "labels": g_lab(rng, r, c, rng.choice([0, 1, 4]), rng.choice([0, 0, -2]))}


@op("extract_label_indices", g_ext, 100)
def extract_label_indices(i):
    lab = A(i["labels"])
    require(lab.ndim == 2)
    fz = Frozen(lab)
    m, pix = roi.extract_label_indices(lab)
    fz.check()
    want = [(int(v), k) for k, v in enumerate(lab.ravel()) if v > 0]
    ensure([int(x) for x in m] == [w[0] for w in want], "labels %s", m)
    ensure([int(x) for x in pix] == [w[1] for w in want], "pixels %s", pix)


def g_pix(rng):
    r, c = rng.randint(1, 8), rng.randint(1, 8)
    i = {"rows": r, "cols": c, "labels": g_lab(rng, r, c), "image": rng.arr((r, c), -9, 9)}
    if rng.random() < 0.5:
        m = rng.randint(1, 4)
        i["index"] = {"shape": [m], "kind": "i", "data": [rng.randint(0, 5) for _ in range(m)]}
    return i


@op("roi_pixel_values", g_pix, 120)
def roi_pixel_values(i):
    lab, img = A(i["labels"]), A(i["image"])
    require(lab.shape == img.shape)
    idx = A(i["index"]) if i.get("index") else None
    fz = Frozen(lab, img)
    vals, index = roi.roi_pixel_values(img, lab, idx)
    fz.check()
    want = list(range(1, lab.max() + 1)) if idx is None else idx.tolist()
    ensure([int(x) for x in index] == want, "index %s expected %s", index, want)
    ensure(len(vals) == len(want), "length")
    for n, v in zip(want, vals):
        ensure(np.array_equal(v, img[lab == n]), "values of label %s", n)


op("roi_pixel_values_index", g_pix, 0)(roi_pixel_values)


def g_shape(rng):
    return {"rows": rng.randint(1, 4), "cols": rng.randint(1, 4), "rows2": rng.randint(1, 4), "cols2": rng.randint(1, 4)}


@op("roi_pixel_values_shape", g_shape, 40)
def roi_pixel_values_shape(i):
    a, b = (i["rows"], i["cols"]), (i["rows2"], i["cols2"])
    require(a != b)
    ensure(raises(ValueError, roi.roi_pixel_values, np.zeros(a), np.ones(b, int)) is True, "roi_pixel_values accepted shapes %s %s", a, b)
    ensure(raises(ValueError, roi.mean_intensity, np.zeros((2,) + a), np.ones(b, int)) is True, "mean_intensity accepted shapes %s %s", a, b)


def g_mean(rng):
    n, r, c = rng.randint(1, 4), rng.randint(1, 7), rng.randint(1, 7)
    lab = g_lab(rng, r, c, rng.choice([1, 3, 6]), rng.choice([0, 0, 0, 1]))
    i = {"frames": n, "rows": r, "cols": c, "labels": lab, "images": rng.arr((n, r, c), -9, 9)}
    pos = sorted(set(lab["data"]))
    if rng.random() < 0.6:
        m = rng.randint(1, 4)
        i["index"] = {"shape": [m], "kind": "i", "data": [rng.choice(pos) for _ in range(m)]}
        i["scalar"] = m == 1 and rng.random() < 0.5
    return i


@op("mean_intensity", g_mean, 150)
def mean_intensity(i):
    lab, img = A(i["labels"]), A(i["images"])
    require(img.shape[1:] == lab.shape and (lab > 0).any())
    idx = A(i["index"]) if i.get("index") else None
    if idx is not None:
        require(all((lab == k).any() for k in idx))
    arg = None if idx is None else (int(idx[0]) if i.get("scalar") else idx.tolist())
    fz = Frozen(lab, img)
    mi, index = roi.mean_intensity(img, lab) if arg is None else roi.mean_intensity(img, lab, index=arg)
    fz.check()
    want = [k for k in sorted(set(lab.ravel().tolist())) if k != 0] if idx is None else idx.tolist()
    ensure([int(k) for k in index] == want, "index %s expected %s", index, want)
    ensure(mi.shape == (len(img), len(want)), "shape %s", mi.shape)
    for f in range(len(img)):
        for k, n in enumerate(want):
            e = img[f][lab == n].mean()
            ensure(abs(mi[f, k] - e) <= 1e-9 * (1 + abs(e)), "mean of label %s frame %s is %s, expected %s", n, f, mi[f, k], e)


def g_kymo(rng):
    n, r, c = rng.randint(1, 5), rng.randint(1, 6), rng.randint(1, 6)
    lab = g_lab(rng, r, c)
    return {"frames": n, "rows": r, "cols": c, "labels": lab, "images": rng.arr((n, r, c), -9, 9), "num": rng.randint(1, 4)}


@op("kymograph", g_kymo, 80)
def kymograph(i):
    lab, img, num = A(i["labels"]), A(i["images"]), i["num"]
    require((lab == num).any() and img.shape[1:] == lab.shape)
    fz = Frozen(lab, img)
    k = roi.kymograph(img, lab, num)
    fz.check()
    ex = np.array([f[lab == num] for f in img])
    ensure(k.shape == ex.shape and np.array_equal(k, ex), "kymograph differs")


def g_max(rng):
    i = g_kymo(rng)
    i["sets"] = rng.randint(1, 3)
    return i


@op("roi_max_counts", g_max, 80)
def roi_max_counts(i):
    lab, img = A(i["labels"]), A(i["images"])
    require((lab > 0).any() and img.shape[1:] == lab.shape)
    s = i.get("sets", 1)
    parts = [img[k::s] for k in range(s)]
    m = roi.roi_max_counts(parts, lab)
    ex = max(0, img[:, lab > 0].max())
    ensure(m == ex, "max counts %s expected %s", m, ex)
