"""P22 runtime contracts: images from radial profiles"""
import math

import numpy as np

from rt.common import A, Frozen, close, ensure, op, raises, require
from skbeam.core import image as M


def lin(x, xs, ys, left, right):
    if x < xs[0]:
        return ys[0] if left is None else left
    if x > xs[-1]:
        return ys[-1] if right is None else right
    for k in range(len(xs) - 1):
        if xs[k] <= x <= xs[k + 1]:
            t = (x - xs[k]) / (xs[k + 1] - xs[k])
            return ys[k] + t * (ys[k + 1] - ys[k])
    return ys[-1]


def g(rng):
    n = rng.randint(1, 8)
    xs = [rng.dy(0, 3)]
    for _ in range(n - 1):
        xs.append(xs[-1] + rng.dy(0.25, 2))
    i = {"radii": xs, "ints": rng.arr((n,))["data"], "px": rng.choice([1, 1, 0.5, 2]), "py": rng.choice([1, 1, 0.5, 3])}
    mode = rng.choice(["both", "dims", "none", "fill"])
    if mode != "none":
        i["dims"] = [rng.randint(1, 10), rng.randint(1, 10)]
    if mode in ("both", "fill"):
        i["center"] = [rng.dy(-2, 10), rng.dy(-2, 10)]
    if mode == "fill":
        i["left"], i["right"] = rng.choice([None, 0, -3.5, 7]), rng.choice([None, 0, 2.5])
    return i


@op("construct_circ_avg_image", g, 150)
def construct_circ_avg_image(i):
    xs, ys = A(i["radii"]), A(i["ints"])
    ps = (i["px"], i["py"])
    kw = {k: i[k] for k in ("left", "right") if k in i}
    if "dims" in i:
        kw["dims"] = tuple(i["dims"])
    if "center" in i:
        kw["center"] = tuple(i["center"])
    fz = Frozen(xs, ys)
    im = M.construct_circ_avg_image(xs, ys, pixel_size=ps, **kw)
    fz.check()
    dims = tuple(i.get("dims") or (2 * int(xs.max() / ps[0] + 0.5) + 1, 2 * int(xs.max() / ps[1] + 0.5) + 1))
    cen = i.get("center") or ((dims[0] - 1) / 2, (dims[1] - 1) / 2)
    ensure(im.shape == dims, "shape %s expected %s", im.shape, dims)
    left, right = i.get("left"), i.get("right", 0)
    for r in range(dims[0]):
        for c in range(dims[1]):
            d = math.hypot(ps[0] * (r - cen[0]), ps[1] * (c - cen[1]))
            if abs(d - xs[0]) < 1e-9 or abs(d - xs[-1]) < 1e-9:
                continue
            w = lin(d, xs, ys, left, right)
            ensure(abs(im[r, c] - w) < 1e-9, "pixel (%d,%d) at distance %s is %s, expected %s", r, c, d, im[r, c], w)
    ensure(raises(ValueError, M.construct_circ_avg_image, xs, ys, center=(1, 1)) is True, "center without dims accepted")


def g2(rng):
    nr, na = rng.randint(2, 6), rng.randint(2, 8)
    xs = [rng.choice([0.0, 0.0, 1.0])]
    for _ in range(nr - 1):
        xs.append(xs[-1] + rng.dy(0.5, 2))
    full = rng.random() < 0.6
    a0 = rng.uniform(-3, 3)
    ang = [a0 + 2 * math.pi * k / na for k in range(na)] if full else sorted(a0 + rng.uniform(0, 6.0) for _ in range(na))
    i = {"radii": xs, "angles": ang, "image": rng.floats((nr, na)), "px": rng.choice([1, 1, 0.5]), "py": rng.choice([1, 1, 2])}
    if rng.random() < 0.7:
        i["shape"] = [rng.randint(1, 9), rng.randint(1, 9)]
        if rng.random() < 0.6:
            i["center"] = [rng.dy(-1, 9), rng.dy(-1, 9)]
    if rng.random() < 0.4:
        i["mask"] = rng.arr((nr, na), 0, 1, kind="i")
    i["int"] = rng.random() < 0.2
    return i


@op("construct_rphi_avg_image", g2, 150)
def construct_rphi_avg_image(i):
    xs, ang, img = A(i["radii"]), A(i["angles"]), A(i["image"])
    if i.get("int"):
        img = np.round(img).astype(int)
    require(np.all(np.diff(ang) > 1e-3) and ang[-1] - ang[0] < 2 * math.pi - 1e-3)
    mask = A(i["mask"]) if i.get("mask") else None
    ps = (i["px"], i["py"])
    kw = {"pixel_size": ps}
    if "shape" in i:
        kw["shape"] = tuple(i["shape"])
    if "center" in i:
        kw["center"] = tuple(i["center"])
    if mask is not None:
        kw["mask"] = mask
    fz = Frozen(xs, ang, img, *([mask] if mask is not None else []))
    out = M.construct_rphi_avg_image(xs, ang, img, **kw)
    fz.check()
    shape = tuple(i.get("shape") or (2 * int(xs.max() / ps[0] + 0.5) + 1, 2 * int(xs.max() / ps[1] + 0.5) + 1))
    cen = i.get("center") or ((shape[0] - 1) / 2, (shape[1] - 1) / 2)
    ensure(out.shape == shape, "shape %s expected %s", out.shape, shape)
    v = img.astype(float)
    if mask is not None:
        v = np.where(mask == 0, np.nan, v)
    na = len(ang)
    for r in range(shape[0]):
        for c in range(shape[1]):
            y, x = ps[0] * (r - cen[0]), ps[1] * (c - cen[1])
            d = math.hypot(x, y)
            if min(abs(d - q) for q in (xs[0], xs[-1])) < 1e-9 and d > 0:
                continue
            if d > xs[-1] or d < xs[0]:
                ensure(np.isnan(out[r, c]), "pixel (%d,%d) outside the radii is %s", r, c, out[r, c])
                continue
            phi = (math.atan2(y, x) - ang[0]) % (2 * math.pi)
            rel = ang - ang[0]
            k = max(q for q in range(na) if rel[q] <= phi + 1e-12)
            nxt = (k + 1) % na
            w = rel[k + 1] - rel[k] if k + 1 < na else 2 * math.pi - rel[k]
            t = (phi - rel[k]) / w
            j = max(q for q in range(len(xs) - 1) if xs[q] <= d + 1e-12)
            s = (d - xs[j]) / (xs[j + 1] - xs[j])
            cs = v[j, k], v[j, nxt], v[j + 1, k], v[j + 1, nxt]
            near = min(abs(t), abs(1 - t), abs(s), abs(1 - s)) < 1e-9
            want = (1 - s) * ((1 - t) * cs[0] + t * cs[1]) + s * ((1 - t) * cs[2] + t * cs[3])
            if np.isnan(cs).any():
                if not near:
                    ensure(np.isnan(out[r, c]), "pixel (%d,%d) next to a masked sample is %s", r, c, out[r, c])
            elif not near or not np.isnan(v).any():
                ensure(abs(out[r, c] - want) < 1e-7, "pixel (%d,%d) is %s, expected %s", r, c, out[r, c], want)


@op("rphi_rejects", g2, 20)
def rphi_rejects(i):
    xs, img = A(i["radii"]), A(i["image"])
    na = img.shape[1]
    require(na >= 3)
    ang = np.linspace(0, 2 * np.pi + 0.5, na)
    ensure(raises(ValueError, M.construct_rphi_avg_image, xs, ang, img) is True, "angles beyond 2 pi accepted")
    ang = np.linspace(0, 3, na)
    ensure(raises(ValueError, M.construct_rphi_avg_image, xs, ang, img, center=(1, 1)) is True, "center without shape accepted")
    ensure(raises(ValueError, M.construct_rphi_avg_image, xs, ang, img, mask=np.ones((na + 1, 1)), shape=(4, 4)) is True, "mask of another shape accepted")
