"""P20 runtime contracts: dark subtraction, relative coordinates"""
import numpy as np

from rt.common import A, Frozen, close, ensure, op, raises, require
from skbeam.core import utils


def g(rng):
    n, r, c = rng.randint(1, 10), rng.randint(1, 4), rng.randint(1, 4)
    fl = [rng.random() < 0.35 for _ in range(n)]
    if rng.random() < 0.9:
        fl[0] = True
    return {"imgs": rng.arr((n, r, c)), "flags": fl, "as_list": rng.random() < 0.3, "int": rng.random() < 0.3}


@op("subtract_reference_images", g, 120)
def subtract_reference_images(i):
    imgs, fl = A(i["imgs"]), i["flags"]
    require(imgs.ndim == 3 and len(fl) == len(imgs))
    if i.get("int"):
        imgs, fl = imgs.astype(int), [int(f) for f in fl]
    src = list(imgs) if i.get("as_list") else imgs
    if not fl[0]:
        ensure(raises(ValueError, utils.subtract_reference_images, src, fl) is True, "first frame without reference accepted")
        return
    fz = Frozen(imgs)
    out = utils.subtract_reference_images(src, np.array(fl) if not i.get("as_list") else fl)
    fz.check()
    want, ref = [], None
    for im, f in zip(imgs, fl):
        if f:
            ref = im
        else:
            want.append(im - ref)
    ensure(len(out) == len(want), "%d frames, expected %d", len(out), len(want))
    for a, b in zip(out, want):
        ensure(np.array_equal(a, b), "frame %s expected %s", a, b)


def gi(rng):
    r = rng.randint(1, 7)
    return {"rows": r, "img": rng.arr((r, r)), "cx": rng.dy(-3, 9), "cy": rng.dy(-3, 9), "px": rng.dy(0.125, 4), "py": rng.dy(0.125, 4)}


def _check(i, *ps):
    img = A(i["img"])
    require(img.ndim == 2)
    fz = Frozen(img)
    x, y, v = utils.img_to_relative_xyi(img, i["cx"], i["cy"], *ps)
    fz.check()
    px, py = ps or (1, 1)
    rows, cols = np.indices(img.shape)
    ensure(close(v, img.ravel()), "intensities")
    ensure(close(x, (px * (cols - i["cx"])).ravel()), "x %s", x)
    ensure(close(y, (py * (rows - i["cy"])).ravel()), "y %s", y)


@op("img_to_relative_xyi", gi, 60)
def img_to_relative_xyi(i):
    require(i["px"] > 0 and i["py"] > 0 and A(i["img"]).shape[0] == A(i["img"]).shape[1])
    _check(i, i["px"], i["py"])


@op("img_to_relative_xyi_default", gi, 30)
def img_to_relative_xyi_default(i):
    require(A(i["img"]).shape[0] == A(i["img"]).shape[1])
    _check(i)


def gn(rng):
    i = gi(rng)
    i["img"] = rng.arr((rng.randint(1, 3), rng.randint(4, 6)))
    return i


@op("img_to_relative_xyi_nonsquare", gn, 5)
def img_to_relative_xyi_nonsquare(i):
    img = A(i["img"])
    require(img.shape[0] != img.shape[1])
    x, y, v = utils.img_to_relative_xyi(img, i["cx"], i["cy"], i["px"], i["py"])
    ensure(close(v, img.ravel()), "intensities")
    # the recorded finding: coordinates are laid out for the transposed shape
    a, b = np.indices(img.shape[::-1])
    if close(x, (i["px"] * (b - i["cx"])).ravel()) and close(y, (i["py"] * (a - i["cy"])).ravel()):
        ensure(False, "coordinates are those of the transposed shape: a non-square image gets x over shape[0] paired with row-major intensities")
    _check(i, i["px"], i["py"])


def gr(rng):
    i = gi(rng)
    i["px"], i["py"] = rng.choice([0, -1, 1, None]), rng.choice([0, -2, 1, None])
    return i


@op("img_to_relative_xyi_rejects", gr, 60)
def img_to_relative_xyi_rejects(i):
    px, py = i["px"], i["py"]
    bad = (px is None) != (py is None) or (px is not None and px <= 0) or (py is not None and py <= 0)
    if bad:
        ensure(raises(ValueError, utils.img_to_relative_xyi, A(i["img"]), 0, 0, px, py) is True, "pixel sizes %s %s accepted", px, py)


def ga(rng):
    r, c = rng.randint(1, 8), rng.randint(1, 8)
    return {"rows": r, "cols": c, "cx": rng.dy(-2, 9), "cy": rng.dy(-2, 9), "px": rng.choice([1, 0.5, 2]), "py": rng.choice([1, 3, 0.25])}


@op("grids", ga, 60)
def grids(i):
    shp, cen, ps = (i["rows"], i["cols"]), (i["cx"], i["cy"]), (i["px"], i["py"])
    rows, cols = np.indices(shp)
    u, v = ps[0] * (rows - cen[0]), ps[1] * (cols - cen[1])
    ensure(close(utils.radial_grid(cen, shp, ps), np.sqrt(u * u + v * v)), "radial_grid")
    ensure(close(utils.angle_grid(cen, shp, ps), np.arctan2(u, v)), "angle_grid")
    u, v = rows - cen[0], cols - cen[1]
    ensure(close(utils.radial_grid(cen, shp), np.sqrt(u * u + v * v)), "radial_grid default")
    ensure(close(utils.angle_grid(cen, shp), np.arctan2(u, v)), "angle_grid default")
