"""P03 runtime contracts: segmented rings"""
import numpy as np

from rt.common import A, Frozen, ensure, op, raises, require
from skbeam.core import roi, utils


def g_seg(rng):
    m = rng.choice([1, 1, 2, 3])
    rows, cols = rng.randint(1, 14), rng.randint(1, 14)
    e = sorted(rng.choice([rng.dy(0, 14), float(rng.randint(0, 10))]) for _ in range(2 * m))
    i = {"m": m, "rows": rows, "cols": cols, "cx": rng.choice([float(rng.randint(-2, 14)), rng.dy(-3, 14)]),
         "cy": rng.choice([float(rng.randint(-2, 14)), rng.dy(-3, 14)]), "edges": {"shape": [2 * m], "kind": "f", "data": e},
         "nseg": rng.choice([1, 2, 3, 4, 5, 8]), "offset": rng.choice([0.0, 0.0, rng.uniform(-6, 6)])}
    if rng.random() < 0.4:
        ns = i["nseg"]
        lo, hi = rng.choice([(0, 6.28), (0.5, 4.0), (1.0, 7.0), (-1.0, 5.0)])
        s = sorted({rng.uniform(lo, hi) for _ in range(ns + 1)})
        i["segments"] = {"shape": [len(s)], "kind": "f", "data": s}
    return i


@op("segmented_rings", g_seg, 300)
def segmented_rings(i):
    e = A(i["edges"])
    rows, cols = i["rows"], i["cols"]
    require(len(e) % 2 == 0 and len(e) and (np.diff(e) >= 0).all() and rows * cols < 1e5)
    off = i.get("offset", 0.0)
    if i.get("segments"):
        seg = A(i["segments"])
        require(len(seg) >= 2 and (np.diff(seg) > 0).all())
        bounds = seg + off
        arg = seg
    else:
        n = i["nseg"]
        require(n >= 1)
        bounds = np.arange(n + 1) * (2 * np.pi / n) + off
        arg = n
    require(abs(bounds[0]) < 2 * np.pi)
    fz = Frozen(e, arg)
    lab = roi.segmented_rings(e, arg, (i["cx"], i["cy"]), (rows, cols), offset_angle=off)
    fz.check()
    ensure(lab.shape == (rows, cols), "shape")
    x, y = np.meshgrid(np.arange(rows), np.arange(cols), indexing="ij")
    dx, dy = x - i["cx"], y - i["cy"]
    d, t = np.hypot(dx, dy), np.arctan2(dx, dy)
    t = np.mod(t - bounds[0], 2 * np.pi) + bounds[0]
    ns = len(bounds) - 1
    amb = np.zeros(lab.shape, bool)
    for v in e:
        amb |= (np.abs(d - v) < 1e-12 * (1 + d)) & (np.round(d) != d)
    for b in list(bounds) + [bounds[0] + 2 * np.pi]:
        amb |= np.abs(t - b) < 1e-9
    if off == 0 and not i.get("segments"):   # axis-aligned directions are exact: 0, pi/2, pi, 3pi/2
        q = np.full(lab.shape, -1)
        q[(dx == 0) & (dy >= 0)] = 0
        q[(dy == 0) & (dx > 0)] = 1
        q[(dx == 0) & (dy < 0)] = 2
        q[(dy == 0) & (dx < 0)] = 3
        ok = (q >= 0) & ((ns % 4 == 0) | ((ns % 2 == 0) & (q % 2 == 0)) | (q == 0))
        t = np.where(ok, q * np.pi / 2 + 1e-7, t)
        amb &= ~ok | (np.abs(d[..., None] - e).min(-1) < 1e-12 * (1 + d)) & (np.round(d) != d)
    ex = np.zeros(lab.shape, int)
    for k in range(len(e) // 2):
        for s in range(ns):
            ex[(e[2 * k] <= d) & (d < e[2 * k + 1]) & (bounds[s] <= t) & (t < bounds[s + 1])] = k * ns + s + 1
    bad = (lab != ex) & ~amb
    ensure(not bad.any(), "pixel %s (r=%s, angle=%s) labelled %s, expected %s", np.argwhere(bad)[:1], d[bad][:1], t[bad][:1], lab[bad][:1], ex[bad][:1])


def g_ang(rng):
    return {"rows": rng.randint(1, 9), "cols": rng.randint(1, 9), "cx": rng.dy(-2, 9), "cy": rng.dy(-2, 9), "px": rng.dy(.25, 3), "py": rng.dy(.25, 3)}


@op("angle_grid", g_ang, 60)
def angle_grid(i):
    require(i["px"] > 0 and i["py"] > 0)
    a = utils.angle_grid((i["cx"], i["cy"]), (i["rows"], i["cols"]), (i["px"], i["py"]))
    x, y = np.meshgrid(np.arange(i["rows"]), np.arange(i["cols"]), indexing="ij")
    ensure(a.shape == (i["rows"], i["cols"]), "shape")
    ensure(np.allclose(a, np.arctan2(i["px"] * (x - i["cx"]), i["py"] * (y - i["cy"]))), "angles differ")


def g_bad(rng):
    k = rng.randint(2, 6)
    return {"edges": {"shape": [k], "kind": "f", "data": [rng.dy(0, 9) for _ in range(k)]}}


@op("segmented_rejects", g_bad, 40)
def segmented_rejects(i):
    e = A(i["edges"])
    require(len(e) % 2 == 1 or (np.diff(e) < 0).any())
    ensure(raises(ValueError, roi.segmented_rings, e, 4, (3, 3), (6, 6)) is True, "invalid edges accepted")
