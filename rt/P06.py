"""P06 runtime contracts: 1-D binning and circular averages"""
import numpy as np

from rt.common import A, Frozen, close, ensure, op, require
from skbeam.core import roi, stats, utils


def bins_of(x, edges):
    """index of the bin holding each x (last bin closed), -1 outside; decided by plain comparisons"""
    out = np.full(len(x), -1)
    n = len(edges) - 1
    for k, v in enumerate(x):
        for b in range(n):
            if edges[b] <= v and (v < edges[b + 1] or (b == n - 1 and v == edges[b + 1])):
                out[k] = b
                break
    return out


def g_bin(rng):
    n, nx = rng.randint(1, 25), rng.choice([1, 2, 3, 4, 5, 8, 16])
    lo = rng.dy(-4, 2)
    hi = lo + nx * rng.choice([0.25, 0.5, 1, 2])
    x = [rng.choice([rng.dy(-6, 6), lo, hi, lo + (hi - lo) * rng.randint(0, nx) / nx]) for _ in range(n)]
    return {"n": n, "nx": nx, "x": {"shape": [n], "kind": "f", "data": x}, "y": rng.arr((n,)), "min_x": lo, "max_x": hi}


def _bin(x, y, nx, lo, hi, **kw):
    fz = Frozen(x, y)
    edges, val, cnt = utils.bin_1D(x, y, nx, **kw)
    fz.check()
    ensure(edges.shape == (nx + 1,) and val.shape == (nx,) and cnt.shape == (nx,), "shapes %s %s %s", edges.shape, val.shape, cnt.shape)
    ensure(close(edges, [lo + (hi - lo) * k / nx for k in range(nx + 1)]), "edges %s", edges)
    w = bins_of(x, edges)
    for b in range(nx):
        ensure(cnt[b] == np.sum(w == b), "count of bin %d is %s, not %d", b, cnt[b], np.sum(w == b))
        ensure(abs(val[b] - np.sum(y[w == b])) <= 1e-9 * (1 + np.sum(abs(y))), "sum of bin %d is %s", b, val[b])
    ensure(cnt.sum() == np.sum((x >= edges[0]) & (x <= edges[-1])), "total count")


@op("bin_1D", g_bin, 100)
def bin_1D(i):
    x, y = A(i["x"]), A(i["y"])
    lo, hi, nx = i["min_x"], i["max_x"], i["nx"]
    require(lo < hi and nx >= 1 and x.shape == y.shape and x.size)
    _bin(x, y, nx, lo, hi, min_x=lo, max_x=hi)


@op("bin_1D_default_range", g_bin, 60)
def bin_1D_default_range(i):
    x, y = A(i["x"]), A(i["y"])
    nx = i["nx"]
    require(nx >= 1 and x.shape == y.shape and x.size and x.min() < x.max())
    _bin(x, y, nx, x.min(), x.max())
    d = int(x.max() - x.min())
    if d >= 1:
        e, v, c = utils.bin_1D(x, y)
        ensure(len(c) == d and c.sum() == len(x), "default bin number")
    if x.max() > 0:
        e, v, c = utils.bin_1D(x, y, nx, min_x=min(0, x.min()))
        ensure(c.sum() == len(x) and e[-1] == x.max(), "only min given")


def g_c(rng):
    n = rng.randint(1, 9)
    return {"n": n, "edges": rng.arr((n + 1,))}


@op("bin_edges_to_centers", g_c, 40)
def bin_edges_to_centers(i):
    e = A(i["edges"])
    fz = Frozen(e)
    c = utils.bin_edges_to_centers(e)
    fz.check()
    ensure(close(c, [(e[k] + e[k + 1]) / 2 for k in range(len(e) - 1)]), "centers %s", c)
    ensure(close(utils.bin_edges_to_centers(list(map(int, e))), [(int(e[k]) + int(e[k + 1])) / 2 for k in range(len(e) - 1)]), "integer edges")


def g_circ(rng):
    r, c = rng.randint(1, 12), rng.randint(1, 12)
    i = {"rows": r, "cols": c, "image": rng.arr((r, c)), "nx": rng.randint(1, 12), "min_x": rng.dy(0, 3), "cx": rng.dy(-2, 13), "cy": rng.dy(-2, 13),
         "px": rng.choice([1, 1, 0.5, 2.0, 3]), "py": rng.choice([1, 1, 0.5, 2.0, 0.25]), "threshold": rng.choice([0, 0, 0, 1, 2, 5])}
    i["max_x"] = i["min_x"] + rng.dy(0.25, 12)
    i["mode"] = rng.choice(["explicit", "explicit", "defaultrange", "defaults"])
    if rng.random() < 0.5:
        i["mask"] = rng.arr((r, c), 0, 1, kind="i")
    return i


@op("circular_average", g_circ, 150)
def circular_average(i):
    img = A(i["image"])
    require(img.ndim == 2 and img.size and i["nx"] >= 1 and i["min_x"] < i["max_x"] and i["px"] > 0 and i["py"] > 0)
    mask = A(i["mask"]) if i.get("mask") else None
    cen = (i["cx"], i["cy"])
    ps, nx, lo, hi, th = (i["px"], i["py"]), i["nx"], i["min_x"], i["max_x"], i["threshold"]
    kw = {"pixel_size": ps, "nx": nx, "min_x": lo, "max_x": hi, "threshold": th}
    mode = i.get("mode", "explicit")
    rows, cols = np.indices(img.shape)
    rad = np.sqrt((ps[0] * (rows - cen[0])) ** 2 + (ps[1] * (cols - cen[1])) ** 2)
    if mask is not None:
        kw["mask"] = mask
        keep = mask == 1
    else:
        keep = np.ones(img.shape, bool)
    if not keep.any():
        require(mode == "explicit")
    if mode != "explicit":
        for k in ("min_x", "max_x"):
            del kw[k]
        lo, hi = rad[keep].min(), rad[keep].max()
        if mode == "defaults":
            del kw["nx"], kw["pixel_size"]
            rad = np.sqrt((rows - cen[0]) ** 2 + (cols - cen[1]) ** 2)
            lo, hi = rad[keep].min(), rad[keep].max()
            nx = 100
        require(lo < hi)
    fz = Frozen(img, *([mask] if mask is not None else []))
    x, y = roi.circular_average(img, cen, **kw)
    fz.check()
    edges = np.linspace(lo, hi, nx + 1)
    # pixels closer than rounding to an inner edge may fall on either side
    near = np.zeros(img.shape, bool)
    for e in edges[1:-1] if mode != "explicit" else edges:
        near |= (abs(rad - e) < 1e-9) & keep
    wx, wy, ok = [], [], []
    for b in range(nx):
        s = keep & (edges[b] <= rad) & ((rad < edges[b + 1]) | ((rad <= edges[b + 1]) & (b == nx - 1)))
        amb = near & ((abs(rad - edges[b]) < 1e-9) | (abs(rad - edges[b + 1]) < 1e-9))
        if s.sum() > th:
            wx.append((edges[b] + edges[b + 1]) / 2)
            wy.append(img[s].mean())
            ok.append(not amb.any())
        elif amb.any() and (s | amb).sum() > th:
            require(False)
    if mode == "defaults" and not ok:
        return
    exact = mode == "explicit" and lo * 8 == int(lo * 8) and nx in (1, 2, 4, 8)
    if len(x) != len(wx):
        require(all(ok) and not near.any() or exact)
    ensure(len(x) == len(wx) and len(y) == len(wy), "number of bins %d expected %d", len(x), len(wx))
    ensure(close(x, wx), "centers %s expected %s", x, wx)
    for a, b, k in zip(y, wy, ok):
        if k or exact:
            ensure(abs(a - b) < 1e-8, "average %s expected %s", y, wy)


op("circular_average_mask", g_circ, 0)(circular_average)


def g_stat(rng):
    i = g_bin(rng)
    i["stat"] = rng.choice(["mean", "sum", "count", "max", "min", "median", "std"])
    return i


@op("statistics_1D", g_stat, 100)
def statistics_1D(i):
    x, y = A(i["x"]), A(i["y"])
    lo, hi, nx = i["min_x"], i["max_x"], i["nx"]
    require(lo < hi and nx >= 1 and x.shape == y.shape and x.size)
    stat = i.get("stat", "mean")
    fz = Frozen(x, y)
    edges, val = stats.statistics_1D(x, y, stat, nx, lo, hi)
    fz.check()
    ensure(close(edges, [lo + (hi - lo) * k / nx for k in range(nx + 1)]), "edges %s", edges)
    w = bins_of(x, edges)
    f = {"mean": np.mean, "sum": np.sum, "count": len, "max": np.max, "min": np.min, "median": np.median, "std": np.std}[stat]
    for b in range(nx):
        v = y[w == b]
        if len(v) == 0 and stat not in ("sum", "count"):
            ensure(np.isnan(val[b]), "empty bin gives %s", val[b])
        else:
            ensure(abs(val[b] - f(v)) < 1e-9, "%s of bin %d is %s, not %s", stat, b, val[b], f(v))
    if x.min() < x.max():
        e, v = stats.statistics_1D(x, y, "count", nx)
        ensure(e[0] == x.min() and e[-1] == x.max() and v.sum() == len(x), "default range")
        e, v = stats.statistics_1D(x, y, "sum")
        ensure(len(v) == 100 and abs(v.sum() - y.sum()) < 1e-9, "default bins")


for _s in ("mean", "sum", "count"):
    op("statistics_" + _s, lambda rng, _s=_s: dict(g_bin(rng), stat=_s), 0)(lambda i, _s=_s: statistics_1D(dict(i, stat=_s)))


def g_grid(rng):
    r, c = rng.randint(2, 10), rng.randint(2, 10)
    i = {"image": rng.arr((r, c)), "r": rng.floats((r, c), 0, 10), "px": rng.choice([1, 0.5, 3.0]), "py": rng.choice([1, 0.5, 4.0]),
         "stat": rng.choice(["mean", "sum", "count", "max"])}
    if rng.random() < 0.5:
        i["mask"] = rng.arr((r, c), kind="b")
    if rng.random() < 0.4:
        e = sorted({rng.dy(0, 10) for _ in range(rng.randint(2, 6))} | {1.0, 9.0})
        i["bins"] = list(e)
    return i


@op("bin_grid", g_grid, 100)
def bin_grid(i):
    img, r = A(i["image"]), A(i["r"])
    mask = A(i["mask"]) if i.get("mask") else None
    keep = np.ones(img.shape, bool) if mask is None else mask
    require(keep.any())
    kw = {}
    if i.get("bins"):
        kw["bins"] = A(i["bins"])
    if mask is not None:
        kw["mask"] = mask
    fz = Frozen(img, r, keep)
    x, y = utils.bin_grid(img, r, (i["px"], i["py"]), statistic=i["stat"], **kw)
    fz.check()
    if i.get("bins"):
        edges = A(i["bins"])
        ensure(close(x, (edges[1:] + edges[:-1]) / 2), "centers")
    else:
        res = np.hypot(i["px"], i["py"])
        ensure(len(x) >= 1, "no bins")
        ensure(close(x, r.min() + res * np.arange(len(x))), "centers %s not spaced by the pixel diagonal", x)
        edges = r.min() - res / 2 + res * np.arange(len(x) + 1)
        ensure(edges[-1] >= r.max() - 1e-9, "bins end at %s before the largest radius %s", edges[-1], r.max())
    f = {"mean": np.mean, "sum": np.sum, "count": len, "max": np.max}[i["stat"]]
    amb = np.min(abs(r[keep].ravel()[:, None] - edges[None]), initial=9)
    require(amb > 1e-9 or i.get("bins"))
    w = bins_of(r[keep], edges)
    for b in range(len(x)):
        v = img[keep][w == b]
        if len(v) == 0 and i["stat"] not in ("sum", "count"):
            ensure(np.isnan(y[b]), "empty bin")
        else:
            ensure(abs(y[b] - f(v)) < 1e-9, "%s of bin %d is %s, expected %s", i["stat"], b, y[b], f(v))
