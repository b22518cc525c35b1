"""P10 runtime contracts: reusable binned statistics"""
import numpy as np

from rt.common import A, Frozen, ensure, eqv, op, raises, require
from skbeam.core.accumulators.binned_statistic import (BinnedStatistic1D, BinnedStatistic2D, BinnedStatisticDD, RadialBinnedStatistic,
                                                       RPhiBinnedStatistic)

STATS = {"mean": np.mean, "sum": np.sum, "count": len, "median": np.median, "std": np.std}
CALL = {"max": np.max, "min": np.min, "range": lambda v: float(np.max(v) - np.min(v)) if len(v) else -7.0}


def listed(x):
    """per-dimension arrays (the 1-D classes return the single array itself)"""
    return [x] if isinstance(x, np.ndarray) and x.ndim == 1 and x.dtype != object else list(x)


def edges_of(pos, b, rng):
    """edges of one dimension as documented"""
    if np.isscalar(b):
        lo, hi = (pos.min(), pos.max()) if rng is None else rng
        if lo == hi:
            lo, hi = lo - .5, hi + .5
        return np.linspace(lo, hi, b + 1)
    return np.asarray(b, float)


def direct(pos, edges, keep, vals, stat):
    """the statistic of the kept values falling in each bin, last bin closed"""
    shape = [len(e) - 1 for e in edges]
    out = np.zeros(shape)
    inside = np.zeros(shape, dtype=bool)
    for cell in np.ndindex(*shape):
        m = keep.copy()
        for p, e, c in zip(pos, edges, cell):
            last = c == len(e) - 2
            m &= (p >= e[c]) & ((p <= e[c + 1]) if last else (p < e[c + 1]))
        v = vals[m]
        inside[cell] = len(v) > 0
        if stat in ("sum", "count", "std"):
            out[cell] = STATS[stat](v) if len(v) else 0
        elif stat in STATS:
            out[cell] = STATS[stat](v) if len(v) else np.nan
        else:
            try:
                out[cell] = CALL[stat](v)
            except Exception:
                out[cell] = np.nan
    return out


def gd(rng):
    d = rng.choice([1, 1, 2, 2, 3])
    n = rng.randint(1, 30)
    kind = rng.choice(["f", "f", "i"])
    pos = [rng.arr((n,), -4, 4, q=rng.choice([1, 4, 64]), kind=kind) for _ in range(d)]
    bins = []
    for _ in range(d):
        if rng.random() < 0.5:
            bins.append(rng.randint(1, 6))
        else:
            e = sorted(set(rng.dy(-5, 5, 4) for _ in range(rng.randint(3, 6))))
            bins.append(e if len(e) > 2 else [-4.0, 0.0, 1.0, 4.0])
    if all(not np.isscalar(b) for b in bins) is False and d > 1 and rng.random() < 0.5:
        bins = [b if np.isscalar(b) else len(b) for b in bins]
    return {"pos": pos, "bins": bins, "range": None if rng.random() < 0.6 else [[rng.dy(-4, 0), rng.dy(1, 5)] for _ in range(d)],
            "mask": rng.choice([None, "int", "bool", "list"]), "maskbits": [rng.random() < 0.7 for _ in range(n)],
            "vals": [rng.arr((n,), -9, 9) if rng.random() < .8 else {"shape": [n], "kind": "f", "data": [.1] * n} for _ in range(rng.randint(1, 2))],
            "stats": [rng.choice(list(STATS) + list(CALL)) for _ in range(3)], "form": rng.choice(["dd", "dd", "cls"]), "eps": rng.choice([0, 0, 1e-9, -1e-9])}


def mk(i, n):
    if i["mask"] is None:
        return None, np.ones(n, dtype=bool)
    k = np.array(i["maskbits"][:n])
    return {"int": k.astype(int), "bool": k.copy(), "list": k.astype(int).tolist()}[i["mask"]], k


def near(pos, edges, exact):
    """some position within rounding of a computed edge without being equal to it"""
    return any((np.abs(p[:, None] - e[None, :]) < 1e-12).any() and not (p[:, None] == e[None, :])[np.abs(p[:, None] - e[None, :]) < 1e-12].all() for p, e in zip(pos, edges))


@op("binned_statistic", gd, 150)
def binned_statistic(i):
    pos = [A(p) for p in i["pos"]]
    d, n = len(pos), len(pos[0])
    if i["eps"] and pos[0].dtype.kind == "f":
        pos[0] = pos[0] + i["eps"]
    mask, keep = mk(i, n)
    bins = i["bins"]
    rg = i["range"]
    edges = [edges_of(p, b, None if rg is None else rg[k]) for k, (p, b) in enumerate(zip(pos, bins))]
    require(not near(pos, edges, True) or i["eps"])
    stat = i["stats"][0]
    st = CALL.get(stat, stat)
    samp = np.column_stack(pos)
    fz = Frozen(samp, *pos, *([mask] if mask is not None else []))
    if i["form"] == "cls" and d == 1:
        b = BinnedStatistic1D(pos[0], statistic=st, bins=bins[0], range=None if rg is None else rg[0], mask=mask)
    elif i["form"] == "cls" and d == 2:
        b = BinnedStatistic2D(pos[0], pos[1], statistic=st, bins=bins, range=rg, mask=mask)
    else:
        b = BinnedStatisticDD(samp, statistic=st, bins=bins, range=rg, mask=mask)
    fz.check("positions or mask")
    for e, f, c in zip(listed(b.bin_edges), edges, listed(b.bin_centers)):
        eqv(e, f, "edges")
        eqv(c, (f[1:] + f[:-1]) / 2, "centers")
    edges = [np.array(e) for e in listed(b.bin_edges)]
    for k, v in enumerate(i["vals"]):
        v = A(v)
        fz = Frozen(v)
        for s in [None] + i["stats"][1:]:
            got = b(v) if s is None else b(v, statistic=CALL.get(s, s))
            fz.check("values")
            eqv(got, direct(pos, edges, keep, v, s or stat), "%s of values %d" % (s or stat, k), 1e-9, 1e-7)
    # bin numbers per position: 0 and n + 1 mark outliers and masked points
    bm = b.binmap
    for k in range(d):
        want = np.digitize(pos[k], edges[k])
        want[pos[k] == edges[k][-1]] -= 1
        ok = keep
        ensure(np.array_equal(bm[k][ok], want[ok]), "binmap of dimension %d: %s expected %s", k, bm[k][ok], want[ok])


def gr(rng):
    r, c = rng.randint(2, 7), rng.randint(2, 7)
    return {"shape": [r, c], "bins": [rng.randint(1, 5), rng.randint(1, 5)], "origin": rng.choice([None, [rng.dy(-1, r), rng.dy(-1, c)]]),
            "range": rng.choice([None, [[rng.dy(0, 1), rng.dy(2, 6)], [rng.dy(-3, 0), rng.dy(1, 3)]]]), "rmap": rng.choice([None, rng.arr((r, c), 0, 9)]),
            "mask": rng.choice([None, "int", "bool"]), "maskbits": [rng.random() < 0.7 for _ in range(r * c)], "vals": rng.arr((r, c)), "stat": rng.choice(list(STATS) + list(CALL))}


@op("radial", gr, 100)
def radial(i):
    shp = tuple(i["shape"])
    org = i["origin"] or [(shp[0] - 1) / 2, (shp[1] - 1) / 2]
    rows, cols = np.indices(shp)
    r = A(i["rmap"]) if i["rmap"] is not None else np.hypot(rows - org[0], cols - org[1])
    phi = np.arctan2(rows - org[0], cols - org[1])
    mask, keep = mk(i, r.size)
    if mask is not None:
        mask = mask.reshape(shp)
    v = A(i["vals"])
    st = CALL.get(i["stat"], i["stat"])
    rg = i["range"]
    kw = {"statistic": st, "mask": mask}
    if i["origin"] is not None:
        kw["origin"] = tuple(i["origin"])
    rm = None if i["rmap"] is None else r.copy()
    fz = Frozen(v, *([] if mask is None else [mask]), *([] if rm is None else [rm]))
    b = RadialBinnedStatistic(shp, bins=i["bins"][0], range=None if rg is None else rg[0], r_map=rm, **kw)
    e = [np.array(x) for x in listed(b.bin_edges)]
    if not near([r.ravel()], e, False):
        eqv(b(v), direct([r.ravel()], e, keep, v.ravel(), i["stat"]), "radial " + i["stat"])
    eqv(e[0], edges_of(r.ravel(), i["bins"][0], None if rg is None else rg[0]), "radial edges")
    b = RPhiBinnedStatistic(shp, bins=i["bins"], range=rg, r_map=rm, **kw)
    e = [np.array(x) for x in listed(b.bin_edges)]
    eqv(e[1], edges_of(phi.ravel(), i["bins"][1], None if rg is None else rg[1]), "angle edges")
    if not near([r.ravel(), phi.ravel()], e, False):
        eqv(b(v), direct([r.ravel(), phi.ravel()], e, keep, v.ravel(), i["stat"]), "polar " + i["stat"])
    fz.check()


@op("rejects", lambda rng: {"r": rng.randint(2, 5), "c": rng.randint(2, 5)}, 6)
def rejects(i):
    shp = (i["r"], i["c"])
    ensure(raises(ValueError, BinnedStatistic1D, np.arange(4.), statistic="nosuch") is True, "unknown statistic accepted")
    for cls in (RadialBinnedStatistic, RPhiBinnedStatistic):
        ensure(raises(ValueError, cls, shp, mask=np.ones((shp[0] + 1, shp[1]))) is True, "mask of another shape accepted")
        ensure(raises(ValueError, cls(shp, bins=2), np.ones((shp[0], shp[1] + 1))) is True, "values of another shape accepted")
