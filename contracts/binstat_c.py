"""Contracts: reusable binned statistics (skbeam/core/accumulators/binned_statistic.py)."""
import z3

from pyvc.arr import zi
from pyvc.core import SV, Unsupported, zand, zimp, znot, zor
from pyvc.npshim import np as N
from pyvc.verify import contract

B = "skbeam.core.accumulators.binned_statistic"


def inbin(x, e, b, n):
    """x lies in bin b of the n bins with edges e: half-open, the last one closed on the right"""
    return zand(e(b) <= x, zor(x < e(b + 1), zand(b == n - 1, x == e(b + 1))))


def _stat(stat, mode, masked):
    def c(V):
        m, nb = V.int("m", 1), V.int("nb", 1)
        x, v = V.arr("x", (m,), "f"), V.arr("values", (m,), "f")
        mask = V.arr("mask", (m,), "i") if masked else None
        mod = V.module()
        if mode == "edges":
            V.assume(nb >= 2)
            ed = V.arr("edges", (nb + 1,), "f")
            V.sorted(ed, nb + 1, strict=True)
            kw = {"bins": ed}
            edge = lambda b: ed.at(b)  # noqa
        else:
            lo, hi = V.real("lo"), V.real("hi")
            V.assume(lo < hi)
            kw = {"bins": nb, "range": (lo, hi)}
            edge = lambda b: lo + (hi - lo) / nb * b  # noqa

        def call():
            s = mod.BinnedStatistic1D(x, statistic=stat, mask=mask, **kw)
            return s(v), s
        for p in V.paths(call):
            if not p.returned():
                continue
            V.frame(p)
            r, s = p.ret
            p.ensure("shape", zand(len(r.shape) == 1, zi(r.shape[0]) == nb.t))
            b = V.index(nb)

            def mine(i):
                return zand(inbin(x.at(i), edge, b, nb), *([mask.at(i) != 0] if masked else []))
            cnt = V.sum((m,), lambda i: V.ite(mine(i), 1, 0), "i")
            tot = V.sum((m,), lambda i: V.ite(mine(i), v.at(i), 0.0))
            got = r.at(b)
            if stat == "count":
                p.ensure("count", got == cnt)
            elif stat == "sum":
                p.ensure("sum", got == tot)
            elif stat == "mean":
                p.ensure("mean", zimp(cnt > 0, zand(V.notnan(got), SV("f", got.t) * cnt == tot)))
                p.ensure("empty", zimp(cnt == 0, V.nan(got)))
            elif stat == "std":
                sq = V.sum((m,), lambda i: V.ite(mine(i), v.at(i) * v.at(i), 0.0))
                var = sq / cnt - (tot / cnt) * (tot / cnt)
                p.ensure("std", zimp(cnt > 0, zand(got >= 0, got * got == V.ite(var > 0, var, 0.0))))
                p.ensure("empty", zimp(cnt == 0, got == 0))
    c.__name__ = "stat1d_%s_%s%s" % (stat, mode, "_masked" if masked else "")
    return c


for _s in ("count", "sum", "mean", "std"):
    for _m in ("range", "edges"):
        for _k in (False, True):
            contract("P10", B + ":BinnedStatisticDD.__call__", hard=True)(_stat(_s, _m, _k))


@contract("P10", B + ":BinnedStatisticDD.__init__")
def default_range(V):
    """without a range the bins span the data; a single position gets one unit around it"""
    m, nb = V.int("m", 1), V.int("nb", 1)
    x = V.arr("x", (m,), "f")
    mod = V.module()
    for p in V.paths(lambda: mod.BinnedStatistic1D(x, bins=nb)):
        if not p.returned():
            continue
        V.frame(p)
        e = p.ret.bin_edges
        c = p.ret.bin_centers
        i, j, k = V.index(m), V.index(m), V.index(nb)
        p.ensure("edge-count", zand(zi(e.shape[0]) == nb.t + 1, zi(c.shape[0]) == nb.t))
        p.ensure("spans-the-data", zand(e.at(0) <= x.at(i), x.at(i) <= e.at(nb)))
        same = V.forall((m, m), lambda a, b: x.at(a) == x.at(b))
        p.ensure("no-wider", zimp(znot(same), zand(V.exists((m,), lambda a: x.at(a) == e.at(0)), V.exists((m,), lambda a: x.at(a) == e.at(nb)))))
        p.ensure("single-position", zimp(same, zand(e.at(0) == x.at(i) - 0.5, e.at(nb) == x.at(i) + 0.5)))
        p.ensure("evenly-spaced", (e.at(k + 1) - e.at(k)) * nb == e.at(nb) - e.at(0))
        p.ensure("centers", c.at(k) * 2 == e.at(k) + e.at(k + 1))


@contract("P10", B + ":BinnedStatisticDD.binmap")
def binmap(V):
    m, nb = V.int("m", 1), V.int("nb", 2)
    x = V.arr("x", (m,), "f")
    ed = V.arr("edges", (nb + 1,), "f")
    V.sorted(ed, nb + 1, strict=True)
    mod = V.module()
    for p in V.paths(lambda: mod.BinnedStatistic1D(x, bins=ed).binmap):
        if not p.returned():
            continue
        V.frame(p)
        b, i = V.index(nb), V.index(m)
        r = p.ret
        p.ensure("shape", zand(zi(r.shape[0]) == 1, zi(r.shape[1]) == m.t))
        p.ensure("bin-number", zimp(inbin(x.at(i), lambda k: ed.at(k), b, nb), r.at(0, i) == b + 1))
        p.ensure("below", zimp(x.at(i) < ed.at(0), r.at(0, i) == 0))
        p.ensure("above", zimp(x.at(i) > ed.at(nb), r.at(0, i) == nb + 1))


@contract("P10", B + ":BinnedStatisticDD.statistic")
def rejects_statistic(V):
    m = V.int("m", 1)
    x = V.arr("x", (m,), "f")
    mod = V.module()
    for p in V.paths(lambda: mod.BinnedStatistic1D(x, statistic="variance", bins=3, range=(0.0, 1.0))):
        p.raises(ValueError, "unknown-statistic")


def _stat2(stat, masked, order):
    def c(V):
        m = V.int("m", 1)
        nb = [V.int("nb0", 1), V.int("nb1", 1)]
        if order == "eq":
            nb[1] = nb[0]
        else:
            V.assume(nb[0] < nb[1] if order == "lt" else nb[0] > nb[1])
        x = [V.arr("x", (m,), "f"), V.arr("y", (m,), "f")]
        v = V.arr("values", (m,), "f")
        mask = V.arr("mask", (m,), "i") if masked else None
        mod = V.module()
        lo, hi = [V.real("lo0"), V.real("lo1")], [V.real("hi0"), V.real("hi1")]
        V.assume(zand(lo[0] < hi[0], lo[1] < hi[1]))
        kw = {"bins": (nb[0], nb[1]), "range": ((lo[0], hi[0]), (lo[1], hi[1]))}

        def call():
            s = mod.BinnedStatistic2D(x[0], x[1], statistic=stat, mask=mask, **kw)
            return s(v), s
        for p in V.paths(call):
            if not p.returned():
                continue
            V.frame(p)
            r, s = p.ret
            p.ensure("shape", zand(len(r.shape) == 2, zi(r.shape[0]) == nb[0].t, zi(r.shape[1]) == nb[1].t))
            b = [V.index(nb[0]), V.index(nb[1])]

            def mine(i):
                return zand(*[inbin(x[k].at(i), lambda q, k=k: lo[k] + (hi[k] - lo[k]) / nb[k] * q, b[k], nb[k]) for k in range(2)],
                            *([mask.at(i) != 0] if masked else []))
            cnt = V.sum((m,), lambda i: V.ite(mine(i), 1, 0), "i")
            tot = V.sum((m,), lambda i: V.ite(mine(i), v.at(i), 0.0))
            got = r.at(*b)
            if stat == "count":
                p.ensure("count", got == cnt)
            elif stat == "sum":
                p.ensure("sum", got == tot)
            elif stat == "mean":
                p.ensure("mean", zimp(cnt > 0, zand(V.notnan(got), SV("f", got.t) * cnt == tot)))
                p.ensure("empty", zimp(cnt == 0, V.nan(got)))
    c.__name__ = "stat2d_%s_%s%s" % (stat, order, "_masked" if masked else "")
    return c


for _s, _o in (("count", "lt"), ("count", "gt"), ("count", "eq"), ("sum", "lt"), ("sum", "eq")):
    contract("P10", B + ":BinnedStatisticDD.__call__", hard=True)(_stat2(_s, False, _o))


# ------------------------------------------------------------ image front ends
def _front(cls, ndim):
    """the image classes hand row-major positions, the mask and the values of every pixel to the general class"""
    def c(V):
        r, cc = V.int("rows", 1), V.int("cols", 1)
        img, mask = V.arr("img", (r, cc), "f"), V.arr("mask", (r, cc), "i")
        cy, cx = V.real("cy"), V.real("cx")
        mod = V.module()
        log = {}

        def base_init(self, sample, statistic="mean", bins=10, range=None, mask=None):
            log.update(sample=sample, statistic=statistic, bins=bins, range=range, mask=mask)

        def base_call(self, values, statistic=None):
            log.update(values=values, stat=statistic)
            return "result"
        mod.BinnedStatisticDD.__init__ = base_init
        mod.BinnedStatisticDD.__call__ = base_call
        K = getattr(mod, cls)
        rng = (0.0, 5.0) if ndim == 1 else ((0.0, 5.0), (0.0, 3.0))

        def call():
            s = K((r, cc), bins=7 if ndim == 1 else (7, 8), range=rng, origin=(cy, cx), mask=mask, statistic="sum")
            return s(img, "count")
        for p in V.paths(call):
            if not p.returned():
                continue
            V.frame(p)
            p.ensure("returns-the-statistic", p.ret == "result")
            p.ensure("options", log["statistic"] == "sum" and log["stat"] == "count" and len(log["sample"]) == ndim)
            p.ensure("range", list(log["range"]) == ([rng] if ndim == 1 else list(rng)))
            p.ensure("bins", (log["bins"] == 7 or list(log["bins"]) == [7]) if ndim == 1 else list(log["bins"]) == [7, 8])
            i, j = V.index(r), V.index(cc)
            k = i * cc + j
            d2 = (i - cy) * (i - cy) + (j - cx) * (j - cx)
            rad = N.asarray(log["sample"][0])
            for nm, a in (("positions", rad), ("mask", N.asarray(log["mask"])), ("values", N.asarray(log["values"]))):
                p.ensure("one-per-pixel-" + nm, zand(len(a.shape) == 1, zi(a.shape[0]) == zi(r * cc)))
            p.ensure("radius-row-major", zand(rad.at(k) >= 0, rad.at(k) * rad.at(k) == d2))
            p.ensure("mask-row-major", N.asarray(log["mask"]).at(k) == mask.at(i, j))
            p.ensure("values-row-major", N.asarray(log["values"]).at(k) == img.at(i, j))
            if ndim == 2:
                ang = N.asarray(log["sample"][1])
                p.ensure("angle-row-major", ang.at(k) == N.arctan2(i - cy, j - cx))
    c.__name__ = "front_" + cls
    return c


contract("P10", B + ":RadialBinnedStatistic.__call__")(_front("RadialBinnedStatistic", 1))
contract("P10", B + ":RPhiBinnedStatistic.__call__")(_front("RPhiBinnedStatistic", 2))


def _front_rejects(cls):
    def c(V):
        r, cc, r2, c2 = V.int("rows", 1), V.int("cols", 1), V.int("rows2", 1), V.int("cols2", 1)
        V.assume(zor(r != r2, cc != c2))
        mod = V.module()
        mod.BinnedStatisticDD.__init__ = lambda self, *a, **k: None
        mod.BinnedStatisticDD.__call__ = lambda self, *a, **k: None
        K = getattr(mod, cls)
        other = V.arr("other", (r2, c2), "f")
        for p in V.paths(lambda: K((r, cc), mask=other)):
            p.raises(ValueError, "mask-shape")
        for p in V.paths(lambda: K((r, cc))(other)):
            p.raises(ValueError, "values-shape")
    c.__name__ = "rejects_" + cls
    return c


contract("P10", B + ":RadialBinnedStatistic.__call__")(_front_rejects("RadialBinnedStatistic"))
contract("P10", B + ":RPhiBinnedStatistic.__call__")(_front_rejects("RPhiBinnedStatistic"))
