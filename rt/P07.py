"""P07 runtime contracts: bin_edges"""
import numpy as np

from rt.common import close, ensure, op, raises, require
from skbeam.core import utils


def g(rng):
    f = rng.choice([lambda a, b: rng.dy(a, b), lambda a, b: rng.uniform(a, b)])
    lo = f(-50, 50) * rng.choice([1, 1, 1e-3, 1e4])
    return {"range_min": lo, "range_max": lo + f(0.125, 30), "nbins": rng.choice([1, 2, 3, rng.randint(1, 60)]), "step": f(0.125, 8)}


@op("edges_min_max_n", g, 60)
def edges_min_max_n(i):
    lo, hi, n = i["range_min"], i["range_max"], i["nbins"]
    require(lo < hi and n >= 1)
    e = utils.bin_edges(lo, hi, n)
    ensure(e.shape == (n + 1,), "length %s", e.shape)
    ensure(e[0] == lo and e[-1] == hi, "ends %s %s", e[0], e[-1])
    ensure(close(e, [lo + (hi - lo) * k / n for k in range(n + 1)], 1e-12, 1e-9), "spacing %s", e)


@op("edges_min_max_step", g, 120)
def edges_min_max_step(i):
    lo, hi, st = i["range_min"], i["range_max"], i["step"]
    require(lo < hi and st > 0 and (hi - lo) / st < 1e5)
    if st > hi - lo:
        ensure(raises(ValueError, utils.bin_edges, range_min=lo, range_max=hi, step=st) is True, "oversized step accepted")
        return
    e = utils.bin_edges(range_min=lo, range_max=hi, step=st)
    n = len(e)
    ensure(n >= 1 and close(e, [lo + k * st for k in range(n)], 1e-12, 1e-9), "edges %s", e)
    ensure(e[0] == lo, "first edge %s", e[0])
    ensure(e[-1] <= hi, "edge %s past the maximum %s", e[-1], hi)
    ensure(lo + n * st > hi - 1e-9 * max(1, abs(hi), abs(lo)), "edges stop early at %s, maximum %s", e[-1], hi)
    exact = all(v * 8 == int(v * 8) for v in (lo, hi, st))
    if exact:
        ensure(n == int((hi - lo) * 8) // int(st * 8) + 1, "number of edges %d", n)


def g_dy(rng):
    st = rng.dy(0.125, 3)
    n = rng.randint(1, 20)
    lo = rng.dy(-9, 9)
    return {"range_min": lo, "range_max": lo + n * st, "step": st}


op("edges_divisible", g_dy, 60)(edges_min_max_step)


@op("edges_min_n_step", g, 60)
def edges_min_n_step(i):
    lo, n, st = i["range_min"], i["nbins"], i["step"]
    require(n >= 1 and st > 0)
    e = utils.bin_edges(range_min=lo, nbins=n, step=st)
    ensure(close(e, [lo + k * st for k in range(n + 1)], 1e-12, 1e-9) and e[0] == lo, "edges %s", e)


@op("edges_max_n_step", g, 60)
def edges_max_n_step(i):
    hi, n, st = i["range_max"], i["nbins"], i["step"]
    require(n >= 1 and st > 0)
    e = utils.bin_edges(range_max=hi, nbins=n, step=st)
    ensure(close(e, [hi - (n - k) * st for k in range(n + 1)], 1e-12, 1e-9) and e[-1] == hi, "edges %s", e)


def g_rej(rng):
    lo = rng.choice([0, 0.0, rng.dy(-3, 3)])
    return {"range_min": lo, "range_max": rng.choice([lo, lo - rng.dy(0, 3), 0, lo + 1]), "nbins": rng.choice([0, -1, 1, 5]), "step": rng.choice([0.5, 1, 0.25])}


@op("edges_rejects", g_rej, 60)
def edges_rejects(i):
    names = ["range_min", "range_max", "nbins", "step"]
    for m in range(16):
        kw = {names[b]: i[names[b]] for b in range(4) if m >> b & 1}
        if len(kw) != 3:
            ensure(raises(ValueError, utils.bin_edges, **kw) is True, "%s accepted", kw)
        elif "range_min" in kw and "range_max" in kw and i["range_max"] <= i["range_min"]:
            ensure(raises(ValueError, utils.bin_edges, **kw) is True, "inverted range %s accepted", kw)
        elif "nbins" in kw and kw["nbins"] <= 0:
            ensure(raises(ValueError, utils.bin_edges, **kw) is True, "count %s accepted", kw)
