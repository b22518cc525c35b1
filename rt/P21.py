"""P21 runtime contracts: spectra"""
import numpy as np

from rt.common import A, Frozen, ensure, op, raises, require
from skbeam.core import spectroscopy as M


def simpson(y, x):
    from scipy.integrate import simpson as s
    return float(s(y, x=x))


def g_int(rng):
    n = rng.randint(2, 14)
    x = [rng.dy(-3, 3)]
    for _ in range(n - 1):
        x.append(x[-1] + rng.dy(0.125, 2))
    k = rng.randint(1, 3)
    lo, hi = [], []
    for _ in range(k):
        a, b = sorted([rng.choice([rng.choice(x), rng.uniform(x[0], x[-1])]) for _ in range(2)])
        if rng.random() < 0.06:
            a = x[0] - 0.5
        if rng.random() < 0.06:
            b = x[-1] + 0.5
        if rng.random() < 0.05:
            a, b = b, a
        lo.append(a)
        hi.append(b)
    y = rng.arr((n,), -8, 8)
    return {"x": x, "y": y, "lo": lo, "hi": hi, "rev": rng.random() < 0.3, "scalar": rng.random() < 0.3 and k == 1, "kind": rng.choice(["f", "i"])}


def integral(x, y, a, b):
    """Simpson's rule over the samples from the first at or above a through the first at or above b"""
    i0 = next(k for k, v in enumerate(x) if v >= a)
    i1 = next(k for k, v in enumerate(x) if v >= b)
    return simpson(y[i0:i1 + 1], x[i0:i1 + 1])


@op("integrate_ROI", g_int, 200)
def integrate_ROI(i):
    x, y = A(i["x"]), A(i["y"])
    require(len(x) >= 2 and np.all(np.diff(x) > 0) and len(x) == len(y))
    lo, hi = i["lo"], i["hi"]
    bad = any(a >= b or a < x[0] or b > x[-1] for a, b in zip(lo, hi))
    xx, yy = (x[::-1].copy(), y[::-1].copy()) if i["rev"] else (x, y)
    al, ah = (lo[0], hi[0]) if i["scalar"] else (lo, hi)
    if bad:
        ensure(raises(ValueError, M.integrate_ROI, xx, yy, al, ah) is True, "bounds %s %s accepted for axis %s..%s", lo, hi, x[0], x[-1])
        return
    fz = Frozen(xx, yy, lo, hi)
    r = M.integrate_ROI(xx, yy, al, ah)
    fz.check()
    want = sum(integral(x, y, a, b) for a, b in zip(lo, hi))
    ensure(abs(r - want) < 1e-8 * (1 + abs(want)), "integral %s expected %s", r, want)


@op("integrate_ROI_rejects", g_int, 60)
def integrate_ROI_rejects(i):
    x, y = A(i["x"]), A(i["y"])
    require(len(x) >= 3)
    ensure(raises(ValueError, M.integrate_ROI, x, y[:-1], x[0], x[-1]) is True, "different lengths accepted")
    ensure(raises(ValueError, M.integrate_ROI, x, y, [x[0]], [x[1], x[2]]) is True, "unequal bound lists accepted")
    z = x.copy()
    z[1] = z[0]
    ensure(raises(ValueError, M.integrate_ROI, z, y, x[0], x[-1]) is True, "repeated x accepted")
    z = x.copy()
    z[-1] = x[0] - 1
    ensure(raises(ValueError, M.integrate_ROI, z, y, x[0], x[1]) is True, "non-monotonic x accepted")


@op("integrate_ROI_spectrum", g_int, 120)
def integrate_ROI_spectrum(i):
    x = A(i["x"])
    y = A(i["y"])[:-1]
    require(len(x) >= 3)
    cen = (x[1:] + x[:-1]) / 2
    lo, hi = i["lo"], i["hi"]
    require(np.min(abs(np.array(lo + hi)[:, None] - cen[None])) > 1e-9)
    bad = any(a >= b or a < cen[0] or b > cen[-1] for a, b in zip(lo, hi))
    if i["rev"]:
        xx, yy = x[::-1].copy(), y[::-1].copy()
    else:
        xx, yy = x, y
    if bad:
        ensure(raises(ValueError, M.integrate_ROI_spectrum, xx, yy, lo, hi) is True, "bounds %s %s accepted for centers %s..%s", lo, hi, cen[0], cen[-1])
        return
    fz = Frozen(xx, yy)
    r = M.integrate_ROI_spectrum(xx, yy, lo, hi)
    fz.check()
    want = sum(integral(cen, y, a, b) for a, b in zip(lo, hi))
    ensure(abs(r - want) < 1e-8 * (1 + abs(want)), "integral %s expected %s", r, want)


def g_pk(rng):
    n = rng.randint(12, 60)
    x = [k * 0.25 for k in range(n)]
    return {"n": n, "x0": rng.uniform(0, x[-1]), "y0": rng.uniform(0.5, 200), "sigma": rng.uniform(0.5, 4), "window": rng.choice([None, 1, 2, 3, 5, 8, 100]), "list": rng.random() < 0.3}


@op("find_largest_peak", g_pk, 150)
def find_largest_peak(i):
    x = np.arange(i["n"]) * 0.25
    y = i["y0"] * np.exp(-((x - i["x0"]) ** 2) / (2 * i["sigma"] ** 2))
    j = int(np.argmax(y))
    w = i["window"]
    if w is not None:
        lo, hi = max(0, j - w), min(len(x), j + w + 1)
        require(hi - lo >= 3)
        # everything outside the window is spoiled: it must not matter
        keep = np.zeros(len(x), bool)
        keep[lo:hi] = True
        y = np.where(keep, y, y[j] * 1e-3)
    require(np.all(y > 1e-250))
    fz = Frozen(x, y)
    a = (list(x), list(y)) if i.get("list") else (x, y)
    r = M.find_largest_peak(*a) if w is None else M.find_largest_peak(*a, window=w)
    fz.check()
    ensure(len(r) == 3, "result %s", r)
    ensure(abs(r[0] - i["x0"]) < 1e-4 and abs(r[1] / i["y0"] - 1) < 1e-4 and abs(r[2] / i["sigma"] - 1) < 1e-4,
           "peak (%s, %s, %s) expected (%s, %s, %s)", r[0], r[1], r[2], i["x0"], i["y0"], i["sigma"])


def g_al(rng):
    n, k = rng.randint(20, 60), rng.randint(1, 4)
    return {"n": n, "x0": [rng.uniform(1, 4) for _ in range(k)], "sigma": [rng.uniform(0.5, 2) for _ in range(k)], "custom": rng.random() < 0.5}


@op("align_and_scale", g_al, 80)
def align_and_scale(i):
    e = [np.arange(i["n"]) * 0.1 + 0.01 * k for k in range(len(i["x0"]))]
    c = [100 * np.exp(-((x - a) ** 2) / (2 * s * s)) for x, a, s in zip(e, i["x0"], i["sigma"])]
    require(all(np.all(v > 1e-250) for v in c))
    fz = Frozen(*e, *c)
    if i["custom"]:
        it = iter(list(zip(i["x0"], i["sigma"])))

        def pk(x, y):
            a, s = next(it)
            return a, 1.0, s
        oe, oc = M.align_and_scale(e, c, pk)
    else:
        oe, oc = M.align_and_scale(e, c)
    fz.check()
    ensure(len(oe) == len(e) and len(oc) == len(c), "lengths")
    for k in range(len(e)):
        want = (e[k] - i["x0"][k]) * i["sigma"][0] / i["sigma"][k]
        ensure(np.allclose(oe[k], want, atol=1e-3), "axis %d", k)
        ensure(np.array_equal(oc[k], c[k]), "counts %d", k)
