"""P32 runtime contracts: peak candidates"""
import numpy as np

from rt.common import A, Frozen, ensure, op, raises, require
from skbeam.core import feature as M
from skbeam.core.fitting import fit_quad_to_peak


def g(rng):
    n = rng.randint(3, 25)
    y = rng.arr((n,), -8, 8) if rng.random() < 0.5 else rng.floats((n,))
    c = sorted({rng.randint(0, n - 1) for _ in range(rng.randint(1, 7))} | ({0, n - 1} if rng.random() < 0.3 else set()))
    if rng.random() < 0.3:
        rng.shuffle(c)
    return {"y": y, "cands": c, "N": rng.choice([1, 2, 3, 5, 10, 0, -1]), "thresh": rng.dy(0, 10), "window": rng.choice([0, 1, 2, 5, 30])}


@op("filter_n_largest", g, 150)
def filter_n_largest(i):
    y, c, N = A(i["y"]), A(i["cands"]), i["N"]
    if N <= 0:
        ensure(raises(ValueError, M.filter_n_largest, y, c, N) is True, "N = %d accepted", N)
        return
    fz = Frozen(y, c)
    r = M.filter_n_largest(y, c, N)
    fz.check()
    ensure(len(r) == min(N, len(c)), "%d candidates, expected %d", len(r), min(N, len(c)))
    ensure(set(int(k) for k in r) <= set(i["cands"]) and len(set(int(k) for k in r)) == len(r), "result %s not a selection of %s", r, c)
    v = y[r]
    ensure(np.all(np.diff(v) <= 0), "heights %s not in descending order", v)
    rest = [y[k] for k in i["cands"] if k not in set(int(q) for q in r)]
    ensure(not rest or max(rest) <= v.min(), "dropped height %s above kept %s", rest, v)


@op("filter_peak_height", g, 150)
def filter_peak_height(i):
    y, c, w = A(i["y"]), A(i["cands"]), i["window"]
    fz = Frozen(y, c)
    for kw, ww in (({}, 5), ({"window": w}, w)):
        r = M.filter_peak_height(y, c, i["thresh"], **kw)
        fz.check()
        want = []
        for k in i["cands"]:
            s = [y[q] for q in range(len(y)) if k - ww <= q <= k + ww]
            if max(s) - min(s) > i["thresh"]:
                want.append(k)
        ensure([int(k) for k in r] == want, "kept %s expected %s", r, want)


def g_q(rng):
    n = rng.randint(3, 15)
    a = rng.choice([-1, 1]) * rng.dy(0.25, 3)
    x0 = rng.dy(-3, 3)
    return {"a": a, "x0": x0, "y0": rng.dy(-3, 3), "n": n, "start": rng.dy(-3, 3), "step": rng.choice([0.25, 0.5, 1])}


@op("refine_quadratic", g_q, 100)
def refine_quadratic(i):
    x = i["start"] + i["step"] * np.arange(i["n"])
    y = i["a"] * (x - i["x0"]) ** 2 + i["y0"]
    fz = Frozen(x, y)
    r = M.refine_quadratic(x, y)
    (b, R2) = fit_quad_to_peak(x, y)
    fz.check()
    ensure(abs(r[0] - i["x0"]) < 1e-5 and abs(r[1] - i["y0"]) < 1e-5, "vertex %s expected (%s, %s)", r, i["x0"], i["y0"])
    ensure(np.allclose(b, (i["a"], i["x0"], i["y0"]), atol=1e-5) and abs(R2 - 1) < 1e-6, "fit %s R2 %s", b, R2)
    noisy = y + np.where(np.arange(len(x)) % 2, 1.0, -1.0)
    b, R2 = fit_quad_to_peak(x, noisy)
    p = np.polyfit(x, noisy, 2)
    res = np.sum((np.polyval(p, x) - noisy) ** 2)
    want = 1 - res / np.sum((noisy - noisy.mean()) ** 2)
    ensure(abs(R2 - want) < 1e-6, "R2 %s expected %s", R2, want)
    for t in (want - 1e-3, want + 1e-3):
        got = raises(M.PeakRejection, M.refine_quadratic, x, noisy, t)
        ensure(got == bool(want < t), "threshold %s with R2 %s: rejected %s", t, want, got)
    ensure(raises(Exception, M.refine_quadratic, x[:2], y[:2]) is True, "two points accepted")


@op("refine_log_quadratic", g_q, 100)
def refine_log_quadratic(i):
    x = i["start"] + i["step"] * np.arange(i["n"])
    y = np.exp(-abs(i["a"]) * (x - i["x0"]) ** 2 / 8 + i["y0"])
    require(np.all(y > 1e-200))
    fz = Frozen(x, y)
    r = M.refine_log_quadratic(x, y)
    fz.check()
    ensure(abs(r[0] - i["x0"]) < 1e-4 and abs(r[1] / np.exp(i["y0"]) - 1) < 1e-4, "vertex %s expected (%s, %s)", r, i["x0"], np.exp(i["y0"]))
    noisy = y * np.where(np.arange(len(x)) % 2, 1.5, 0.7)
    p = np.polyfit(x, np.log(noisy), 2)
    res = np.sum((np.polyval(p, x) - np.log(noisy)) ** 2)
    want = 1 - res / np.sum((np.log(noisy) - np.log(noisy).mean()) ** 2)
    for t in (want - 1e-3, want + 1e-3):
        got = raises(M.PeakRejection, M.refine_log_quadratic, x, noisy, t)
        ensure(got == bool(want < t), "threshold %s with R2 %s: rejected %s", t, want, got)


@op("peak_refinement", g, 150)
def peak_refinement(i):
    y, c, w = A(i["y"]), i["cands"], i["window"]
    x = np.arange(len(y)) * 0.5 - 2
    seen = []

    def ref(xs, ys, k=0):
        seen.append((np.array(xs), np.array(ys), k))
        if len(seen) % 3 == 0:
            raise M.PeakRejection()
        return (len(seen) * 1.0, float(np.sum(ys)))
    fz = Frozen(x, y, c)
    out = M.peak_refinement(x, y, c, w, ref, {"k": 4})
    fz.check()
    ensure(len(seen) == len(c), "%d calls for %d candidates", len(seen), len(c))
    keep = []
    for n, (k, (xs, ys, q)) in enumerate(zip(c, seen)):
        lo, hi = max(0, k - w), min(len(y), k + w + 1)
        ensure(np.array_equal(xs, x[lo:hi]) and np.array_equal(ys, y[lo:hi]), "window of candidate %d is %s", k, xs)
        ensure(q == 4, "refine_args not passed on")
        if (n + 1) % 3:
            keep.append((n + 1.0, float(np.sum(ys))))
    if keep:
        ensure(len(out) == 2 and [tuple(t) for t in zip(*out)] == keep, "result %s expected %s", out, keep)
    else:
        ensure(len(out) == 0, "result %s for no peaks", out)
