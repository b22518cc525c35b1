"""P09 runtime contracts: histogram accumulator (rebuilt Cython extension)"""
import numpy as np

from rt.common import Frozen, ensure, eqv, op, raises
from skbeam.core.accumulators.histogram import Histogram

FT = ["f8", "f8", "f4", "i8", "i4", "i2", "u1", "u4"]


def gh(rng):
    d = rng.choice([1, 1, 2, 2, 3, 4])
    axes = []
    for _ in range(d):
        lo = rng.choice([0, rng.dy(-4, 4)])
        axes.append([rng.choice([1, 2, 4, 8, rng.randint(1, 9)]), lo, lo + rng.choice([1, 2, rng.dy(.5, 9)])])
    fills = []
    for _ in range(rng.randint(0, 4)):
        n = rng.choice([0, 1, 1, 3, 17])
        fills.append({"dt": [rng.choice(FT) if d < 3 else rng.choice(["f8", "i8"]) for _ in range(d)],
                      "x": [[rng.choice([a[1], a[2], a[1] - 1, a[2] + 1, rng.dy(a[1] - 1, a[2] + 1, 64), rng.dy(a[1], a[2], 64), rng.dy(a[1], a[2], 64)]) for _ in range(n)] for a in axes],
                      "w": rng.choice([None, rng.dy(-3, 5), "arr"]), "ws": [rng.dy(-3, 5) for _ in range(n)], "wdt": rng.choice(["f8", "f8", "i4", "f4"]),
                      "form": rng.choice(["array", "array", "strided", "list", "scalar"]), "reset": rng.random() < 0.1})
    return {"axes": axes, "fills": fills, "nd": rng.random() < 0.3}


def cell(x, ax):
    n, lo, hi = ax
    if not lo <= x < hi:
        return -1, False
    p = (x - lo) / ((hi - lo) / n)
    k = int(np.floor(p))
    # exact unless the quotient is within rounding of an integer that it does not equal exactly in rationals
    from fractions import Fraction as F
    e = (F(float(x)) - F(float(lo))) * n / (F(float(hi)) - F(float(lo)))
    ke = e.numerator // e.denominator
    amb = abs(float(e) - round(float(e))) < 1e-9 and not (n & (n - 1) == 0 and F(float(hi) - float(lo)) == F(float(hi)) - F(float(lo)) and float((F(float(hi)) - F(float(lo))) / n) * n == float(F(float(hi)) - F(float(lo))) and e.denominator & (e.denominator - 1) == 0)
    return min(ke, n - 1), amb and ke != k


@op("fill", gh, 250)
def fill(i):
    axes = i["axes"]
    d = len(axes)
    h = Histogram(*[tuple(a) for a in axes])
    h._always_use_fillnd = False
    want = np.zeros([a[0] for a in axes])
    amb = False
    for f in i["fills"]:
        if f["reset"]:
            h.reset()
            want[...] = 0
            ensure(not h.values.any(), "reset leaves counts")
        dts = f["dt"] if d > 2 else [f["dt"][0]] * d
        form = f["form"]
        nd = i["nd"] and form in ("array", "strided")
        if nd:
            dts = [t if t in ("f8", "i8") else "f8" for t in f["dt"]]
            dts = dts if d > 2 else [dts[0]] * d
            h._always_use_fillnd = True
        else:
            h._always_use_fillnd = False
        n = len(f["x"][0])
        if form in ("list", "scalar"):
            dts = ["f8"] * d
        xs = []
        for x, t in zip(f["x"], dts):
            a = np.array(x, dtype=float)
            if t[0] == "u":
                a = np.abs(a)
            xs.append(a.astype(t))
        if form == "scalar":
            if n == 0:
                continue
            n = 1
            args = [float(x[0]) for x in xs]
            xs = [x[:1] for x in xs]
        elif form == "list":
            args = [x.tolist() for x in xs]
        elif form == "strided":
            args = []
            for x in xs:
                b = np.full((max(n, 1), 3), 77).astype(x.dtype)[:n]
                b[:, 1] = x
                args.append(b[:, 1])
        else:
            args = xs
        if f["w"] is None:
            w, kw = np.ones(n), {}
        elif f["w"] == "arr":
            ww = np.array(f["ws"][:n]).astype(f["wdt"])
            w, kw = ww.astype(float), {"weights": ww}
            if n == 0:
                continue
        else:
            w, kw = np.full(n, float(f["w"])), {"weights": f["w"]}
        fz = Frozen(*[a for a in args if isinstance(a, np.ndarray)])
        h.fill(*args, **kw)
        fz.check("coordinates")
        for k in range(n):
            t = []
            for x, a in zip(xs, axes):
                c, am = cell(float(x[k]), a)
                amb = amb or am
                t.append(c)
            if min(t) >= 0:
                want[tuple(t)] += w[k]
    if amb:
        eqv(h.values.sum(), want.sum(), "total weight")
    else:
        eqv(h.values, want, "cell sums")
    for e, c, a in zip(h.edges, h.centers, axes):
        eqv(e, np.linspace(a[1], a[2], a[0] + 1), "edges")
        eqv(c, (np.arange(a[0]) + .5) * (a[2] - a[1]) / a[0] + a[1], "centers")
    h.reset()
    ensure(h.values.shape == want.shape and not h.values.any(), "reset leaves counts")


@op("top_edge", lambda rng: {"n": [rng.randint(1, 90) for _ in range(rng.randint(1, 3))], "lo": rng.uniform(-3, 3), "w": rng.uniform(.1, 7)}, 150)
def top_edge(i):
    """values just below the upper limit are counted in the last bin, never past it"""
    lo, hi = i["lo"], i["lo"] + i["w"]
    x = float(np.nextafter(hi, -np.inf))
    h = Histogram(*[(n, lo, hi) for n in i["n"]])
    h.fill(*[x for _ in i["n"]])
    ensure(h.values.sum() == 1 and h.values[tuple(n - 1 for n in i["n"])] == 1, "value just below the upper limit is not in the last bin")
    h.reset()
    h.fill(*[hi for _ in i["n"]])
    h.fill(*[float(np.nextafter(lo, -np.inf)) for _ in i["n"]])
    ensure(not h.values.any(), "value outside the limits counted")
    h.fill(*[np.array([np.nan]) for _ in i["n"]])
    ensure(not h.values.any(), "NaN counted")
    h.fill(*[lo for _ in i["n"]])
    ensure(h.values.sum() == 1 and h.values.flat[0] == 1, "value at the lower limit is not in the first bin")


@op("rejects", lambda rng: {"d": rng.randint(1, 3), "e": rng.choice([1, 2, 4]), "n": rng.randint(2, 6)}, 20)
def rejects(i):
    h = Histogram(*[(2, 0, 1)] * i["d"])
    if i["e"] != i["d"]:
        ensure(raises(ValueError, h.fill, *[np.zeros(2)] * i["e"]) is True, "%d coordinates accepted by a %d-d histogram", i["e"], i["d"])
    ensure(raises(ValueError, h.fill, *[np.zeros(i["n"])] * i["d"], weights=np.ones(i["n"] + 1)) is True, "weights of another length accepted")
    if i["d"] > 1:
        ensure(raises(ValueError, h.fill, *[np.zeros(i["n"] + k) for k in range(i["d"])]) is True, "coordinates of different lengths accepted")
    ensure(not h.values.any(), "rejected fill changed the histogram")
