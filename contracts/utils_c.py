"""Contracts: binning, unit conversion, lag schedules, coordinates (skbeam/core/utils.py, stats.py, roi.circular_average)."""
import z3

from pyvc.arr import SArr, flatten, zi
from pyvc.core import CTX, SV, Unsupported, fresh_name, uf, zand, zb, zimp, znot, zor
from pyvc.seq import symiter
from pyvc.verify import contract

UT = "skbeam.core.utils"
ROI = "skbeam.core.roi"
PI = SV("f", z3.Real("pi"))


def f0():
    return SV("f", z3.RealVal(0))


# ---------------------------------------------------------------- P06 binning
def in_bin(x, lo, hi, w, b, nb):
    """x in the b-th of nb equal bins of [lo, hi]; the last bin is closed on the right"""
    e0, e1 = lo + b * w, lo + (b + 1) * w
    return zand(e0 <= x, zor(x < e1, zand(b == nb - 1, x == hi)))


def _bin1d(V, default):
    n, nb = V.int("n", 1), V.int("nx", 1)
    x, y = V.arr("x", (n,), "f"), V.arr("y", (n,), "f")
    kw = {}
    if default:
        lo, hi = V.ghost("lo"), V.ghost("hi")
        V.assume(V.forall((n,), lambda k: zand(lo <= x.at(k), x.at(k) <= hi)))
        V.assume(zand(V.exists((n,), lambda k: x.at(k) == lo), V.exists((n,), lambda k: x.at(k) == hi), lo < hi))
    else:
        lo, hi = V.real("min_x"), V.real("max_x")
        V.assume(lo < hi)
        kw = {"min_x": lo, "max_x": hi}
    for p in V.paths(lambda: V.fn()(x, y, nb, **kw)):
        if not p.returned():
            continue
        V.frame(p)
        bins, val, cnt = p.ret
        p.ensure("shapes", zand(zi(bins.shape[0]) == nb.t + 1, zi(val.shape[0]) == nb.t, zi(cnt.shape[0]) == nb.t))
        k = V.index(nb + 1, "e")
        p.ensure("edges-equally-spaced", (bins.at(k) - lo) * nb == (hi - lo) * k)
        b = V.index(nb, "b")
        e0, e1 = bins.at(b), bins.at(b + 1)

        def inside(j):
            return zand(e0 <= x.at(j), zor(x.at(j) < e1, zand(b == nb - 1, x.at(j) == e1)))
        p.ensure("counts", cnt.at(b) == V.sum((n,), lambda j: V.ite(inside(j), 1, 0), "i"))
        p.ensure("sums", val.at(b) == V.sum((n,), lambda j: V.ite(inside(j), y.at(j), 0)))


@contract("P06", UT + ":bin_1D")
def bin_1D(V):
    _bin1d(V, False)


@contract("P06", UT + ":bin_1D")
def bin_1D_default_range(V):
    _bin1d(V, True)


@contract("P06", UT + ":bin_edges_to_centers")
def bin_edges_to_centers(V):
    n = V.int("n", 1)
    e = V.arr("edges", (n + 1,), "f")
    for p in V.paths(lambda: V.fn()(e)):
        if not p.returned():
            continue
        V.frame(p)
        k = V.index(n, "k")
        p.ensure("length", zi(p.ret.shape[0]) == n.t)
        p.ensure("midpoints", 2 * p.ret.at(k) == e.at(k) + e.at(k + 1))


def bin_1D_contract(V, rec):
    """contract of bin_1D as its callers see it (proved above); remembers how it was called"""
    def bin_1D(x, y, nx=None, min_x=None, max_x=None):
        rec.append((x, y, nx, min_x, max_x))
        if nx is None or min_x is None or max_x is None:
            raise Unsupported("bin_1D stub without range")
        nb = SV("i", zi(nx))
        from pyvc.arr import sym_arr
        bins, val, cnt = (sym_arr(fresh_name(s), (nb + d,), k) for s, d, k in (("bins", 1, "f"), ("val", 0, "f"), ("cnt", 0, "i")))
        ctx = CTX()
        ctx.oblige("bin_1D-precondition", zand(nb >= 1, min_x < max_x))
        ax = x.axes[0]
        rx, ry = x.reader(), y.reader()

        def sm(b, val):
            from pyvc.arr import make_sum
            e0, e1 = bins.at(b), bins.at(b + 1)

            def body(c):
                xv = SV(x.kind, rx((c,))[0])
                inside = zb(zand(e0 <= xv, zor(xv < e1, zand(b == nb - 1, xv == e1))))
                if val:
                    t = ry((c,))[0]
                    return z3.If(inside, t if t.sort() == z3.RealSort() else z3.ToReal(t), z3.RealVal(0))
                return z3.If(inside, z3.IntVal(1), z3.IntVal(0))
            return SV("f" if val else "i", make_sum("f" if val else "i", ax.dims, ax.pred, body))
        rec.append(sm)
        ctx.assume(zb(V.forall((nb + 1,), lambda k: (bins.at(k) - min_x) * nb == (max_x - min_x) * k)))
        ctx.assume(zb(V.forall((nb,), lambda b: zand(cnt.at(b) == sm(b, False), val.at(b) == sm(b, True)))))
        return bins, val, cnt
    return bin_1D


def _circ(V, masked):
    r, c = V.int("rows", 1), V.int("cols", 1)
    img = V.arr("image", (r, c), "f")
    nb = V.int("nx", 1)
    lo, hi = V.real("min_x"), V.real("max_x")
    V.assume(lo < hi)
    cx, cy = V.real("cx"), V.real("cy")
    px, py = V.real("px", gt=0), V.real("py", gt=0)
    th = V.int("threshold", 0)
    kw = {}
    if masked:
        mask = V.arr("mask", (r, c), "i")
        kw["mask"] = mask
    for p in V.paths(lambda: V.fn()(img, (cx, cy), threshold=th, nx=nb, pixel_size=(px, py), min_x=lo, max_x=hi, **kw)):
        if not p.returned():
            continue
        V.frame(p)
        cen, avg = p.ret
        b = V.index(nb, "b")
        w = (hi - lo) / nb

        def rad(i, j):
            u, v = px * (i - cx), py * (j - cy)
            return SV("f", uf("sqrt")((f0() + u * u + v * v).t))

        def inside(i, j):
            d = rad(i, j)
            q = in_bin(d, lo, hi, w, b, nb)
            return zand(q, mask.at(i, j) == 1) if masked else q
        cnt = V.sum((r, c), lambda i, j: V.ite(inside(i, j), 1, 0), "i")
        tot = V.sum((r, c), lambda i, j: V.ite(inside(i, j), img.at(i, j), 0))
        for nm, a in (("center", cen), ("average", avg)):
            ax = a.axes[0]
            if len(ax.dims) != 1:
                raise Unsupported("circular_average result layout")
            s = SV("b", ax.pred((b.t,)) if ax.pred else z3.BoolVal(True))
            v = SV("f", *a.reader()(((b.t,),)))
            p.ensure(nm + "-bins", zi(ax.dims[0]) == nb.t)
            p.ensure(nm + "-keeps-bins-above-threshold", zand(zimp(s, cnt > th), zimp(cnt > th, s)))
            if nm == "center":
                p.ensure("center-value", zimp(s, 2 * v == 2 * lo + (2 * b + 1) * w))
            else:
                p.ensure("mean-value", zimp(s, v * cnt == tot))


@contract("P06", ROI + ":circular_average")
def circular_average(V):
    _circ(V, False)


@contract("P06", ROI + ":circular_average")
def circular_average_mask(V):
    _circ(V, True)


def _stat1d(V, stat):
    n, nb = V.int("n", 1), V.int("nx", 1)
    x, y = V.arr("x", (n,), "f"), V.arr("y", (n,), "f")
    lo, hi = V.real("min_x"), V.real("max_x")
    V.assume(lo < hi)
    for p in V.paths(lambda: V.fn()(x, y, stat, nb, lo, hi)):
        if not p.returned():
            continue
        V.frame(p)
        bins, val = p.ret
        k, b = V.index(nb + 1, "e"), V.index(nb, "b")
        p.ensure("edges-equally-spaced", (bins.at(k) - lo) * nb == (hi - lo) * k)
        p.ensure("shapes", zand(zi(bins.shape[0]) == nb.t + 1, zi(val.shape[0]) == nb.t))

        def inside(j):
            return in_bin(x.at(j), lo, hi, (hi - lo) / nb, b, nb)
        cnt = V.sum((n,), lambda j: V.ite(inside(j), 1, 0), "i")
        tot = V.sum((n,), lambda j: V.ite(inside(j), y.at(j), 0))
        if stat == "count":
            p.ensure("count", val.at(b) == cnt)
        elif stat == "sum":
            p.ensure("sum", val.at(b) == tot)
        else:
            p.ensure("mean", zimp(cnt > 0, val.at(b) * cnt == tot))


@contract("P06", "skbeam.core.stats:statistics_1D")
def statistics_mean(V):
    _stat1d(V, "mean")


@contract("P06", "skbeam.core.stats:statistics_1D")
def statistics_sum(V):
    _stat1d(V, "sum")


@contract("P06", "skbeam.core.stats:statistics_1D")
def statistics_count(V):
    _stat1d(V, "count")


# ---------------------------------------------------------------- P07 bin_edges
@contract("P07", UT + ":bin_edges")
def edges_min_max_n(V):
    lo, hi, n = V.real("range_min"), V.real("range_max"), V.int("nbins", 1)
    V.assume(lo < hi)
    for p in V.paths(lambda: V.fn()(lo, hi, n)):
        if not p.returned():
            continue
        e = p.ret
        k = V.index(n + 1, "k")
        p.ensure("count", zi(e.shape[0]) == n.t + 1)
        p.ensure("equally-spaced-from-min-to-max", (e.at(k) - lo) * n == (hi - lo) * k)


@contract("P07", UT + ":bin_edges")
def edges_min_max_step(V):
    lo, hi, st = V.real("range_min"), V.real("range_max"), V.real("step", gt=0)
    V.assume(lo < hi)
    for p in V.paths(lambda: V.fn()(range_min=lo, range_max=hi, step=st)):
        if p.kind == "exc":
            if p.raises(ValueError):
                p.ensure("raises-only-for-oversized-step", st > hi - lo)
            continue
        e = p.ret
        n = SV("i", zi(e.shape[0]))
        p.ensure("nonempty", n >= 2)
        k = V.index(n, "k")
        p.ensure("starts-at-min-and-advances-by-step", e.at(k) == lo + k * st)
        p.ensure("never-past-max", e.at(k) <= hi)
        p.ensure("complete", lo + n * st > hi)


@contract("P07", UT + ":bin_edges")
def edges_min_n_step(V):
    lo, n, st = V.real("range_min"), V.int("nbins", 1), V.real("step", gt=0)
    for p in V.paths(lambda: V.fn()(range_min=lo, nbins=n, step=st)):
        if not p.returned():
            continue
        e, k = p.ret, V.index(n + 1, "k")
        p.ensure("count", zi(e.shape[0]) == n.t + 1)
        p.ensure("starts-at-min-and-advances-by-step", e.at(k) == lo + k * st)


@contract("P07", UT + ":bin_edges")
def edges_max_n_step(V):
    hi, n, st = V.real("range_max"), V.int("nbins", 1), V.real("step", gt=0)
    for p in V.paths(lambda: V.fn()(range_max=hi, nbins=n, step=st)):
        if not p.returned():
            continue
        e, k = p.ret, V.index(n + 1, "k")
        p.ensure("count", zi(e.shape[0]) == n.t + 1)
        p.ensure("ends-at-max-and-advances-by-step", e.at(k) == hi - (n - k) * st)


@contract("P07", UT + ":bin_edges")
def edges_rejects(V):
    lo, hi, n, st = V.real("range_min"), V.real("range_max"), V.anyint_in("nbins"), V.real("step", gt=0)
    names = ["range_min", "range_max", "nbins", "step"]
    vals = [lo, hi, n, st]
    for m in range(16):
        kw = {names[b]: vals[b] for b in range(4) if m >> b & 1}
        if len(kw) == 3:
            continue
        for p in V.paths(lambda: V.fn()(**kw)):
            p.raises(ValueError, "needs-exactly-three-%d" % m)
    with V.suppose(hi <= lo):
        for p in V.paths(lambda: V.fn()(lo, hi, n)):
            p.raises(ValueError, "inverted-range")
        for p in V.paths(lambda: V.fn()(range_min=lo, range_max=hi, step=st)):
            p.raises(ValueError, "inverted-range-step")
    with V.suppose(n <= 0):
        for kw in ({"range_min": lo, "range_max": hi}, {"range_min": lo, "step": st}, {"range_max": hi, "step": st}):
            for p in V.paths(lambda: V.fn()(nbins=n, **kw)):
                p.raises(ValueError, "non-positive-count")


# ---------------------------------------------------------------- P08 conversions
def _elementwise(V, mk, spec, pre=None, name="q"):
    n = V.int("n", 1)
    a = V.arr(name, (n,), "f")
    V.assume(V.forall((n,), lambda k: pre(a.at(k))))
    for p in V.paths(lambda: mk(a)):
        if not p.returned():
            continue
        V.frame(p)
        k = V.index(n, "k")
        V.assume(pre(a.at(k)))
        p.ensure("shape", zand(len(p.ret.axes) == 1, zi(p.ret.shape[0]) == n.t))
        spec(p, p.ret.at(k), a.at(k))


@contract("P08", UT + ":q_to_d")
def q_to_d(V):
    _elementwise(V, V.fn(), lambda p, d, q: p.ensure("d*q=2pi", d * q == 2 * PI), lambda q: q > 0)


@contract("P08", UT + ":d_to_q")
def d_to_q(V):
    _elementwise(V, V.fn(), lambda p, q, d: p.ensure("d*q=2pi", d * q == 2 * PI), lambda d: d > 0, "d")


@contract("P08", UT + ":q_to_d")
def roundtrip_q_d(V):
    m = V.module()
    _elementwise(V, lambda q: m.d_to_q(m.q_to_d(q)), lambda p, r, q: p.ensure("round-trip", r == q), lambda q: q > 0)


def sin(x):
    return SV("f", uf("sin")((f0() + x).t))


@contract("P08", UT + ":q_to_twotheta")
def q_to_twotheta(V):
    wl = V.real("wavelength", gt=0)
    fn = V.fn()
    _elementwise(V, lambda q: fn(q, wl), lambda p, t, q: (
        p.ensure("sine-of-half-angle", sin(t / 2) * (4 * PI) == q * wl), p.ensure("principal-range", zand(t >= -PI, t <= PI))),
        lambda q: zand(q >= 0, q * wl <= 4 * PI))


@contract("P08", UT + ":twotheta_to_q")
def twotheta_to_q(V):
    wl = V.real("wavelength", gt=0)
    fn = V.fn()
    _elementwise(V, lambda t: fn(t, wl), lambda p, q, t: p.ensure("q-formula", q * wl == 4 * PI * sin(t / 2)), lambda t: zand(t >= 0, t <= PI), "two_theta")


@contract("P08", UT + ":q_to_twotheta")
def roundtrip_q(V):
    m = V.module()
    wl = V.real("wavelength", gt=0)
    _elementwise(V, lambda q: m.twotheta_to_q(m.q_to_twotheta(q, wl), wl), lambda p, r, q: p.ensure("round-trip", r == q),
                 lambda q: zand(q >= 0, q * wl <= 4 * PI))


@contract("P08", UT + ":twotheta_to_q")
def roundtrip_twotheta(V):
    m = V.module()
    wl = V.real("wavelength", gt=0)
    _elementwise(V, lambda t: m.q_to_twotheta(m.twotheta_to_q(t, wl), wl), lambda p, r, t: p.ensure("round-trip", r == t),
                 lambda t: zand(t >= 0, t <= PI), "two_theta")


@contract("P08", UT + ":radius_to_twotheta")
def radius_to_twotheta(V):
    d = V.real("dist", gt=0)
    fn = V.fn()

    def spec(p, t, r):
        c = SV("f", uf("cos")(t.t))
        p.ensure("tangent", zand(sin(t) * d == r * c, c > 0, t > -PI / 2, t < PI / 2))
    _elementwise(V, lambda r: fn(d, r), spec, lambda r: r >= 0, "radius")


# ---------------------------------------------------------------- P15 schedules
@contract("P15", UT + ":geometric_series")
def geometric_series(V):
    r, n, a = V.int("ratio", 2), V.int("limit", 1), V.int("first", 1)
    for p in V.paths(lambda: V.fn()(r, n, a)):
        if not p.returned():
            continue
        s = p.ret
        m = SV("i", zi(s.slen() if hasattr(s, "slen") else len(s)))
        p.ensure("first", s[0] == a)
        k = V.index(m - 1, "k")
        p.ensure("ratio", s[k + 1] == s[k] * r)
        p.ensure("below-limit", s[k + 1] < n)
        p.ensure("complete", s[m - 1] * r >= n)


def _mtl(L):
    def c(V):
        h = V.int("half", 1)
        for p in V.paths(lambda: V.fn()(L, 2 * h)):
            if not p.returned():
                continue
            tot, lags, d = p.ret
            p.ensure("total", tot == (L + 1) * h)
            p.ensure("number-of-lags", V.len(lags) == (L + 1) * h)
            i = V.index(2 * h)
            p.ensure("level-one-lags", V.at(lags, i) == i)
            j = V.index(h)
            for lv in range(2, L + 1):
                want = (h + j) * 2 ** (lv - 1)
                p.ensure("level-%d-lags" % lv, V.at(lags, lv * h + j) == want)
                p.ensure("level-%d-dict" % lv, zand(V.len(d[lv]) == h, V.at(d[lv], j) == want))
            p.ensure("levels", zand(V.len(d[1]) == 2 * h, V.at(d[1], i) == i))
            p.ensure("dict-keys", sorted(d) == list(range(1, L + 1)))
    c.__name__ = "multi_tau_lags_%d_levels" % L
    return c


for _L in range(1, 9):
    contract("P15", UT + ":multi_tau_lags")(_mtl(_L))


@contract("P15", UT + ":multi_tau_lags")
def multi_tau_lags_odd(V):
    L, h = V.int("levels", 1), V.int("half", 0)
    for p in V.paths(lambda: V.fn()(L, 2 * h + 1)):
        p.raises(ValueError, "odd-channels-rejected")


# ---------------------------------------------------------------- P20
@contract("P20", UT + ":img_to_relative_xyi")
def img_to_relative_xyi(V):
    r = c = V.int("rows", 1)
    img = V.arr("img", (r, c), "f")
    cx, cy = V.real("cx"), V.real("cy")
    px, py = V.real("px", gt=0), V.real("py", gt=0)
    for p in V.paths(lambda: V.fn()(img, cx, cy, px, py)):
        if not p.returned():
            continue
        V.frame(p)
        i, j = V.index(r), V.index(c)
        out = []
        for a in p.ret:
            ax = a.axes[0]
            comps = (i.t, j.t) if len(ax.dims) == 2 else (flatten([i.t, j.t], [r.t, c.t]),)
            p.ensure("row-major", zand(zi(ax.dims[0]) == r.t, zi(ax.dims[1]) == c.t) if len(ax.dims) == 2 else zi(ax.dims[0]) == (r * c).t)
            out.append(SV("f", *a.reader()((comps,))))
        p.ensure("x", out[0] == px * (j - cx))
        p.ensure("y", out[1] == py * (i - cy))
        p.ensure("intensity", out[2] == img.at(i, j))


@contract("P20", UT + ":img_to_relative_xyi")
def img_to_relative_xyi_default(V):
    r = c = V.int("rows", 1)
    img = V.arr("img", (r, c), "f")
    cx, cy = V.real("cx"), V.real("cy")
    for p in V.paths(lambda: V.fn()(img, cx, cy)):
        if not p.returned():
            continue
        i, j = V.index(r), V.index(c)
        out = []
        for a in p.ret:
            ax = a.axes[0]
            comps = (i.t, j.t) if len(ax.dims) == 2 else (flatten([i.t, j.t], [r.t, c.t]),)
            out.append(SV("f", *a.reader()((comps,))))
        p.ensure("unit-pixels", zand(out[0] == j - cx, out[1] == i - cy, out[2] == img.at(i, j)))


@contract("P20", UT + ":img_to_relative_xyi")
def img_to_relative_xyi_rejects(V):
    img = V.arr("img", (V.int("rows", 1), V.int("cols", 1)), "f")
    px, py = V.real("px"), V.real("py")
    with V.suppose(zor(px <= 0, py <= 0)):
        for p in V.paths(lambda: V.fn()(img, 0, 0, px, py)):
            p.raises(ValueError, "non-positive-pixel-size")
    for a in ((px, None), (None, py)):
        for p in V.paths(lambda: V.fn()(img, 0, 0, *a)):
            p.raises(ValueError, "one-pixel-size-missing")


@contract("P20", UT + ":subtract_reference_images")
def subtract_reference_images(V):
    n, r, c = V.int("n", 1), V.int("rows", 1), V.int("cols", 1)
    imgs, ref = V.arr("imgs", (n, r, c), "f"), V.arr("ref", (n,), "b")
    V.assume(ref.at(0))
    for p in V.paths(lambda: V.fn()(imgs, ref)):
        if not p.returned():
            continue
        V.frame(p)
        ax, item = symiter(p.ret)
        if len(ax.dims) != 1:
            raise Unsupported("result layout")
        # the k-th slot of the result axis stands for frame k+1
        k = V.index(n - 1, "k")
        i, j = V.index(r, "i"), V.index(c, "j")
        p.ensure("one-slot-per-later-frame", zi(ax.dims[0]) == n.t - 1)
        kept = SV("b", ax.pred((k.t,)) if ax.pred else z3.BoolVal(True))
        p.ensure("exactly-the-data-frames", zand(zimp(kept, znot(ref.at(k + 1))), zimp(znot(ref.at(k + 1)), kept)))
        # q: the most recent reference frame before k+1
        q = V.index(n, "q")
        V.assume(zand(q <= k, ref.at(q), znot(ref.at(k + 1)), V.forall((n,), lambda m: zimp(zand(m > q, m <= k), znot(ref.at(m))))))
        p.ensure("minus-most-recent-reference", item((k.t,)).at(i, j) == imgs.at(k + 1, i, j) - imgs.at(q, i, j))


@contract("P20", UT + ":subtract_reference_images")
def subtract_reference_rejects(V):
    n, r, c = V.int("n", 1), V.int("rows", 1), V.int("cols", 1)
    imgs, ref = V.arr("imgs", (n, r, c), "f"), V.arr("ref", (n,), "b")
    V.assume(znot(ref.at(0)))
    for p in V.paths(lambda: V.fn()(imgs, ref)):
        p.raises(ValueError, "first-frame-must-be-reference")
