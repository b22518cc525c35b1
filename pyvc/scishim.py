"""Assumed contracts of the scipy functions used by the code under test."""
import z3

from .arr import (Ax, SArr, Storage, as_sarr, broadcast_axes, conv_index, dim, ew, make_any, make_ext, make_sum, mapidx, zi)
from .core import CTX, SV, TRUE, Unsupported, binop, kmax, lift, to_kind, truth, uf, unop, zand, zite, znot
from .npshim import NotModelled, bin_fn, need_sorted, np, used


class Mod:
    def __init__(self, name, **kw):
        self.__dict__.update(kw)
        self.__dict__["_n"] = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return NotModelled(self.__dict__["_n"] + "." + n)


class Math:
    pi = np.pi
    sqrt, sin, cos, tan, atan, atan2, exp, log = np.sqrt, np.sin, np.cos, np.tan, np.arctan, np.arctan2, np.exp, np.log
    asin, acos = np.arcsin, np.arccos

    @staticmethod
    def ceil(x):
        from .loader import b_int
        return b_int(np.ceil(x))

    @staticmethod
    def floor(x):
        from .loader import b_int
        return b_int(np.floor(x))


def _pair(img, lab):
    A, L = as_sarr(img), as_sarr(lab)
    A = A.ravel() if A.ndim != 1 else A
    L = L.ravel() if L.ndim != 1 else L
    axes, ma, ml = broadcast_axes(A.axes, L.axes)
    return A, L, axes[0], ma, ml


def nd_mean(img, labels=None, index=None):
    return _label_red("mean", img, labels, index)


def nd_sum(img, labels=None, index=None):
    return _label_red("sum", img, labels, index)


def nd_maximum(img, labels=None, index=None):
    return _label_red("max", img, labels, index)


def nd_minimum(img, labels=None, index=None):
    return _label_red("min", img, labels, index)


def _label_red(op, img, labels, index):
    used("scipy.ndimage.%s: reduction over pixels with the given label (label>0 when index is None)" % op)
    from .arr import reduce_
    if labels is None:
        return reduce_(op, img)
    A, L, ax, ma, ml = _pair(img, labels)
    ra, rl, ka = A.reader(), L.reader(), A.kind

    def red(sel):
        dims = ax.dims
        pred = (lambda c: zand(ax.pred(c) if ax.pred else TRUE, sel(rl(mapidx((c,), ml, 1))[0])))

        def el(c):
            return ra(mapidx((c,), ma, 1))[0]
        if op == "sum":
            return "f", make_sum("f", dims, pred, lambda c: to_kind(el(c), ka, "f"))
        if op == "mean":
            s = make_sum("f", dims, pred, lambda c: to_kind(el(c), ka, "f"))
            n = make_sum("i", dims, pred, lambda c: z3.IntVal(1))
            return "f", s / z3.ToReal(n)
        return ka, make_ext("MAX" if op == "max" else "MIN", ka, dims, pred, el)
    if index is None:
        k, t = red(lambda l: l > 0 if l.sort() != z3.BoolSort() else l)
        if op in ("max", "min"):
            ne = make_any(ax.dims, lambda c: zand(ax.pred(c) if ax.pred else TRUE, rl(mapidx((c,), ml, 1))[0] > 0), lambda c: TRUE)
            t = zite(ne, t, to_kind(z3.IntVal(0), "i", k))
        return SV(k, t)
    X = as_sarr(index)
    if X.ndim == 0:
        v = X.item()
        k, t = red(lambda l: truth(SV(L.kind, l) == v))
        return SV(k, t)
    rx, kx = X.reader(), X.kind
    kout = "f" if op in ("mean", "sum") else ka
    return SArr(X.axes, Storage(lambda idx: (red(lambda l: truth(SV(L.kind, l) == SV(kx, *rx(idx))))[1], None), kout))


def binned_statistic(x, values, statistic="mean", bins=10, range=None):
    used("scipy.stats.binned_statistic: per half-open bin (last closed) statistic")
    from .seq import SList
    if range is not None:
        raise Unsupported("binned_statistic range")
    X, V = as_sarr(x), as_sarr(values)
    E = as_sarr(bins)
    if E.ndim == 0:
        raise Unsupported("binned_statistic with bin count")
    if X.ndim != 1 or V.ndim != 1:
        raise ValueError("expects 1-d")
    axes, mx, mv = broadcast_axes(X.axes, V.axes)
    ax = axes[0]
    need_sorted(E)
    er, ke, nb = E.reader(), E.kind, dim(zi(E.axes[0].size) - 1)
    xr, kx, vr, kv = X.reader(), X.kind, V.reader(), V.kind

    def inbin(c, b):
        t = to_kind(xr(mapidx((c,), mx, 1))[0], kx, "f")
        lo = to_kind(er(((b,),))[0], ke, "f")
        hi = to_kind(er(((z3.simplify(b + 1),),))[0], ke, "f")
        from .core import zor
        return zand(ax.pred(c) if ax.pred else TRUE, lo <= t, zor(t < hi, zand(b == zi(nb) - 1, t <= hi)))

    def val(c):
        return to_kind(vr(mapidx((c,), mv, 1))[0], kv, "f")

    def stat(b):
        n = z3.ToReal(make_sum("i", ax.dims, lambda c: inbin(c, b), lambda c: z3.IntVal(1)))
        s = lambda: make_sum("f", ax.dims, lambda c: inbin(c, b), val)  # noqa
        if statistic == "mean":
            return s() / n
        if statistic == "sum":
            return s()
        if statistic == "count":
            return n
        if statistic == "max":
            return make_ext("MAX", "f", ax.dims, lambda c: inbin(c, b), val)
        if statistic == "min":
            return make_ext("MIN", "f", ax.dims, lambda c: inbin(c, b), val)
        if statistic == "std" or statistic == np.std:
            m = s() / n

            def dev(c):
                d = val(c) - m
                return d * d
            return uf("sqrt")(make_sum("f", ax.dims, lambda c: inbin(c, b), dev) / n)
        if statistic == "median":
            raise Unsupported("median")
        raise ValueError("invalid statistic %r" % (statistic,))
    stat(z3.IntVal(0))

    def isnan(b):
        if statistic in ("mean", "max", "min", "std") or statistic == np.std:
            return znot(make_any(ax.dims, lambda c: inbin(c, b), lambda c: TRUE))
        return None
    out = SArr([Ax((nb,))], Storage(lambda idx: (stat(idx[0][0]), isnan(idx[0][0])), "f"))
    return out, E, NotModelled("binnumber")


def simpson(y, x=None, dx=1.0, axis=-1, **k):
    raise Unsupported("simpson")


def fftconvolve(a, b, mode="full", axes=None):
    """full discrete linear convolution (in real arithmetic)"""
    used("scipy.signal.fftconvolve(mode='full'): the exact discrete linear convolution, out[m] = sum_i a[i]*b[m-i]")
    from .carr import CVal
    if isinstance(a, CVal) or isinstance(b, CVal) or mode != "full" or axes is not None:
        raise Unsupported("fftconvolve")
    A, B = as_sarr(a), as_sarr(b)
    if A.ndim != B.ndim:
        raise ValueError("in1 and in2 should have the same dimensionality")
    if not all(x.plain() for x in list(A.axes) + list(B.axes)) or any(len(x.dims) != 1 for x in list(A.axes) + list(B.axes)):
        raise Unsupported("fftconvolve of a selection")
    ra, rb, ka, kb = A.reader(), B.reader(), A.kind, B.kind
    na, nb = [zi(x.size) for x in A.axes], [zi(x.size) for x in B.axes]
    dims = [dim(p + q - 1) for p, q in zip(na, nb)]

    def val(idx):
        m = [k[0] for k in idx]

        def pred(c):
            return zand(*[zand(m[j] - c[j] >= 0, m[j] - c[j] < nb[j]) for j in range(len(m))])

        def el(c):
            return (to_kind(ra(tuple((x,) for x in c))[0], ka, "f") *
                    to_kind(rb(tuple((z3.simplify(m[j] - c[j]),) for j in range(len(m))))[0], kb, "f"))
        return make_sum("f", tuple(x.size for x in A.axes), pred, el)
    for X in (A, B):
        r0 = X.reader()(tuple((z3.IntVal(0),) for _ in X.axes))
        if r0[1] is not None:
            raise Unsupported("fftconvolve of data with NaN")
    return SArr([Ax((d,)) for d in dims], Storage(lambda idx: (val(idx), None), "f"))


class _Gamma:
    """scipy.stats.gamma: density of the gamma distribution"""

    def __call__(self, a, loc=0, scale=1):
        return Mod("scipy.stats.gamma", pdf=lambda x: self.pdf(x, a, loc, scale))

    def pdf(self, x, a, loc=0, scale=1):
        used("scipy.stats.gamma.pdf: y^(a-1) exp(-y) / (Gamma(a) scale), y = (x - loc) / scale")
        y = (x - loc) / scale
        return binop("pow", y, a - 1) * unop("exp", -y) / (unop("gamma", a) * scale)


scipy = Mod(
    "scipy",
    ndimage=Mod("scipy.ndimage", mean=nd_mean, maximum=nd_maximum, minimum=nd_minimum, sum=nd_sum),
    stats=Mod("scipy.stats", binned_statistic=binned_statistic, gamma=_Gamma()),
    special=Mod("scipy.special", erf=lambda x: unop("erf", x), erfc=lambda x: unop("erfc", x), gamma=lambda x: unop("gamma", x), gammaln=lambda x: unop("gammaln", x)),
    signal=Mod("scipy.signal", fftconvolve=fftconvolve),
    interpolate=Mod("scipy.interpolate"),
    integrate=Mod("scipy.integrate", simpson=simpson),
    optimize=Mod("scipy.optimize"),
    fftpack=Mod("scipy.fftpack"),
)
