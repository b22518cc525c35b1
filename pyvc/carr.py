"""Complex values as pairs of real arrays (or scalars) and discrete Fourier transforms as uninterpreted, mutually inverse operators."""
import z3

from .arr import Ax, SArr, Storage, as_sarr, dim, ew, reduce_, zi
from .core import CTX, SV, FInt, Unsupported, binop, fresh_name, lift, unop, zand, zimp, zite


def is_c(x):
    return isinstance(x, (CVal, complex))


def zero_like(x):
    if isinstance(x, SArr):
        return SArr(x.axes, Storage(lambda idx: (z3.RealVal(0), None), "f"))
    return SV("f", z3.RealVal(0))


def as_c(x):
    if isinstance(x, CVal):
        return x
    if isinstance(x, complex):
        return CVal(SV("f", lift(x.real)[1]), SV("f", lift(x.imag)[1]))
    if isinstance(x, (list, tuple)):
        x = as_sarr(x)
    if isinstance(x, SArr):
        x = x._cast("f") if x.kind != "f" else x
        return CVal(x, zero_like(x))
    k, t, n = lift(x)
    from .core import to_kind
    return CVal(SV("f", to_kind(t, k, "f"), n), SV("f", z3.RealVal(0)))


def neg(x):
    return unop("neg", x)


def cop(op, a, b):
    lin = None
    for u, v in ((a, b), (b, a)):
        if isinstance(u, CVal) and u.lin is not None and not is_c(v) and not isinstance(v, (SArr, list, tuple)):
            if op == "mul":
                lin = (binop("mul", u.lin[0], v), u.lin[1])
            elif op == "div" and u is a:
                lin = (binop("div", u.lin[0], v), u.lin[1])
    ra = not is_c(a)
    rb = not is_c(b)
    if op in ("add", "sub"):
        x, y = as_c(a), as_c(b)
        return CVal(binop(op, x.re, y.re), binop(op, x.im, y.im))
    if op == "mul":
        if ra:
            y = as_c(b)
            return CVal(binop("mul", a, y.re), binop("mul", a, y.im), lin)
        if rb:
            x = as_c(a)
            return CVal(binop("mul", x.re, b), binop("mul", x.im, b), lin)
        x, y = as_c(a), as_c(b)
        return CVal(binop("sub", binop("mul", x.re, y.re), binop("mul", x.im, y.im)), binop("add", binop("mul", x.re, y.im), binop("mul", x.im, y.re)))
    if op == "div":
        if rb:
            x = as_c(a)
            return CVal(binop("div", x.re, b), binop("div", x.im, b), lin)
        x, y = as_c(a), as_c(b)
        d = binop("add", binop("mul", y.re, y.re), binop("mul", y.im, y.im))
        n = cop("mul", x, CVal(y.re, neg(y.im)))
        return CVal(binop("div", n.re, d), binop("div", n.im, d))
    if op == "pow" and isinstance(b, int) and 0 < b < 5:
        r = as_c(a)
        for _ in range(b - 1):
            r = cop("mul", r, a)
        return r
    if op in ("eq", "ne"):
        x, y = as_c(a), as_c(b)
        r = binop("and", binop("eq", x.re, y.re), binop("eq", x.im, y.im))
        return r if op == "eq" else unop("lnot", r)
    raise Unsupported("complex %s" % op)


class CVal:
    __array_ufunc__ = None

    def __init__(self, re, im, lin=None):
        self.re, self.im, self.lin = re, im, lin

    # ---- array protocol
    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    @property
    def shape(self):
        return as_sarr(self.re).shape

    @property
    def ndim(self):
        return as_sarr(self.re).ndim

    @property
    def size(self):
        return as_sarr(self.re).size

    @property
    def axes(self):
        return as_sarr(self.re).axes

    def slen(self):
        return self.re.slen()

    def copy(self):
        return CVal(self.re.copy(), self.im.copy(), self.lin) if isinstance(self.re, SArr) else self

    def astype(self, dt, **k):
        return self.copy()

    def conj(self):
        return CVal(self.re, neg(self.im))

    conjugate = conj

    def ravel(self):
        return CVal(self.re.ravel(), self.im.ravel())

    def sum(self, axis=None, **k):
        return CVal(reduce_("sum", self.re, axis), reduce_("sum", self.im, axis))

    def at(self, *idx):
        return CVal(self.re.at(*idx), self.im.at(*idx))

    def __getitem__(self, k):
        return CVal(self.re[k], self.im[k])

    def __setitem__(self, k, v):
        c = as_c(v)
        self.re[k] = c.re
        self.im[k] = c.im
        self.lin = None

    def __hash__(self):
        return id(self)

    def __add__(self, o): return cop("add", self, o)
    def __radd__(self, o): return cop("add", o, self)
    def __sub__(self, o): return cop("sub", self, o)
    def __rsub__(self, o): return cop("sub", o, self)
    def __mul__(self, o): return cop("mul", self, o)
    def __rmul__(self, o): return cop("mul", o, self)
    def __truediv__(self, o): return cop("div", self, o)
    def __rtruediv__(self, o): return cop("div", o, self)
    def __pow__(self, o): return cop("pow", self, o)
    def __eq__(self, o): return cop("eq", self, o)
    def __ne__(self, o): return cop("ne", self, o)
    def __neg__(self): return CVal(neg(self.re), neg(self.im))
    def __pos__(self): return self

    def _inplace(self, op, o):
        r = cop(op, self, o)
        if isinstance(self.re, SArr):
            self.re[...] = r.re
            self.im[...] = r.im
            self.lin = None
            return self
        return r

    def __iadd__(self, o): return self._inplace("add", o)
    def __isub__(self, o): return self._inplace("sub", o)
    def __imul__(self, o): return self._inplace("mul", o)
    def __itruediv__(self, o): return self._inplace("div", o)


def cabs(c):
    return unop("sqrt", binop("add", binop("mul", c.re, c.re), binop("mul", c.im, c.im)))


def cexp(c):
    m = unop("exp", c.re)
    return CVal(binop("mul", m, unop("cos", c.im)), binop("mul", m, unop("sin", c.im)))


# ---------------------------------------------------------------- Fourier transforms
class Dft:
    """one recorded transform: out = T(inp), T identified by direction and axes"""

    def __init__(self, inv, axes, inp, out):
        self.inv, self.axes, self.inp, self.out = inv, axes, inp, out


def elementwise_equal(ctx, x, y):
    if len(x.axes) != len(y.axes):
        return False
    idx, rng = [], []
    for p, q in zip(x.axes, y.axes):
        if len(p.dims) != 1 or len(q.dims) != 1 or p.pred is not None or q.pred is not None:
            return False
        if not ctx.valid(zi(p.dims[0]) == zi(q.dims[0])):
            return False
        i = FInt("e")
        idx.append((i,))
        rng += [i >= 0, i < zi(p.dims[0])]
    idx = tuple(idx)
    base = len(ctx.pc)
    ctx.pc.extend(rng)
    try:
        for a, b in ((x.re, y.re), (x.im, y.im)):
            ta, na = a.reader()(idx)
            tb, nb = b.reader()(idx)
            if ta.eq(tb):
                continue
            if na is not None or nb is not None:
                raise Unsupported("transform of values that may be nan")
            if not ctx.prove(ta == tb):
                return False
        return True
    finally:
        del ctx.pc[base:]


def transform(x, inv, axes):
    """axes: tuple of axis numbers"""
    from .npshim import used
    ctx = CTX()
    used("numpy.fft: transforms are functions of their input, forward and inverse transforms over the same axes are mutually inverse and linear in scalar factors")
    c = as_c(x)
    for a in c.axes:
        if a.pred is not None or len(a.dims) != 1:
            raise Unsupported("Fourier transform of a selection")
    if c.lin is not None and c.lin[1].inv != inv and c.lin[1].axes == axes:
        return cop("mul", c.lin[1].inp.copy(), c.lin[0])
    recs = ctx.ghost.setdefault("dft", [])
    for r in recs:
        if r.inv == inv and r.axes == axes and elementwise_equal(ctx, r.inp, c):
            o = r.out.copy()
            o.lin = (SV("f", z3.RealVal(1)), r)
            return o
    n = c.ndim
    fr = z3.Function(fresh_name("dftR"), *([z3.IntSort()] * n + [z3.RealSort()]))
    fi = z3.Function(fresh_name("dftI"), *([z3.IntSort()] * n + [z3.RealSort()]))
    out = CVal(SArr(c.axes, Storage(lambda idx: (fr(*[k[0] for k in idx]), None), "f")),
               SArr(c.axes, Storage(lambda idx: (fi(*[k[0] for k in idx]), None), "f")))
    r = Dft(inv, axes, c.copy(), out.copy())
    recs.append(r)
    out.lin = (SV("f", z3.RealVal(1)), r)
    return out


def shift(x, sign, axes=None):
    c = isinstance(x, CVal)
    A = x if c else as_sarr(x)
    nd = A.ndim
    axes = range(nd) if axes is None else ([axes % nd] if isinstance(axes, int) else [a % nd for a in axes])
    axes = set(axes)

    def one(B):
        rd = B.reader()
        ax = B.axes

        def fn(idx):
            out = []
            for p, k in enumerate(idx):
                if p not in axes:
                    out.append(k)
                    continue
                n = zi(ax[p].dims[0])
                h = n / 2
                i = k[0]
                if sign > 0:    # fftshift: out[i] = x[(i - n//2) mod n]
                    out.append((z3.simplify(zite(i >= h, i - h, i - h + n)),))
                else:
                    out.append((z3.simplify(zite(i + h < n, i + h, i + h - n)),))
            return rd(tuple(out))
        return SArr(ax, Storage(fn, B.kind))
    for a in A.axes:
        if len(a.dims) != 1 or a.pred is not None:
            raise Unsupported("fftshift of a selection")
    return CVal(one(A.re), one(A.im)) if c else one(A)


class FFT:
    @staticmethod
    def _ax(x, axes, default):
        nd = x.ndim if isinstance(x, CVal) else as_sarr(x).ndim
        if axes is None:
            axes = default(nd)
        return tuple(sorted(a % nd for a in axes))

    def fft(self, x, n=None, axis=-1, **k):
        self._no(n, k)
        return transform(x, False, self._ax(x, (axis,), None))

    def ifft(self, x, n=None, axis=-1, **k):
        self._no(n, k)
        return transform(x, True, self._ax(x, (axis,), None))

    def fft2(self, x, s=None, axes=(-2, -1), **k):
        self._no(s, k)
        return transform(x, False, self._ax(x, axes, None))

    def ifft2(self, x, s=None, axes=(-2, -1), **k):
        self._no(s, k)
        return transform(x, True, self._ax(x, axes, None))

    def fftn(self, x, s=None, axes=None, **k):
        self._no(s, k)
        return transform(x, False, self._ax(x, axes, range))

    def ifftn(self, x, s=None, axes=None, **k):
        self._no(s, k)
        return transform(x, True, self._ax(x, axes, range))

    def _no(self, s, k):
        if s is not None or k:
            raise Unsupported("Fourier transform options")

    def fftshift(self, x, axes=None):
        return shift(x, 1, axes)

    def ifftshift(self, x, axes=None):
        return shift(x, -1, axes)

    def __getattr__(self, n):
        from .npshim import NotModelled
        if n.startswith("__"):
            raise AttributeError(n)
        return NotModelled("numpy.fft." + n)
