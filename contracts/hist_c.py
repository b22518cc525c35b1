"""Contracts: the histogram accumulator (skbeam/core/accumulators/histogram.pyx, translated mechanically by pyvc.pyx)."""
import z3

from pyvc.arr import as_sarr, zi
from pyvc.core import CTX, SV, Unsupported, cast, lift, uf, zand, zimp, znot, zor
from pyvc.npshim import np as N
from pyvc.solve import DYN_AX
from pyvc.verify import contract

H = "skbeam.core.accumulators.histogram"


# ------------------------------------------------------------ which bin a coordinate is in
def _find(V, kind):
    n = V.int("nbin", 1)
    low, high, bs = V.real("low"), V.real("high"), V.real("binsize", gt=0)
    V.assume(bs * n == high - low)
    pos = V.real("pos") if kind == "f" else V.anyint_in("pos")
    for p in V.paths(lambda: V.fn()(pos, low, high, bs, n)):
        if not p.returned():
            continue
        r = p.ret if isinstance(p.ret, SV) else SV("i", z3.IntVal(int(p.ret)))
        inside = zand(low <= pos, pos < high)
        p.ensure("outside", zimp(znot(inside), r == -1))
        p.ensure("in-bin-array", zimp(inside, zand(r >= 0, r < n)))
        p.ensure("lower-edge", zimp(inside, low + r * bs <= pos))
        p.ensure("upper-edge", zimp(inside, pos < low + (r + 1) * bs))


@contract("P09", H + ":find_indices")
def find_indices(V):
    _find(V, "f")


@contract("P09", H + ":find_indices")
def find_indices_int(V):
    _find(V, "i")


@contract("P09", H + ":find_indices")
def find_indices_nan(V):
    n = V.int("nbin", 1)
    low, high, bs = V.real("low"), V.real("high"), V.real("binsize", gt=0)
    pos = SV("f", z3.Real("pos"), z3.BoolVal(True))
    for p in V.paths(lambda: V.fn()(pos, low, high, bs, n)):
        p.ensure("nan-outside", p.kind == "ret" and p.ret == -1)


def finder(V):
    """the contract of find_indices as a function of its arguments"""
    R = z3.RealSort()
    F = uf("find_indices", R, R, R, R, z3.IntSort(), z3.IntSort())

    def axiom(app, others):
        pos, low, high, bs, n = [app.arg(k) for k in range(5)]
        inside = z3.And(low <= pos, pos < high)
        return [z3.Implies(z3.Not(inside), app == -1), z3.Implies(z3.And(inside, n >= 1), z3.And(app >= 0, app < n)), app >= -1]
    DYN_AX[F.name()] = axiom

    def f(pos, low, high, bs, n):
        a = [as_sarr(x).item() if not isinstance(x, SV) and hasattr(x, "axes") else x for x in (pos, low, high, bs, n)]
        nan = lift(a[0])[2]
        if nan is not None:
            raise Unsupported("NaN coordinate")
        # precondition: the bins divide the range
        k, t, _ = lift(a[4])
        return SV("i", F(*([cast(SV(*lift(x)[:2]), "f").t for x in a[:4]] + [t])))
    return f


def make(V, d, vals=True, **kw):
    """a histogram of d axes with arbitrary contents"""
    mod = V.module(extra_stubs={H + ":find_indices": finder(V)}, **kw)
    h = object.__new__(mod.Histogram)
    ns = [V.int("n%d" % k, 1) for k in range(d)]
    lo = [V.real("low%d" % k) for k in range(d)]
    hi = [V.real("high%d" % k) for k in range(d)]
    bs = [V.real("bs%d" % k, gt=0) for k in range(d)]
    for k in range(d):
        V.assume(bs[k] * ns[k] == hi[k] - lo[k])
    h.ndims = d
    v0 = V.arr("values", tuple(ns), "f")
    h._nbins = N.array([n for n in ns], dtype=N.dtype("i"))
    h._lows, h._highs, h._binsizes = [N.array(x, dtype=N.dtype(float)) for x in (lo, hi, bs)]
    return mod, h, v0, ns, lo, hi, bs


def _fill(d, wk, name):
    def c(V):
        mod, h, v0, ns, lo, hi, bs = make(V, d)
        m = V.int("m", 1)
        xs = [V.arr("x%d" % k, (m,), "f") for k in range(d)]
        if wk == "one":
            args, w = {}, (lambda i: 1)
        elif wk == "scalar":
            s = V.real("w")
            args, w = {"weights": s}, (lambda i: s)
        else:
            a = V.arr("w", (m,), "f")
            args, w = {"weights": a}, (lambda i: a.at(i))

        def call():
            h._values = v0.copy()
            h.fill(*xs, **args)
            return h._values
        F = finder(V)
        for p in V.paths(call):
            if not p.returned():
                continue
            V.frame(p)
            v = p.ret
            b = [V.index(n) for n in ns]

            def mine(i):
                return zand(*[F(xs[k].at(i), lo[k], hi[k], bs[k], ns[k]) == b[k] for k in range(d)])
            p.ensure("adds-the-weights-of-its-samples", v.at(*b) == v0.at(*b) + V.sum((m,), lambda i: V.ite(mine(i), w(i), 0.0)))
    c.__name__ = name
    return c


for _d in (1, 2):
    for _w in ("one", "scalar", "array"):
        contract("P09", H + (":Histogram._fill%dd" % _d))(_fill(_d, _w, "fill_%dd_%s" % (_d, _w)))


def _filln(kinds, wk, name, force=False):
    d = len(kinds)

    def c(V):
        mod, h, v0, ns, lo, hi, bs = make(V, d)
        m = V.int("m", 1)
        xs = [V.arr("x%d" % k, (m,), kinds[k]) for k in range(d)]
        if force:
            h._always_use_fillnd = True
        a = V.arr("w", (m,), "f") if wk == "array" else None

        def call():
            h._values = v0.copy()
            h.fill(*xs, **({"weights": a} if a is not None else {}))
            return h._values
        F = finder(V)
        for p in V.paths(call):
            if not p.returned():
                continue
            V.frame(p)
            v = p.ret
            b = [V.index(n) for n in ns]

            def mine(i):
                return zand(*[F(xs[k].at(i), lo[k], hi[k], bs[k], ns[k]) == b[k] for k in range(d)])
            p.ensure("adds-the-weights-of-its-samples",
                     v.at(*b) == v0.at(*b) + V.sum((m,), lambda i: V.ite(mine(i), a.at(i) if a is not None else 1.0, 0.0)))
    c.__name__ = name
    return c


for _k in ("fff", "fif", "iif", "iii"):
    contract("P09", H + ":Histogram._fillnd")(_filln(_k, "array", "fill_nd_" + _k))
contract("P09", H + ":Histogram._fillnd")(_filln("fff", "one", "fill_nd_one"))
contract("P09", H + ":Histogram._fillnd")(_filln("fi", "array", "fill_nd_2", True))
contract("P09", H + ":Histogram._fillnd")(_filln("f", "array", "fill_nd_1", True))
contract("P09", H + ":Histogram._fillnd")(_filln("ffff", "array", "fill_nd_4"))


# ------------------------------------------------------------ construction, reset, edges
def _init(d):
    def c(V):
        ns = [V.int("n%d" % k, 1) for k in range(d)]
        lo = [V.real("low%d" % k) for k in range(d)]
        hi = [V.real("high%d" % k) for k in range(d)]
        for k in range(d):
            V.assume(lo[k] < hi[k])
        mod = V.module()
        for p in V.paths(lambda: mod.Histogram(*[(ns[k], lo[k], hi[k]) for k in range(d)])):
            if not p.returned():
                continue
            h = p.ret
            b = [V.index(n) for n in ns]
            p.ensure("empty", h.values.at(*b) == 0)
            p.ensure("shape", zand(len(h.values.shape) == d, *[zi(h.values.shape[k]) == ns[k].t for k in range(d)]))
            p.ensure("dimensions", h.ndims == d)
            from pyvc.ptr import contiguous
            p.ensure("contiguous", contiguous(h._values))
            for k in range(d):
                p.ensure("axis-%d" % k, zand(h._nbins.at(k) == ns[k], h._lows.at(k) == lo[k], h._highs.at(k) == hi[k]))
                p.ensure("bins-divide-the-range-%d" % k, zand(h._binsizes.at(k) * ns[k] == hi[k] - lo[k], h._binsizes.at(k) > 0))
                e, cn = h.edges[k], h.centers[k]
                i = V.index(ns[k] + 1)
                j = V.index(ns[k])
                p.ensure("edge-count-%d" % k, zand(zi(e.shape[0]) == ns[k].t + 1, zi(cn.shape[0]) == ns[k].t))
                p.ensure("edges-%d" % k, (e.at(i) - lo[k]) * ns[k] == (hi[k] - lo[k]) * i)
                p.ensure("centers-%d" % k, (cn.at(j) - lo[k]) * ns[k] * 2 == (hi[k] - lo[k]) * (j * 2 + 1))
    c.__name__ = "init_%dd" % d
    return c


for _d in (1, 2, 3):
    contract("P09", H + ":Histogram.__init__")(_init(_d))


@contract("P09", H + ":Histogram.__init__")
def init_too_many(V):
    mod = V.module()
    for p in V.paths(lambda: mod.Histogram(*[(2, 0.0, 1.0)] * (mod.MAX_DIMENSIONS + 1))):
        p.raises(ValueError, "too-many-dimensions-rejected")


@contract("P09", H + ":Histogram.reset")
def reset(V):
    mod, h, v0, ns, lo, hi, bs = make(V, 2)

    def call():
        h._values = v0.copy()
        h.reset()
        return h._values
    for p in V.paths(call):
        if p.returned():
            p.ensure("empty", p.ret.at(V.index(ns[0]), V.index(ns[1])) == 0)


# ------------------------------------------------------------ what is accepted and what is rejected
def _one(form):
    """a single sample given as a Python number or in lists"""
    def c(V):
        mod, h, v0, ns, lo, hi, bs = make(V, 2)
        if form == "int":
            x = [V.anyint_in("x"), V.anyint_in("y")]
            args, n = x, 1
        elif form == "mixed":
            x = [V.anyint_in("x"), V.real("y")]
            args, n = x, 1
        elif form == "float":
            x = [V.real("x"), V.real("y")]
            args, n = x, 1
        else:
            xs, ys = [V.real("x%d" % k) for k in range(3)], [V.real("y%d" % k) for k in range(3)]
            args, n = ([xs, ys] if form == "list" else [tuple(xs), tuple(ys)]), 3

        def call():
            h._values = v0.copy()
            h.fill(*args)
            return h._values
        F = finder(V)
        for p in V.paths(call):
            if not p.returned():
                continue
            b = [V.index(k) for k in ns]
            tot = v0.at(*b)
            for k in range(n):
                pt = [args[0], args[1]] if n == 1 else [args[0][k], args[1][k]]
                tot = tot + V.ite(zand(*[F(pt[q], lo[q], hi[q], bs[q], ns[q]) == b[q] for q in range(2)]), 1.0, 0.0)
            p.ensure("counts-the-sample", p.ret.at(*b) == tot)
    c.__name__ = "fill_" + form
    return c


for _f in ("int", "float", "mixed", "list", "tuple"):
    contract("P09", H + ":Histogram.fill")(_one(_f))


@contract("P09", H + ":Histogram.fill")
def fill_rejects_dimensions(V):
    mod, h, v0, ns, lo, hi, bs = make(V, 2)
    m = V.int("m", 1)
    x = V.arr("x", (m,), "f")
    h._values = v0
    for p in V.paths(lambda: h.fill(x)):
        p.raises(ValueError, "number-of-coordinates")
        V.frame(p)
    for p in V.paths(lambda: h.fill(x, x, x)):
        p.raises(ValueError, "number-of-coordinates")
        V.frame(p)


@contract("P09", H + ":Histogram.fill")
def fill_rejects_lengths(V):
    mod, h, v0, ns, lo, hi, bs = make(V, 2)
    m, m2 = V.int("m", 1), V.int("m2", 1)
    V.assume(m != m2)
    h._values = v0
    for p in V.paths(lambda: h.fill(V.arr("x", (m,), "f"), V.arr("y", (m2,), "f"))):
        p.raises(ValueError, "coordinate-lengths-differ")
        V.frame(p)


@contract("P09", H + ":Histogram.fill")
def fill_rejects_weights(V):
    mod, h, v0, ns, lo, hi, bs = make(V, 1)
    m, m2 = V.int("m", 1), V.int("m2", 1)
    V.assume(zand(m != m2, m2 != 1))
    h._values = v0
    for p in V.paths(lambda: h.fill(V.arr("x", (m,), "f"), weights=V.arr("w", (m2,), "f"))):
        p.raises(ValueError, "weight-length-differs")
        V.frame(p)
