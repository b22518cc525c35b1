"""Contracts: region-of-interest label arrays (skbeam/core/roi.py)."""
import z3

from pyvc.arr import flatten, sym_arr, zi
from pyvc.core import CTX, FBool, SV, Unsupported, fresh_name, uf, zand, zb, zimp, znot, zor
from pyvc.seq import symiter
from pyvc.verify import contract

ROI = "skbeam.core.roi"
UT = "skbeam.core.utils"


def sq(x):
    return x * x


def rdist(i, j, cx, cy, px=1, py=1):
    """|| (px*(i-cx), py*(j-cy)) ||"""
    a, b = px * (i - cx), py * (j - cy)
    return SV("f", uf("sqrt")((SV("f", z3.RealVal(0)) + a * a + b * b).t))


@contract("P01", UT + ":radial_grid")
def radial_grid(V):
    r, c = V.int("rows", 1), V.int("cols", 1)
    cx, cy = V.real("cx"), V.real("cy")
    px, py = V.real("px", gt=0), V.real("py", gt=0)
    for p in V.paths(lambda: V.fn()((cx, cy), (r, c), (px, py))):
        if not p.returned():
            continue
        a = p.ret
        p.ensure("shape", zand(len(a.axes) == 2, zi(a.shape[0]) == r.t, zi(a.shape[1]) == c.t))
        i, j = V.index(r), V.index(c)
        d = a.at(i, j)
        p.ensure("distance", zand(d >= 0, d * d == sq(px * (i - cx)) + sq(py * (j - cy))))


@contract("P01", ROI + ":rings")
def rings(V):
    m = V.int("m", 1)
    r, c = V.int("rows", 1), V.int("cols", 1)
    cx, cy = V.real("cx"), V.real("cy")
    e = V.arr("edges", (2 * m,), "f")
    V.assume(V.forall((2 * m - 1,), lambda k: e.at(k) <= e.at(k + 1)))
    for p in V.paths(lambda: V.fn()(e, (cx, cy), (r, c))):
        if not p.returned():
            continue
        V.frame(p)
        a = p.ret
        p.ensure("shape", zand(len(a.axes) == 2, zi(a.shape[0]) == r.t, zi(a.shape[1]) == c.t))
        i, j = V.index(r), V.index(c)
        k = V.index(m, "k")
        lab = a.at(i, j)
        d = rdist(i, j, cx, cy)
        p.ensure("inside-ring-k", zimp(zand(e.at(2 * k) <= d, d < e.at(2 * k + 1)), lab == k + 1))
        p.ensure("label-range", zand(lab >= 0, lab <= m))
        p.ensure("labelled-implies-inside", zimp(lab >= 1, zand(e.at(2 * lab - 2) <= d, d < e.at(2 * lab - 1))))


def _bar(V, horizontal, given):
    m = V.int("m", 1)
    r, c = V.int("rows", 1), V.int("cols", 1)
    e = V.arr("edges", (2 * m,), "f")
    V.assume(V.forall((2 * m - 1,), lambda k: e.at(k) <= e.at(k + 1)))
    kw = {}
    if given:
        vals = V.arr("values", (r, c), "f")
        kw["values"] = vals
    for p in V.paths(lambda: V.fn()(e, (r, c), horizontal=horizontal, **kw)):
        if not p.returned():
            continue
        V.frame(p)
        a = p.ret
        p.ensure("shape", zand(len(a.axes) == 2, zi(a.shape[0]) == r.t, zi(a.shape[1]) == c.t))
        i, j = V.index(r), V.index(c)
        k = V.index(m, "k")
        lab = a.at(i, j)
        d = vals.at(i, j) if given else (i if horizontal else j)
        p.ensure("inside-bar-k", zimp(zand(e.at(2 * k) <= d, d < e.at(2 * k + 1)), lab == k + 1))
        p.ensure("label-range", zand(lab >= 0, lab <= m))
        p.ensure("labelled-implies-inside", zimp(lab >= 1, zand(e.at(2 * lab - 2) <= d, d < e.at(2 * lab - 1))))


@contract("P01", ROI + ":bar")
def bar_h(V):
    _bar(V, True, False)


@contract("P01", ROI + ":bar")
def bar_v(V):
    _bar(V, False, False)


@contract("P01", ROI + ":bar")
def bar_values_h(V):
    _bar(V, True, True)


@contract("P01", ROI + ":bar")
def bar_values_v(V):
    _bar(V, False, True)


def _rejects(V, call):
    """odd-length or decreasing edge lists raise ValueError"""
    n = V.int("n", 1)
    e = V.arr("edges", (n,), "f")
    w = V.anyint("w")
    V.assume(zor(n % 2 == 1, zand(w >= 0, w + 1 < n, e.at(w) > e.at(w + 1))))
    for p in V.paths(lambda: call(e)):
        p.raises(ValueError, "invalid-edges-rejected")


@contract("P01", ROI + ":rings")
def rings_rejects(V):
    r, c = V.int("rows", 1), V.int("cols", 1)
    _rejects(V, lambda e: V.fn()(e, (V.real("cx"), V.real("cy")), (r, c)))


@contract("P01", ROI + ":bar")
def bar_rejects(V):
    r, c = V.int("rows", 1), V.int("cols", 1)
    _rejects(V, lambda e: V.fn()(e, (r, c)))


@contract("P03", ROI + ":segmented_rings")
def segmented_rejects(V):
    r, c = V.int("rows", 1), V.int("cols", 1)
    _rejects(V, lambda e: V.fn()(e, V.int("nseg", 1), (V.real("cx"), V.real("cy")), (r, c)))


# ---------------------------------------------------------------- rectangles
@contract("P02", ROI + ":rectangles")
def rectangles(V):
    n = V.int("n", 0)
    r, c = V.int("rows", 1), V.int("cols", 1)
    co = V.arr("coords", (n, 4), "i")
    V.assume(V.forall((n,), lambda k: zand(co.at(k, 2) >= 0, co.at(k, 3) >= 0)))

    def inside(k, i, j):
        return zand(co.at(k, 0) <= i, i < co.at(k, 0) + co.at(k, 2), co.at(k, 1) <= j, j < co.at(k, 1) + co.at(k, 3))
    for p in V.paths(lambda: V.fn()(co, (r, c))):
        V.frame(p)
        i, j = V.index(r), V.index(c)
        if p.kind == "exc":
            if p.raises(ValueError):
                def meet(a, b, s, e, hi):
                    lo1, hi1, lo2, hi2 = co.at(a, s), co.at(a, s) + co.at(a, e), co.at(b, s), co.at(b, s) + co.at(b, e)
                    return zand(lo1 < hi1, lo2 < hi2, lo1 < hi2, lo2 < hi1, lo1 < hi, lo2 < hi, hi1 > 0, hi2 > 0)
                p.ensure("raises-only-on-overlap", V.exists(
                    (n, n), lambda a, b: zand(a < b, meet(a, b, 0, 2, r), meet(a, b, 1, 3, c))))
            continue
        a = p.ret
        p.ensure("shape", zand(len(a.axes) == 2, zi(a.shape[0]) == r.t, zi(a.shape[1]) == c.t))
        k, l = V.index(n, "k"), V.index(n, "l")
        lab = a.at(i, j)
        p.ensure("no-overlap", zimp(zand(inside(k, i, j), inside(l, i, j)), k == l))
        p.ensure("inside-labelled", zimp(inside(k, i, j), lab == k + 1))
        p.ensure("labelled-inside", zand(lab >= 0, lab <= n, zimp(lab >= 1, inside(lab - 1, i, j))))


def rectangles_contract(V):
    """the contract proved for `rectangles` above, as its callers see it"""
    def rectangles(coords, shape):
        ctx = CTX()
        si = symiter(coords)
        if si is None:
            items = [list(x) for x in coords]
            raise Unsupported("rectangles stub: concrete coordinate list")
        ax, item = si
        if ax.pred is not None:
            raise Unsupported("rectangles stub: filtered coordinate list")

        def quad(c):
            x = item(c)
            return [SV("i", zi(q)) for q in (x if isinstance(x, (tuple, list)) else [x[k] for k in range(4)])]
        r, c = shape
        ctx.oblige("rectangles-precondition", V.forall(ax.dims, lambda *k: (lambda q: zand(q[2] >= 0, q[3] >= 0))(quad([zi(x) for x in k]))))
        if SV("b", FBool("overlap")):
            raise ValueError("overlapping ROIs")
        lab = sym_arr(fresh_name("rect"), (r, c), "i")

        def facts(*a):
            k, i, j = [zi(x) for x in a[:-2]], a[-2], a[-1]
            q = quad(k)
            return zimp(zand(q[0] <= i, i < q[0] + q[2], q[1] <= j, j < q[1] + q[3]), lab.at(i, j) == SV("i", flatten(k, ax.dims)) + 1)
        ctx.assume(zb(V.forall(tuple(ax.dims) + (r, c), facts)))
        ctx.assume(zb(V.forall((r, c), lambda i, j: zand(lab.at(i, j) >= 0, zimp(lab.at(i, j) >= 1, V.exists(
            ax.dims, lambda *k: (lambda q: zand(lab.at(i, j) == SV("i", flatten([zi(x) for x in k], ax.dims)) + 1, q[0] <= i, i < q[0] + q[2],
                                                q[1] <= j, j < q[1] + q[3]))(quad([zi(x) for x in k]))))))))
        return lab
    return rectangles


# ---------------------------------------------------------------- ring_edges
def _ring_edges(V, wl, sl, given):
    n = V.int("n", 1)
    r0 = V.real("inner")
    w = V.arr("width", (n,), "f") if wl else V.real("width")
    s = V.arr("spacing", (n - 1,), "f") if sl else V.real("spacing")
    nr = n if given else None
    for p in V.paths(lambda: V.fn()(r0, w, s, nr)):
        if not p.returned():
            continue
        V.frame(p)
        e = p.ret
        p.ensure("shape", zand(len(e.axes) == 2, zi(e.shape[0]) == n.t, zi(e.shape[1]) == 2))
        p.ensure("first-inner", e.at(0, 0) == r0)
        k = V.index(n, "k")
        p.ensure("width", e.at(k, 1) - e.at(k, 0) == (w.at(k) if wl else w))
        p.ensure("spacing", zimp(k + 1 < n, e.at(k + 1, 0) - e.at(k, 1) == (s.at(k) if sl else s)))


@contract("P04", ROI + ":ring_edges")
def edges_const(V):
    _ring_edges(V, False, False, True)


@contract("P04", ROI + ":ring_edges")
def edges_wlist(V):
    _ring_edges(V, True, False, False)


@contract("P04", ROI + ":ring_edges")
def edges_slist(V):
    _ring_edges(V, False, True, False)


@contract("P04", ROI + ":ring_edges")
def edges_both(V):
    _ring_edges(V, True, True, False)


@contract("P04", ROI + ":ring_edges")
def edges_both_n(V):
    _ring_edges(V, True, True, True)


@contract("P04", ROI + ":ring_edges")
def edges_wlist_n(V):
    _ring_edges(V, True, False, True)


@contract("P04", ROI + ":ring_edges")
def edges_slist_n(V):
    _ring_edges(V, False, True, True)


@contract("P04", ROI + ":ring_edges")
def edges_mismatch(V):
    n, m = V.int("n", 1), V.int("m", 1)
    k = V.int("k", 1)
    V.assume(zor(m != n - 1, k != n))
    w, s = V.arr("width", (n,), "f"), V.arr("spacing", (m,), "f")
    for p in V.paths(lambda: V.fn()(V.real("inner"), w, s, k)):
        p.raises(ValueError, "inconsistent-lengths-rejected")


@contract("P04", ROI + ":ring_edges")
def edges_uninferable(V):
    for p in V.paths(lambda: V.fn()(V.real("inner"), V.real("width"), V.real("spacing"))):
        p.raises(ValueError, "missing-count-rejected")


# ---------------------------------------------------------------- box
@contract("P02", ROI + ":box")
def box(V):
    _box(V, False)


@contract("P02", ROI + ":box")
def box_same_edges(V):
    _box(V, True)


def _box(V, same):
    mv = V.int("mv", 0)
    mh = mv if same else V.int("mh", 0)
    r, c = V.int("rows", 1), V.int("cols", 1)
    v = V.arr("v_edges", (mv, 2), "i")
    h = v if same else V.arr("h_edges", (mh, 2), "i")
    V.assume(V.forall((mh,), lambda k: h.at(k, 0) <= h.at(k, 1)))
    V.assume(V.forall((mv,), lambda k: v.at(k, 0) <= v.at(k, 1)))
    fn = V.fn(extra_stubs={ROI + ":rectangles": rectangles_contract(V)})
    for p in V.paths(lambda: fn((r, c), v) if same else fn((r, c), v, h)):
        V.frame(p)
        if p.kind == "exc":
            p.raises(ValueError)
            continue
        a = p.ret
        p.ensure("shape", zand(len(a.axes) == 2, zi(a.shape[0]) == r.t, zi(a.shape[1]) == c.t))
        i, j = V.index(r), V.index(c)
        a_, b_ = V.index(mh, "a"), V.index(mv, "b")
        lab = a.at(i, j)
        p.ensure("labelled-inside", zimp(lab != 0, V.exists((mh, mv), lambda a, b: zand(
            lab == a * mv + b + 1, h.at(a, 0) <= i, i < h.at(a, 1), v.at(b, 0) <= j, j < v.at(b, 1)))))
        p.ensure("inside-labelled", zimp(zand(h.at(a_, 0) <= i, i < h.at(a_, 1), v.at(b_, 0) <= j, j < v.at(b_, 1)), lab == a_ * mv + b_ + 1))


# ---------------------------------------------------------------- segmented rings
def _segmented(V, given):
    m = V.int("m", 1)
    r, c = V.int("rows", 1), V.int("cols", 1)
    cx, cy = V.real("cx"), V.real("cy")
    e = V.arr("edges", (2 * m,), "f")
    V.sorted(e, 2 * m)
    ns = V.int("nseg", 1)
    off = V.real("offset")
    pi = SV("f", z3.Real("pi"))
    V.assume(zand(off > -2 * pi, off < 2 * pi))
    if given:
        seg = V.arr("segments", (ns + 1,), "f")
        V.sorted(seg, ns + 1, True)
        V.assume(zand(seg.at(0) + off >= -2 * pi, seg.at(0) + off <= 2 * pi))
        edge = lambda k: seg.at(k) + off
    else:
        seg = ns
        edge = lambda k: 2 * pi * k / ns + off
    for p in V.paths(lambda: V.fn()(e, seg, (cx, cy), (r, c), offset_angle=off)):
        if not p.returned():
            continue
        V.frame(p)
        a = p.ret
        p.ensure("shape", zand(len(a.axes) == 2, zi(a.shape[0]) == r.t, zi(a.shape[1]) == c.t))
        i, j = V.index(r), V.index(c)
        k, s = V.index(m, "k"), V.index(ns, "s")
        lab = a.at(i, j)
        d = rdist(i, j, cx, cy)
        t = SV("f", uf("arctan2")((SV("f", z3.RealVal(0)) + i - cx).t, (SV("f", z3.RealVal(0)) + j - cy).t))
        for turns in (-1, 0, 1, 2):
            w = t + 2 * pi * turns
            p.ensure("cell-%d" % turns, zimp(zand(e.at(2 * k) <= d, d < e.at(2 * k + 1), w >= edge(0), w < edge(0) + 2 * pi, edge(s) <= w, w < edge(s + 1)),
                                             lab == k * ns + s + 1))
            if given:
                p.ensure("uncovered-%d" % turns, zimp(zand(w >= edge(ns), w < edge(0) + 2 * pi), lab == 0))
        p.ensure("outside-rings", zimp(V.forall((m,), lambda q: znot(zand(e.at(2 * q) <= d, d < e.at(2 * q + 1)))), lab == 0))


@contract("P03", ROI + ":segmented_rings")
def segmented_n(V):
    _segmented(V, False)


@contract("P03", ROI + ":segmented_rings")
def segmented_list(V):
    _segmented(V, True)
