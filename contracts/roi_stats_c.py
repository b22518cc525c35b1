"""Contracts: ROI extraction and statistics (skbeam/core/roi.py)."""
import z3

from pyvc.arr import SArr, flatten, zi
from pyvc.core import SV, Unsupported, zand, zimp, znot, zor
from pyvc.seq import symiter
from pyvc.verify import contract

ROI = "skbeam.core.roi"


def sel(a, idx, dims):
    """a: 1-d selection in row-major order over `dims`; (selected?, value) at the multi-index idx"""
    ax = a.axes[0]
    if len(a.axes) != 1:
        raise Unsupported("selection is not one-dimensional")
    if len(ax.dims) == len(dims):
        comps = tuple(zi(x) for x in idx)
    elif len(ax.dims) == 1:
        comps = (flatten([zi(x) for x in idx], [zi(d) for d in dims]),)
    else:
        raise Unsupported("selection layout")
    p = ax.pred(comps) if ax.pred else z3.BoolVal(True)
    return SV("b", p), SV(a.kind, *a.reader()((comps,))), ax


@contract("P05", ROI + ":extract_label_indices")
def extract_label_indices(V):
    r, c = V.int("rows", 1), V.int("cols", 1)
    lab = V.arr("labels", (r, c), "i")
    for p in V.paths(lambda: V.fn()(lab)):
        if not p.returned():
            continue
        V.frame(p)
        m, pix = p.ret
        i, j = V.index(r), V.index(c)
        for nm, a, want in (("label", m, lab.at(i, j)), ("pixel", pix, i * c + j)):
            s, v, ax = sel(a, (i, j), (r, c))
            p.ensure(nm + "-selects-positive", zand(zimp(s, lab.at(i, j) > 0), zimp(lab.at(i, j) > 0, s)))
            p.ensure(nm + "-value", zimp(s, v == want))
            n = ax.dims[0] if len(ax.dims) == 1 else None
            p.ensure(nm + "-extent", zi(n) == (r * c).t if n is not None else zand(zi(ax.dims[0]) == r.t, zi(ax.dims[1]) == c.t))


def _pixvals(V, given):
    r, c = V.int("rows", 1), V.int("cols", 1)
    img = V.arr("image", (r, c), "f")
    lab = V.arr("labels", (r, c), "i")
    m = V.int("m", 1)
    index = V.arr("index", (m,), "i") if given else None
    for p in V.paths(lambda: V.fn()(img, lab, index) if given else V.fn()(img, lab)):
        if not p.returned():
            continue
        V.frame(p)
        vals, idx = p.ret
        si = symiter(vals)
        if si is None:
            raise Unsupported("concrete list of regions")
        ax, item = si
        k = V.index(SV("i", zi(ax.size)), "k")
        a = item((k.t,))
        i, j = V.index(r), V.index(c)
        n = index.at(k) if given else k + 1
        s, v, _ = sel(a, (i, j), (r, c))
        p.ensure("selects-label", zand(zimp(s, lab.at(i, j) == n), zimp(lab.at(i, j) == n, s)))
        p.ensure("pixel-value", zimp(s, v == img.at(i, j)))
        if given:
            p.ensure("one-list-per-label", zi(ax.size) == m.t)
        else:
            p.ensure("all-labels", zimp(lab.at(i, j) >= 1, lab.at(i, j) <= SV("i", zi(ax.size))))
        p.ensure("index", idx.at(k) == n)


@contract("P05", ROI + ":roi_pixel_values")
def roi_pixel_values(V):
    _pixvals(V, False)


@contract("P05", ROI + ":roi_pixel_values")
def roi_pixel_values_index(V):
    _pixvals(V, True)


@contract("P05", ROI + ":roi_pixel_values")
def roi_pixel_values_shape(V):
    r, c, r2, c2 = V.int("rows", 1), V.int("cols", 1), V.int("rows2", 1), V.int("cols2", 1)
    V.assume(zor(r != r2, c != c2))
    for p in V.paths(lambda: V.fn()(V.arr("image", (r, c), "f"), V.arr("labels", (r2, c2), "i"))):
        p.raises(ValueError, "shape-mismatch-rejected")


@contract("P05", ROI + ":mean_intensity")
def mean_intensity(V):
    n, r, c, m = V.int("frames", 1), V.int("rows", 1), V.int("cols", 1), V.int("m", 1)
    img = V.arr("images", (n, r, c), "f")
    lab = V.arr("labels", (r, c), "i")
    index = V.arr("index", (m,), "i")
    V.assume(V.forall((m,), lambda k: V.exists((r, c), lambda i, j: lab.at(i, j) == index.at(k))))
    for p in V.paths(lambda: V.fn()(img, lab, index)):
        if not p.returned():
            continue
        V.frame(p)
        mi, idx = p.ret
        p.ensure("shape", zand(len(mi.axes) == 2, zi(mi.shape[0]) == n.t, zi(mi.shape[1]) == m.t))
        f, k = V.index(n, "f"), V.index(m, "k")
        cnt = V.sum((r, c), lambda i, j: V.ite(lab.at(i, j) == index.at(k), 1, 0), "i")
        tot = V.sum((r, c), lambda i, j: V.ite(lab.at(i, j) == index.at(k), img.at(f, i, j), 0))
        p.ensure("mean-of-labelled-pixels", zimp(cnt > 0, mi.at(f, k) * cnt == tot))
        p.ensure("index", idx.at(k) == index.at(k))


@contract("P05", ROI + ":kymograph")
def kymograph(V):
    n, r, c = V.int("frames", 1), V.int("rows", 1), V.int("cols", 1)
    img = V.arr("images", (n, r, c), "f")
    lab = V.arr("labels", (r, c), "i")
    num = V.int("num", 1)
    V.assume(V.exists((r, c), lambda i, j: lab.at(i, j) == num))
    for p in V.paths(lambda: V.fn()(img, lab, num)):
        if not p.returned():
            continue
        V.frame(p)
        a = p.ret
        p.ensure("rows", zand(len(a.axes) == 2, zi(a.shape[0]) == n.t))
        f, i, j = V.index(n, "f"), V.index(r), V.index(c)
        ax = a.axes[1]
        comps = (i.t, j.t) if len(ax.dims) == 2 else (flatten([i.t, j.t], [r.t, c.t]),)
        s = SV("b", ax.pred(comps))
        p.ensure("selects-label", zand(zimp(s, lab.at(i, j) == num), zimp(lab.at(i, j) == num, s)))
        p.ensure("pixel-value", zimp(s, SV("f", *a.reader()(((f.t,), comps))) == img.at(f, i, j)))


@contract("P05", ROI + ":roi_max_counts")
def roi_max_counts(V):
    n, r, c = V.int("frames", 1), V.int("rows", 1), V.int("cols", 1)
    img = V.arr("images", (n, r, c), "f")
    lab = V.arr("labels", (r, c), "i")
    V.assume(V.exists((r, c), lambda i, j: lab.at(i, j) > 0))
    for p in V.paths(lambda: V.fn()([img], lab)):
        if not p.returned():
            continue
        V.frame(p)
        f, i, j = V.index(n, "f"), V.index(r), V.index(c)
        m = p.ret
        p.ensure("upper-bound", zimp(lab.at(i, j) > 0, img.at(f, i, j) <= m))
        p.ensure("attained", zor(m == 0, V.exists((n, r, c), lambda f, i, j: zand(lab.at(i, j) > 0, img.at(f, i, j) == m))))
