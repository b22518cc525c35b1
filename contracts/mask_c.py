"""Contracts: masks (skbeam/core/mask.py) and pixel logic (skbeam/core/arithmetic.py)."""
import z3

from pyvc.arr import SArr, zi
from pyvc.core import SV, Unsupported, truth, uf, zand, zb, zimp, znot, zor
from pyvc.verify import contract

MK = "skbeam.core.mask"
AR = "skbeam.core.arithmetic"


def iff(a, b):
    return zand(zimp(a, b), zimp(b, a))


def isb(x):
    """truth value of a pixel"""
    return SV("b", truth(x))


# ---------------------------------------------------------------- P18
@contract("P18", MK + ":margin")
def margin(V):
    r, c, e = V.int("rows", 1), V.int("cols", 1), V.int("edge", 0)
    for p in V.paths(lambda: V.fn()((r, c), e)):
        if not p.returned():
            continue
        m = p.ret
        i, j = V.index(r, "i"), V.index(c, "j")
        p.ensure("shape", zand(len(m.axes) == 2, zi(m.shape[0]) == r.t, zi(m.shape[1]) == c.t))
        p.ensure("keeps-exactly-the-interior", iff(isb(m.at(i, j)), zand(i >= e, i < r - e, j >= e, j < c - e)))


def _thr(V, given):
    n, r, c = V.int("n", 1), V.int("rows", 1), V.int("cols", 1)
    imgs, th = V.arr("imgs", (n, r, c), "f"), V.real("thr")
    a = ()
    if given:
        m0 = V.arr("mask", (r, c), "i")
        a = (m0,)
        old = m0.copy()
    for p in V.paths(lambda: V.fn()(imgs, th, *a)):
        if not p.returned():
            continue
        V.frame(p, *a)
        s = p.ret
        k = V.index(n, "k")
        i, j = V.index(r, "i"), V.index(c, "j")
        p.ensure("one-mask-per-frame", zi(s.slen() if hasattr(s, "slen") else len(s)) == n.t)
        m = s[k]
        hit = SV("b", zb(V.exists((n,), lambda q: zand(q <= k, imgs.at(q, i, j) >= th))))
        v = m.at(i, j)
        p.ensure("cleared-where-a-frame-so-far-reached-threshold", zimp(hit, v == 0))
        p.ensure("kept-elsewhere", zimp(znot(hit), v == (old.at(i, j) if given else 1)))


@contract("P18", MK + ":threshold")
def threshold_default(V):
    _thr(V, False)


@contract("P18", MK + ":threshold")
def threshold_given_mask(V):
    _thr(V, True)


@contract("P18", MK + ":bad_to_nan_gen")
def bad_to_nan_gen(V):
    n, r, c, nb = V.int("n", 1), V.int("rows", 1), V.int("cols", 1), V.int("nbad", 0)
    imgs, bad = V.arr("imgs", (n, r, c), "f"), V.arr("bad", (nb,), "i")
    for p in V.paths(lambda: V.fn()(imgs, bad)):
        if not p.returned():
            continue
        V.frame(p)
        s = p.ret
        k = V.index(n, "k")
        i, j = V.index(r, "i"), V.index(c, "j")
        p.ensure("one-frame-per-image", zi(s.slen() if hasattr(s, "slen") else len(s)) == n.t)
        m = s[k]
        isbad = SV("b", zb(V.exists((nb,), lambda q: bad.at(q) == k)))
        v = m.at(i, j)
        p.ensure("bad-frames-are-nan", zimp(isbad, V.nan(v)))
        p.ensure("good-frames-unchanged", zimp(znot(isbad), zand(V.notnan(v), SV("f", v.t) == imgs.at(i, j) if False else SV("f", v.t) == imgs.at(k, i, j))))


def _outlier(V, masked):
    r, c, nb = V.int("rows", 1), V.int("cols", 1), V.int("nbins", 1)
    img, R, al = V.arr("img", (r, c), "f"), V.arr("r", (r, c), "f"), V.real("alpha", gt=0)
    E = V.arr("bins", (nb + 1,), "f")
    V.sorted(E, nb + 1, strict=True)
    V.assume(V.forall((r, c), lambda i, j: zand(R.at(i, j) >= E.at(0), R.at(i, j) <= E.at(nb))))
    kw = {}
    if masked:
        M = V.arr("mask", (r, c), "i")
        kw["mask"] = M
    for p in V.paths(lambda: V.fn()(img, R, al, E, **kw)):
        if not p.returned():
            continue
        V.frame(p)
        out = p.ret
        i, j, b = V.index(r, "i"), V.index(c, "j"), V.index(nb, "b")

        def inb(u, v):
            x = R.at(u, v)
            q = zand(E.at(b) <= x, zor(x < E.at(b + 1), zand(b == nb - 1, x <= E.at(b + 1))))
            return zand(q, M.at(u, v) != 0) if masked else q
        x = R.at(i, j)
        V.assume(zand(x >= E.at(0), x <= E.at(nb), E.at(b) <= x, zor(x < E.at(b + 1), zand(b == nb - 1, x <= E.at(b + 1)))))
        n = V.sum((r, c), lambda u, v: V.ite(inb(u, v), 1, 0), "i")
        mean = V.sum((r, c), lambda u, v: V.ite(inb(u, v), img.at(u, v), 0)) / n
        dev = V.sum((r, c), lambda u, v: V.ite(inb(u, v), (img.at(u, v) - mean) * (img.at(u, v) - mean), 0))
        std = SV("f", uf("sqrt")((dev / n).t))
        p.ensure("shape", zand(len(out.axes) == 2, zi(out.shape[0]) == r.t, zi(out.shape[1]) == c.t, out.kind == "b"))
        o = isb(out.at(i, j))
        d = img.at(i, j) - mean
        within = zand(d < al * std, -d < al * std)
        if masked:
            p.ensure("masked-stays-masked", zimp(M.at(i, j) == 0, znot(o)))
            p.ensure("keeps-exactly-within-alpha-std", zimp(M.at(i, j) != 0, iff(o, within)))
        else:
            p.ensure("keeps-exactly-within-alpha-std", iff(o, within))


@contract("P18", MK + ":binned_outlier")
def binned_outlier(V):
    _outlier(V, False)


@contract("P18", MK + ":binned_outlier")
def binned_outlier_mask(V):
    _outlier(V, True)


# ---------------------------------------------------------------- P19
def _logic(V, spec, kinds, out=False):
    r, c = V.int("rows", 1), V.int("cols", 1)
    a, b = V.arr("x1", (r, c), kinds[0]), V.arr("x2", (r, c), kinds[1])
    args = (a, b)
    if out:
        o = V.arr("out", (r, c), "b")
        args += (o,)
    for p in V.paths(lambda: V.fn()(*args)):
        if not p.returned():
            continue
        V.frame(p, *args[2:])
        i, j = V.index(r, "i"), V.index(c, "j")
        p.ensure("shape", zand(len(p.ret.axes) == 2, zi(p.ret.shape[0]) == r.t, zi(p.ret.shape[1]) == c.t))
        p.ensure("boolean", p.ret.kind == "b")
        want = spec(isb(a.at(i, j)), isb(b.at(i, j)))
        p.ensure("truth-table", iff(isb(p.ret.at(i, j)), want))
        if out:
            p.ensure("out-array", iff(isb(o.at(i, j)), want))


def _mk(name, spec):
    for sfx, kinds, out in (("_bool", "bb", False), ("_int", "ii", False), ("_mixed", "fi", False), ("_out", "ib", True)):
        def f(V, kinds=kinds, out=out):
            _logic(V, spec, kinds, out)
        f.__name__ = name + sfx
        contract("P19", AR + ":" + name)(f)


_mk("logical_nand", lambda a, b: znot(zand(a, b)))
_mk("logical_nor", lambda a, b: znot(zor(a, b)))
_mk("logical_sub", lambda a, b: zand(a, znot(b)))
