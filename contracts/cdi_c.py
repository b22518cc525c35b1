"""Contracts: phase retrieval building blocks (skbeam/core/cdi.py) and differential phase contrast (skbeam/core/dpc.py)."""
import z3

from pyvc.arr import Ax, SArr, Storage, zi
from pyvc.carr import CVal
from pyvc.core import SV, FInt, Unsupported, unop, zand, zb, zimp, znot, zor
from pyvc.npshim import np as N
from pyvc.verify import contract

CDI = "skbeam.core.cdi"
DPC = "skbeam.core.dpc"
PI = SV("f", z3.Real("pi"))


def ceq(a, b):
    return zand(a.re == b.re, a.im == b.im)


def carr(V, name, dims):
    return CVal(V.arr(name + "_re", dims, "f"), V.arr(name + "_im", dims, "f"))


def sqr(x):
    return x * x


# ---------------------------------------------------------------- P30
def _pimod(nd, real, given):
    def c(V):
        dims = tuple(V.int("n%d" % k, 1) for k in range(nd))
        rec = V.arr("recon", dims, "f") if real else carr(V, "recon", dims)
        dp = V.arr("pattern", dims, "f")
        V.assume(V.forall(dims, lambda *i: dp.at(*i) >= 0))
        kw, off = {}, 1e-12
        if given:
            off = V.real("offset", gt=0)
            kw = {"offset_v": off}
        for p in V.paths(lambda: V.fn()(rec, dp, **kw)):
            if not p.returned():
                continue
            V.frame(p)
            idx = [V.index(d) for d in dims]
            size = dims[0]
            for d in dims[1:]:
                size = size * d
            root = N.sqrt(size)
            F = N.fft.fftn(rec).at(*idx) / root
            G = N.fft.fftn(p.ret).at(*idx) / root
            amp = N.sqrt(F.re * F.re + F.im * F.im)
            m = dp.at(*idx)
            p.ensure("measured-amplitude", zimp(m > 0, zand(G.re == m * F.re / (amp + off), G.im == m * F.im / (amp + off))))
            p.ensure("unmeasured-kept", zimp(znot(m > 0), ceq(G, F)))
    c.__name__ = "pi_modulus_%dd%s%s" % (nd, "_real" if real else "", "_offset" if given else "")
    return c


for _a in ((2, False, False), (3, False, True), (2, True, False)):
    contract("P30", CDI + ":pi_modulus", op="pi_modulus")(_pimod(*_a))


def _box(nd):
    def c(V):
        dims = tuple(V.int("n%d" % k, 1) for k in range(nd))
        r = V.int("radius", 0)
        for p in V.paths(lambda: V.fn()(r, dims)):
            if not p.returned():
                continue
            idx = [V.index(d) for d in dims]
            p.ensure("shape", zand(*[V_eq(a, b) for a, b in zip(p.ret.shape, dims)]))
            inside = zand(*[zand(d // 2 - r <= i, i < d // 2 + r) for i, d in zip(idx, dims)])
            p.ensure("box", p.ret.at(*idx) == V.ite(inside, 1.0, 0.0))
    c.__name__ = "box_support_%dd" % nd
    return c


def V_eq(a, b):
    return zi(a) == zi(b)


def _disk(nd):
    def c(V):
        dims = tuple(V.int("n%d" % k, 1) for k in range(nd))
        r = V.int("radius", 0)
        for p in V.paths(lambda: V.fn()(r, dims)):
            if not p.returned():
                continue
            idx = [V.index(d) for d in dims]
            p.ensure("shape", zand(*[V_eq(a, b) for a, b in zip(p.ret.shape, dims)]))
            d2 = 0
            for i, d in zip(idx, dims):
                d2 = d2 + (i - d // 2) * (i - d // 2)
            p.ensure("disk", p.ret.at(*idx) == V.ite(d2 < r * r, 1.0, 0.0))
    c.__name__ = "disk_support_%dd" % nd
    return c


for _n in (2, 3):
    contract("P30", CDI + ":generate_box_support")(_box(_n))
    contract("P30", CDI + ":generate_disk_support")(_disk(_n))


def _dist(nd):
    def c(V):
        dims = tuple(V.int("n%d" % k, 1) for k in range(nd))
        for p in V.paths(lambda: V.fn()(dims)):
            if not p.returned():
                continue
            idx = [V.index(d) for d in dims]
            p.ensure("shape", zand(*[V_eq(a, b) for a, b in zip(p.ret.shape, dims)]))
            d2 = 0
            for i, d in zip(idx, dims):
                d2 = d2 + (i - d // 2) * (i - d // 2)
            p.ensure("distance", p.ret.at(*idx) == N.sqrt(d2))
    c.__name__ = "dist_%dd" % nd
    return c


def _gauss(nd):
    def c(V):
        dims = tuple(V.int("n%d" % k, 1) for k in range(nd))
        s = V.real("sigma", gt=0)
        for p in V.paths(lambda: V.fn()(dims, s)):
            if not p.returned():
                continue

            def g(*idx):
                d2 = 0
                for i, d in zip(idx, dims):
                    d2 = d2 + (i - d // 2) * (i - d // 2)
                return N.exp(-d2 / (2 * s * s))
            idx = [V.index(d) for d in dims]
            tot = V.sum(dims, g)
            p.ensure("normalised-gaussian", p.ret.at(*idx) * tot == g(*idx))
    c.__name__ = "gauss_%dd" % nd
    return c


for _n in (2, 3):
    contract("P30", CDI + ":_dist")(_dist(_n))
contract("P30", CDI + ":gauss")(_gauss(2))


@contract("P30", CDI + ":cal_diff_error")
def diff_error(V):
    dims = (V.int("n0", 1), V.int("n1", 1))
    o, d = carr(V, "obj", dims), V.arr("pattern", dims, "f")
    V.assume(V.exists(dims, lambda i, j: d.at(i, j) > 0))
    for p in V.paths(lambda: V.fn()(o, d)):
        if not p.returned():
            continue
        V.frame(p)
        F = N.fft.fftn(o)
        root = N.sqrt(dims[0] * dims[1])
        num = V.sum(dims, lambda i, j: sqr(N.sqrt(sqr(F.re.at(i, j)) + sqr(F.im.at(i, j))) / root - d.at(i, j)))
        den = V.sum(dims, lambda i, j: sqr(d.at(i, j)))
        p.ensure("formula", p.ret == N.sqrt(num) / N.sqrt(den))


# ---------------------------------------------------------------- P29
@contract("P29", DPC + ":image_reduction", op="image_reduction")
def reduction_plain(V):
    r, c = V.int("rows", 1), V.int("cols", 1)
    im = V.arr("im", (r, c), "f")
    for p in V.paths(lambda: V.fn()(im)):
        if not p.returned():
            continue
        V.frame(p)
        x, y = p.ret
        i, j = V.index(r), V.index(c)
        p.ensure("columns", zand(V.len(x) == c, x.at(j) == V.sum((r,), lambda a: im.at(a, j))))
        p.ensure("rows", zand(V.len(y) == r, y.at(i) == V.sum((c,), lambda b: im.at(i, b))))


@contract("P29", DPC + ":image_reduction", op="image_reduction")
def reduction_roi(V):
    r, c = V.int("rows", 1), V.int("cols", 1)
    im = V.arr("im", (r, c), "f")
    r0, c0, nr, nc = V.int("r0", 0), V.int("c0", 0), V.int("nr", 1), V.int("nc", 1)
    V.assume(zand(r0 + nr <= r, c0 + nc <= c))
    for p in V.paths(lambda: V.fn()(im, (r0, c0, nr, nc))):
        if not p.returned():
            continue
        V.frame(p)
        x, y = p.ret
        i, j = V.index(nr), V.index(nc)
        p.ensure("columns", zand(V.len(x) == nc, x.at(j) == V.sum((nr,), lambda a: im.at(r0 + a, c0 + j))))
        p.ensure("rows", zand(V.len(y) == nr, y.at(i) == V.sum((nc,), lambda b: im.at(r0 + i, c0 + b))))


@contract("P29", DPC + ":image_reduction", op="image_reduction")
def reduction_bad(V):
    r, c = V.int("rows", 1), V.int("cols", 1)
    im = V.arr("im", (r, c), "f")
    a0, b0, a1, b1 = V.int("a0", 0), V.int("b0", 0), V.int("a1", 0), V.int("b1", 0)
    V.assume(zand(a0 < r, a1 < r, b0 < c, b1 < c))
    for p in V.paths(lambda: V.fn()(im, None, [(a0, b0), (a1, b1)])):
        if not p.returned():
            continue
        V.frame(p)
        x, y = p.ret

        def px(a, b):
            return V.ite(zor(zand(a == a0, b == b0), zand(a == a1, b == b1)), 0.0, im.at(a, b))
        i, j = V.index(r), V.index(c)
        p.ensure("columns", zand(V.len(x) == c, x.at(j) == V.sum((r,), lambda a: px(a, j))))
        p.ensure("rows", zand(V.len(y) == r, y.at(i) == V.sum((c,), lambda b: px(i, b))))


def spec_arr(dims, f):
    return SArr([Ax((zi(d),)) for d in dims], Storage(lambda idx: (f(*[SV("i", k[0]) for k in idx]).t, None), "f"))


def freq(k, n):
    """signed frequency of index k of an n-point transform"""
    kt, nt = zi(k), zi(n)
    return SV("f", z3.ToReal(z3.If(kt + nt / 2 < nt, kt, kt - nt)))


def _recon(pad):
    def c(V):
        r, cc = V.int("rows", 1), V.int("cols", 1)
        gx, gy = V.arr("gx", (r, cc), "f"), V.arr("gy", (r, cc), "f")
        dx, dy = V.real("dx", gt=0), V.real("dy", gt=0)
        w = V.real("w")
        V.assume(zand(w >= 0, w <= 1))
        for p in V.paths(lambda: V.fn()(gx, gy, dx, dy, pad, w)):
            if not p.returned():
                continue
            V.frame(p)
            R, C = r * (2 * pad + 1), cc * (2 * pad + 1)

            def padded(g):
                def f(a, b):
                    ins = zand(pad * r <= a, a < (pad + 1) * r, pad * cc <= b, b < (pad + 1) * cc)
                    return V.ite(ins, g.at(a - pad * r, b - pad * cc), 0.0)
                return spec_arr((R, C), f)
            TX, TY = N.fft.fft2(padded(gx)), N.fft.fft2(padded(gy))

            def parts(a, b):
                kx, ky = 2 * PI * freq(b, C) / (C * dx), 2 * PI * freq(a, R) / (R * dy)
                return kx, ky, kx * kx * (1 - w) + ky * ky * w

            def pr(a, b):
                kx, ky, d = parts(a, b)
                return V.ite(d == 0, 0.0, (kx * TX.im.at(a, b) * (1 - w) + ky * TY.im.at(a, b) * w) / d)

            def pi_(a, b):
                kx, ky, d = parts(a, b)
                return V.ite(d == 0, 0.0, -(kx * TX.re.at(a, b) * (1 - w) + ky * TY.re.at(a, b) * w) / d)
            ph = N.fft.ifft2(CVal(spec_arr((R, C), pr), spec_arr((R, C), pi_)))
            i, j = V.index(r), V.index(cc)
            p.ensure("shape", zand(V_eq(p.ret.shape[0], r), V_eq(p.ret.shape[1], cc)))
            p.ensure("least-squares-phase", p.ret.at(i, j) == ph.re.at(pad * r + i, pad * cc + j))
    c.__name__ = "recon_pad%d" % pad
    return c


for _p in (0, 1):
    contract("P29", DPC + ":recon", op="recon")(_recon(_p))


@contract("P29", DPC + ":recon")
def recon_rejects(V):
    r, c = V.int("rows", 1), V.int("cols", 1)
    gx, gy = V.arr("gx", (r, c), "f"), V.arr("gy", (r, c), "f")
    w = V.real("w")
    V.assume(zor(w < 0, w > 1))
    for p in V.paths(lambda: V.fn()(gx, gy, 1.0, 1.0, 0, w)):
        p.raises(ValueError, "weighting-rejected")


@contract("P29", DPC + ":_rss_factory")
def rss(V):
    n = V.int("n", 1)
    a, b = carr(V, "ref", (n,)), carr(V, "diff", (n,))
    v0, v1 = V.real("v0"), V.real("v1")
    for p in V.paths(lambda: V.fn()(n)((v0, v1), a, b)):
        if not p.returned():
            continue
        V.frame(p)

        def term(k):
            t = v1 * (k - n // 2)
            er, ei = v0 * N.cos(t), v0 * N.sin(t)
            ar, ai = a.re.at(k), a.im.at(k)
            return sqr(b.re.at(k) - (ar * er - ai * ei)) + sqr(b.im.at(k) - (ar * ei + ai * er))
        p.ensure("residual", p.ret == V.sum((n,), term))
