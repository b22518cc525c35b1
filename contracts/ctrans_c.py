"""Contracts: the C routines behind reciprocal-space conversion and 3-D gridding (src/ctrans.c, translated mechanically by
pyvc.cfront).  Every pointer access is also a bounds obligation."""
import types

import z3

from pyvc import cfront, ptr
from pyvc.arr import zi
from pyvc.core import CTX, SV, Unsupported, zand, zimp, znot, zor
from pyvc.npshim import np as N
from pyvc.verify import contract

C = "src.ctrans"


def P(a):
    a.contig = True
    return ptr.FlatPtr(a)


def mk_ccd(V, mod):
    nx, ny = V.int("nx", 1), V.int("ny", 1)
    d = V.real("dist")
    V.assume(d > 0)
    return mod.CCD(xSize=nx, ySize=ny, size=nx * ny, xCen=V.real("xc"), yCen=V.real("yc"), xPixSize=V.real("xp"), yPixSize=V.real("yp"), dist=d)


@contract("P12", C + ":calcDeltaGamma")
def delta_gamma(V):
    mod = V.module()
    ccd = mk_ccd(V, mod)
    nx, ny = ccd.xSize, ccd.ySize
    dg = V.arr("delgam", (ny, nx, 2), "f")
    dc, gc = V.real("delta"), V.real("gamma")

    def call():
        a = N.array(dg)
        mod.calcDeltaGamma(P(a), ccd, dc, gc)
        return a
    for p in V.paths(call):
        if not p.returned():
            continue
        V.frame(p)
        j, i = V.index(ny), V.index(nx)
        p.ensure("delta", p.ret.at(j, i, 0) == dc - N.arctan((j - ccd.yCen) * (ccd.yPixSize / ccd.dist)))
        p.ensure("gamma", p.ret.at(j, i, 1) == gc - N.arctan((i - ccd.xCen) * (ccd.xPixSize / ccd.dist)))


def q_theta(d, g, th, mu, lam):
    k = 2 * N.pi / lam
    return [-N.sin(g) * k - N.sin(mu) * k,
            N.cos(d - th) * N.cos(g) * k - N.cos(th) * N.cos(mu) * k,
            N.sin(d - th) * N.cos(g) * k + N.sin(th) * N.cos(mu) * k]


@contract("P12", C + ":calcQTheta")
def q_theta_frame(V):
    mod = V.module()
    n = V.int("n", 1)
    dg, q0 = V.arr("delgam", (n, 2), "f"), V.arr("q", (n, 3), "f")
    th, mu, lam = V.real("theta"), V.real("mu"), V.real("lambda", gt=0)

    def call():
        a = N.array(q0)
        mod.calcQTheta(P(dg), th, mu, P(a), n, lam)
        return a
    for p in V.paths(call):
        if not p.returned():
            continue
        V.frame(p)
        i = V.index(n)
        w = q_theta(dg.at(i, 0), dg.at(i, 1), th, mu, lam)
        for c in range(3):
            p.ensure("component-%d" % c, p.ret.at(i, c) == w[c])


@contract("P12", C + ":matmulti")
def matmulti(V):
    mod = V.module()
    n = V.int("n", 1)
    q0 = V.arr("q", (n, 3), "f")
    m = [[V.real("m%d%d" % (a, b)) for b in range(3)] for a in range(3)]

    def call():
        a = N.array(q0)
        mod.matmulti(P(a), n, cfront.c_list([cfront.c_list(r) for r in m]))
        return a
    for p in V.paths(call):
        if not p.returned():
            continue
        V.frame(p)
        i = V.index(n)
        for c in range(3):
            p.ensure("row-%d" % c, p.ret.at(i, c) == m[c][0] * q0.at(i, 0) + m[c][1] * q0.at(i, 1) + m[c][2] * q0.at(i, 2))


# ------------------------------------------------------------ callers, against the contracts above
def block(q, n):
    """(array, image) of a pointer to the n*w elements of one image in an array (images, n, w); the caller must point at its start"""
    a = q.a
    w = a.shape[-1]
    off = zi(q.off)
    comps = ptr.split_index(off, [x if isinstance(x, int) else zi(x) for x in a.shape])
    if any(not z3.is_int_value(x) or x.as_long() != 0 for x in comps[1:]):
        raise Unsupported("pointer not at the start of an image")
    if not CTX().decide(z3.And(comps[0] >= 0, comps[0] < zi(a.shape[0]), zi(n) <= zi(a.shape[1]), zi(n) >= 0)):
        raise IndexError("pointer outside the array")
    if not CTX().decide(zi(n) == zi(a.shape[1])):
        raise Unsupported("part of an image")
    return a, SV("i", comps[0])


def st_matmulti(val, n, mat):
    a, i = block(val, n)
    old = [N.array(a[i, :, c]) for c in range(3)]
    for c in range(3):
        a[i, :, c] = mat[c][0] * old[0] + mat[c][1] * old[1] + mat[c][2] * old[2]
    return -1


def phi_matrix(chi, phi):
    s, c = N.sin, N.cos
    return [[c(chi), 0.0, -s(chi)], [s(phi) * s(chi), c(phi), s(phi) * c(chi)], [c(phi) * s(chi), -s(phi), c(phi) * c(chi)]]


def st_qphi(q, n, chi, phi):
    return st_matmulti(q, n, phi_matrix(chi, phi))


def st_hkl(q, n, mat):
    return st_matmulti(q, n, mat)


def st_deltagamma(dg, ccd, dc, gc):
    n = ccd.xSize * ccd.ySize
    a, i = block(dg, n)
    m = N.arange(n)
    a[i, :, 0] = dc - N.arctan((m // ccd.xSize - ccd.yCen) * (ccd.yPixSize / ccd.dist))
    a[i, :, 1] = gc - N.arctan((m % ccd.xSize - ccd.xCen) * (ccd.xPixSize / ccd.dist))
    return -1


def st_qtheta(dg, th, mu, q, n, lam):
    a, i = block(dg, n)
    b, i2 = block(q, n)
    w = q_theta(N.array(a[i, :, 0]), N.array(a[i, :, 1]), th, mu, lam)
    for c in range(3):
        b[i2, :, c] = w[c]
    return -1


STUBS = {C + ":matmulti": st_matmulti, C + ":calcQPhiFromQTheta": st_qphi, C + ":calcHKLFromQPhi": st_hkl,
         C + ":calcDeltaGamma": st_deltagamma, C + ":calcQTheta": st_qtheta}


@contract("P12", C + ":calcDeltaGamma")
def pixel_order(V):
    """pixel number j*nx + i and pixel (j, i) are the same thing: the two forms of the contract agree"""
    nx, ny = V.int("nx", 1), V.int("ny", 1)
    j, i = V.index(ny), V.index(nx)
    m = j * nx + i
    V.ensure("in-range", zand(m >= 0, m < nx * ny))
    V.ensure("column", m % nx == i)
    V.ensure("row", m // nx == j)


def _rot(which):
    def c(V):
        mod = V.module(extra_stubs={C + ":matmulti": st_matmulti})
        n = V.int("n", 1)
        q0 = V.arr("q", (1, n, 3), "f")
        if which == "phi":
            chi, phi = V.real("chi"), V.real("phi")
            m = phi_matrix(chi, phi)
        else:
            m = [[V.real("m%d%d" % (a, b)) for b in range(3)] for a in range(3)]

        def call():
            a = N.array(q0)
            if which == "phi":
                mod.calcQPhiFromQTheta(P(a), n, chi, phi)
            else:
                mod.calcHKLFromQPhi(P(a), n, cfront.c_list([cfront.c_list(r) for r in m]))
            return a
        for p in V.paths(call):
            if not p.returned():
                continue
            V.frame(p)
            i = V.index(n)
            for k in range(3):
                p.ensure("row-%d" % k, p.ret.at(0, i, k) == m[k][0] * q0.at(0, i, 0) + m[k][1] * q0.at(0, i, 1) + m[k][2] * q0.at(0, i, 2))
    c.__name__ = "rotation_" + which
    return c


contract("P12", C + ":calcQPhiFromQTheta")(_rot("phi"))
contract("P12", C + ":calcHKLFromQPhi")(_rot("hkl"))


def _images(mode):
    def c(V):
        mod = V.module(extra_stubs={k: v for k, v in STUBS.items()})
        ccd = mk_ccd(V, mod)
        nx, ny, n = ccd.xSize, ccd.ySize, ccd.size
        m = V.int("images", 1)
        ang, ub = V.arr("angles", (m, 6), "f"), V.arr("ubinv", (3, 3), "f")
        dg, q0 = V.arr("delgam", (m, n, 2), "f"), V.arr("q", (m, n, 3), "f")
        lam = V.real("lambda", gt=0)

        def call():
            a, d = N.array(q0), N.array(dg)
            r = mod.processImages(P(d), P(ang), P(a), lam, mode, m, P(ub), ccd)
            return a, r
        for p in V.paths(call):
            if not p.returned():
                continue
            V.frame(p)
            a, r = p.ret
            k, x = V.index(m), V.index(n)
            an = [ang.at(k, s) for s in range(6)]
            p.ensure("no-error", r == 0)
            d = an[0] - N.arctan((x // nx - ccd.yCen) * (ccd.yPixSize / ccd.dist))
            g = an[5] - N.arctan((x % nx - ccd.xCen) * (ccd.xPixSize / ccd.dist))
            w = q_theta(d, g, an[1], an[4], lam)
            if mode > 1:
                R = phi_matrix(an[2], an[3])
                w = [R[s][0] * w[0] + R[s][1] * w[1] + R[s][2] * w[2] for s in range(3)]
            if mode == 4:
                w = [-ub.at(s, 2) * w[0] + ub.at(s, 1) * w[1] + ub.at(s, 0) * w[2] for s in range(3)]
            for s in range(3):
                p.ensure("component-%d" % s, a.at(k, x, s) == w[s])
    c.__name__ = "process_images_mode%d" % mode
    return c


for _m in (1, 2, 3, 4):
    contract("P12", C + ":processImages")(_images(_m))


# ------------------------------------------------------------ gridding
def _grid(threads, keep_nan, fail=()):
    """data (n, 4): positions and value.  The outputs are added to; T threads share the data in any way."""
    def c(V):
        CTX().c_threads, CTX().c_mallocs, CTX().c_malloc_fails = threads, 0, fail
        mod = V.module()
        n = V.int("n", 1)
        g = [V.int("g%d" % k, 1) for k in range(3)]
        size = g[0] * g[1] * g[2]
        data = V.arr("data", (n, 4), "f", nan=not keep_nan)
        lo, hi = [V.real("lo%d" % k) for k in range(3)], [V.real("hi%d" % k) for k in range(3)]
        V.assume(zand(*[lo[k] < hi[k] for k in range(3)]))
        s0, q0, n0 = V.arr("sum", (size,), "f"), V.arr("sum2", (size,), "f"), V.arr("cnt", (size,), "i")
        e0 = V.arr("err", (size,), "f")
        V.assume(V.forall((size,), lambda x: n0.at(x) >= 0))
        ls = lambda x: cfront.c_list(list(x))  # noqa

        def call():
            CTX().c_mallocs = 0
            s, q, m, e = N.array(s0), N.array(q0), N.array(n0), N.array(e0)
            r = mod.c_grid3d(P(s), P(q), P(m), P(e), P(data), ls(lo), ls(hi), n, ls(g), 1 if keep_nan else 0)
            return r, s, q, m, e
        for p in V.paths(call):
            if not p.returned():
                continue
            V.frame(p)
            r, s, q, m, e = p.ret
            x = V.index(size)
            if fail:
                p.ensure("reports-failure", r != 0)
                p.ensure("outputs-untouched", zand(s.at(x) == s0.at(x), q.at(x) == q0.at(x), m.at(x) == n0.at(x)))
                continue
            p.ensure("no-error", r == 0)

            def mine(i):
                u = [(data.at(i, k) - lo[k]) / (hi[k] - lo[k]) for k in range(3)]
                ok = [znot(V.nan(data.at(i, 3)))] if not keep_nan else []
                cell = [N.floor(u[k] * g[k]).astype("i") if False else SV("i", z3.ToInt((u[k] * g[k]).t)) for k in range(3)]
                return zand(*ok, *[zand(u[k] >= 0, u[k] < 1) for k in range(3)],
                            cell[0] * (g[1] * g[2]) + cell[1] * g[2] + cell[2] == x)
            val = lambda i: SV("f", data.at(i, 3).t)  # noqa
            cnt = V.sum((n,), lambda i: V.ite(mine(i), 1, 0), "i")
            tot = V.sum((n,), lambda i: V.ite(mine(i), val(i), 0.0))
            sq = V.sum((n,), lambda i: V.ite(mine(i), val(i) * val(i), 0.0))
            p.ensure("count", m.at(x) == n0.at(x) + cnt)
            p.ensure("sum", s.at(x) == s0.at(x) + tot)
            p.ensure("sum-of-squares", q.at(x) == q0.at(x) + sq)
            # standard error from the accumulated outputs, in cells that received a point
            v = (q.at(x) - s.at(x) * s.at(x) / m.at(x)) / m.at(x)
            p.ensure("standard-error", zimp(cnt > 0, zand(e.at(x) >= 0, e.at(x) * e.at(x) * m.at(x) == V.ite(v > 0, v, 0.0))))
            p.ensure("empty-cell", zimp(cnt == 0, e.at(x) == 0))
    c.__name__ = "grid3d_%dthread%s%s" % (threads, "_allvalues" if keep_nan else "", "_nomem%d" % fail[0] if fail else "")
    return c


for _t, _k in ((1, False), (1, True), (2, False)):
    contract("P11", C + ":c_grid3d", hard=True)(_grid(_t, _k))
for _t, _f in ((1, 1), (1, 3), (2, 6)):
    contract("P11", C + ":c_grid3d")(_grid(_t, False, (_f,)))


# ------------------------------------------------------------ Python front end
U = "skbeam.core.utils"


def _front(mask, given):
    """the C routine receives exactly the unmasked points with their intensities and the requested (or spanning) bounds"""
    def c(V):
        fr, h, w = V.int("frames", 1), V.int("rows", 1), V.int("cols", 1)
        N3 = fr * h * w
        q = V.arr("q", (N3, 3), "f")
        img = V.arr("img", (fr, h, w), "f")
        bm = {None: None, "2d": lambda: V.arr("mask", (h, w), "i"), "3d": lambda: V.arr("mask", (fr, h, w), "i")}[mask]
        bm = bm() if bm else None
        n = [V.int("nx", 1), V.int("ny", 1), V.int("nz", 1)]
        lo = [V.real(k) for k in ("xmin", "ymin", "zmin")]
        hi = [V.real(k) for k in ("xmax", "ymax", "zmax")]
        tot, tot2 = V.arr("total", tuple(n), "f"), V.arr("total2", tuple(n), "f")
        occ, err = V.arr("occ", tuple(n), "i"), V.arr("err", tuple(n), "f")
        V.assume(V.forall(tuple(n), lambda a, b, d: occ.at(a, b, d) >= 0))
        rec = []

        def grid(data, gmin, gmax, gn, *a, **k):
            if a or k:
                raise Unsupported("more arguments to the C routine")
            rec.append((data, gmin, gmax, gn))
            return tot, tot2, occ, err
        fn = V.fn(ext={"skbeam.ext.ctrans": types.SimpleNamespace(grid3d=grid)})
        kw = dict(nx=n[0], ny=n[1], nz=n[2])
        if given:
            kw.update(xmin=lo[0], ymin=lo[1], zmin=lo[2], xmax=hi[0], ymax=hi[1], zmax=hi[2])

        def call():
            del rec[:]
            return fn(q, img, binary_mask=bm, **kw), list(rec)
        for p in V.paths(call):
            if not p.returned():
                continue
            V.frame(p)
            (mean, o, e, bounds), r = p.ret
            if len(r) != 1:
                raise Unsupported("C routine called %d times" % len(r))
            data, gmin, gmax, gn = r[0]
            gmin, gmax = N.asarray(gmin), N.asarray(gmax)
            a, b, d = V.indices(*n)
            p.ensure("occupancy", zand(o.at(a, b, d) == occ.at(a, b, d), e.at(a, b, d) == err.at(a, b, d)))
            p.ensure("mean", zimp(occ.at(a, b, d) > 0, zand(V.notnan(mean.at(a, b, d)), mean.at(a, b, d) * occ.at(a, b, d) == tot.at(a, b, d))))
            i = V.index(N3)
            for k in range(3):
                p.ensure("grid-size-%d" % k, gn[k] == n[k])
                p.ensure("bounds-%d" % k, zand(N.asarray(bounds).at(k, 0) == gmin.at(k), N.asarray(bounds).at(k, 1) == gmax.at(k),
                                               N.asarray(bounds).at(k, 2) == n[k]))
                if given:
                    p.ensure("requested-%d" % k, zand(gmin.at(k) == lo[k], gmax.at(k) == hi[k]))
                else:
                    p.ensure("every-point-inside-%d" % k, zand(gmin.at(k) <= q.at(i, k), q.at(i, k) < gmax.at(k)))
            data = N.asarray(data)
            F = z3.Function("point", *([z3.RealSort()] * 5))
            got = rowsum(data, lambda x: F(*x))
            def want(f_, i_, j_):
                row = (f_ * h + i_) * w + j_
                t = SV("f", F(*[q.at(row, k).t for k in range(3)], img.at(f_, i_, j_).t))
                if mask is None:
                    return t
                return V.ite((bm.at(i_, j_) if mask == "2d" else bm.at(f_, i_, j_)) != 0, t, 0.0)
            p.ensure("points", got == V.sum((fr, h, w), want))
    c.__name__ = "grid3d_%s%s" % (mask or "nomask", "_bounds" if given else "")
    return c


def rowsum(a, f):
    """sum over the rows of an (n, 4) array of f(row)"""
    from pyvc.arr import make_sum
    rd, ax = a.reader(), a.axes[0]
    return SV("f", make_sum("f", ax.dims, ax.pred, lambda c: f([rd((c, (z3.IntVal(k),)))[0] for k in range(4)])))


for _m, _g in ((None, False), (None, True), ("2d", True), ("3d", True)):
    contract("P11", U + ":grid3d")(_front(_m, _g))


@contract("P11", U + ":grid3d")
def grid3d_rejects_positions(V):
    n, w = V.int("n", 1), V.int("width", 1)
    V.assume(w != 3)
    q = V.arr("q", (n, w), "f")
    img = V.arr("img", (1, 1, n), "f")
    fn = V.fn(ext={"skbeam.ext.ctrans": types.SimpleNamespace(grid3d=lambda *a: "called")})
    for p in V.paths(lambda: fn(q, img)):
        p.raises(ValueError)


@contract("P11", U + ":grid3d")
def grid3d_rejects_mask(V):
    fr, h, w = V.int("frames", 1), V.int("rows", 1), V.int("cols", 1)
    h2, w2 = V.int("rows2", 1), V.int("cols2", 1)
    V.assume(zor(h != h2, w != w2))
    q = V.arr("q", (fr * h * w, 3), "f")
    img, m = V.arr("img", (fr, h, w), "f"), V.arr("mask", (h2, w2), "i")
    fn = V.fn(ext={"skbeam.ext.ctrans": types.SimpleNamespace(grid3d=lambda *a: "called")})
    for p in V.paths(lambda: fn(q, img, binary_mask=m)):
        p.raises(ValueError)
