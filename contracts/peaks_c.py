"""Contracts: images from profiles (image.py), spectrum integration (spectroscopy.py), peak candidates (feature.py, fitting/funcs.py)."""
import z3

from pyvc.arr import SArr, as_sarr, sym_arr, zi
from pyvc.core import CTX, FInt, SV, Unsupported, fresh_name, uf, zand, zb, zimp, znot, zor
from pyvc.seq import SList, symiter
from pyvc.verify import contract
from contracts.roi_c import rdist

IM = "skbeam.core.image"
SP = "skbeam.core.spectroscopy"
FE = "skbeam.core.feature"
FU = "skbeam.core.fitting.funcs"
PI = SV("f", z3.Real("pi"))


def iff(a, b):
    return zand(zimp(a, b), zimp(b, a))


# ---------------------------------------------------------------- P22
def _circ(V, given, dflt_center=False):
    n, r, c = V.int("n", 2), V.int("rows", 1), V.int("cols", 1)
    R, Y = V.arr("radii", (n,), "f"), V.arr("intensities", (n,), "f")
    V.sorted(R, n, strict=True)
    px, py = V.real("px", gt=0), V.real("py", gt=0)
    kw = {}
    if dflt_center:
        cx, cy = (r - 1) / 2.0, (c - 1) / 2.0
    else:
        cx, cy = V.real("cx"), V.real("cy")
        kw["center"] = (cx, cy)
    if given:
        kw["left"], kw["right"] = V.real("left"), V.real("right")
    for p in V.paths(lambda: V.fn()(R, Y, dims=(r, c), pixel_size=(px, py), **kw)):
        if not p.returned():
            continue
        V.frame(p)
        a = p.ret
        i, j, k = V.index(r, "i"), V.index(c, "j"), V.index(n - 1, "k")
        p.ensure("shape", zand(len(a.axes) == 2, zi(a.shape[0]) == r.t, zi(a.shape[1]) == c.t))
        d, v = rdist(i, j, cx, cy, px, py), a.at(i, j)
        x0, x1, y0, y1 = R.at(k), R.at(k + 1), Y.at(k), Y.at(k + 1)
        p.ensure("linear-between-neighbours", zimp(zand(x0 <= d, d < x1), (v - y0) * (x1 - x0) == (y1 - y0) * (d - x0)))
        p.ensure("last-sample", zimp(d == R.at(n - 1), v == Y.at(n - 1)))
        p.ensure("beyond-profile", zimp(d > R.at(n - 1), v == (kw["right"] if given else 0)))
        p.ensure("before-profile", zimp(d < R.at(0), v == (kw["left"] if given else Y.at(0))))


@contract("P22", IM + ":construct_circ_avg_image")
def circ_avg_image(V):
    _circ(V, False)


@contract("P22", IM + ":construct_circ_avg_image")
def circ_avg_image_fill(V):
    _circ(V, True)


@contract("P22", IM + ":construct_circ_avg_image")
def circ_avg_image_default_center(V):
    _circ(V, True, True)


@contract("P22", IM + ":construct_circ_avg_image")
def circ_avg_image_default_dims(V):
    n = V.int("n", 2)
    R, Y = V.arr("radii", (n,), "f"), V.arr("intensities", (n,), "f")
    V.sorted(R, n, strict=True)
    V.assume(R.at(0) >= 0)
    px, py = V.real("px", gt=0), V.real("py", gt=0)
    for p in V.paths(lambda: V.fn()(R, Y, pixel_size=(px, py))):
        if not p.returned():
            continue
        rows, cols = SV("i", zi(p.ret.shape[0])), SV("i", zi(p.ret.shape[1]))
        h = V.anyint("h")
        top = R.at(n - 1)
        for m, s, nm in ((rows, px, "rows"), (cols, py, "cols")):
            # 2*round(max radius / pixel) + 1
            p.ensure("odd-size-covering-profile-" + nm, zand(s * (m - 2) <= 2 * top, 2 * top < s * m))


class _RGI:
    """assumed contract of scipy's RegularGridInterpolator: remembers its grid and evaluation points"""
    log = []

    def __init__(self, points, values, bounds_error=True, fill_value=None, **k):
        self.a = (points, values, bounds_error, fill_value)

    def __call__(self, xi):
        pts = [as_sarr(x) for x in xi]
        out = sym_arr(fresh_name("rgi"), (1,), "f")
        f = z3.Function(fresh_name("rgi"), z3.RealSort(), z3.RealSort(), z3.RealSort())
        r0, r1 = pts[0].reader(), pts[1].reader()
        from pyvc.arr import Storage
        res = SArr(pts[0].axes, Storage(lambda idx: (f(r0(idx)[0], r1(idx)[0]), None), "f"))
        _RGI.log.append((self.a, f))
        return res


@contract("P22", IM + ":construct_rphi_avg_image")
def rphi_avg_image(V):
    _rphi(V, False)


@contract("P22", IM + ":construct_rphi_avg_image")
def rphi_avg_image_mask(V):
    _rphi(V, True)


def _rphi(V, masked):
    nr, na, r, c = V.int("nr", 2), V.int("na", 2), V.int("rows", 1), V.int("cols", 1)
    R, A, I = V.arr("radii", (nr,), "f"), V.arr("angles", (na,), "f"), V.arr("image", (nr, na), "f")
    cx, cy, px, py = V.real("cx"), V.real("cy"), V.real("px", gt=0), V.real("py", gt=0)
    V.sorted(A, na, strict=True)
    V.assume(A.at(na - 1) - A.at(0) < 2 * PI)
    kw = {}
    if masked:
        M = V.arr("mask", (nr, na), "i")
        kw["mask"] = M
    mod = V.module()
    mod.RegularGridInterpolator = _RGI

    def call():
        _RGI.log = []
        return mod.construct_rphi_avg_image(R, A, I, center=(cx, cy), shape=(r, c), pixel_size=(px, py), **kw), list(_RGI.log)
    for p in V.paths(call):
        if not p.returned():
            continue
        V.frame(p)
        out, log = p.ret
        if len(log) != 1:
            raise Unsupported("interpolator use")
        ((gr, ga), vals, be, fill), f = log[0]
        ga, vals = as_sarr(ga), as_sarr(vals)
        p.ensure("radial-grid", gr is R)
        p.ensure("nan-outside", (be is False) and fill != fill)
        k, q = V.index(na, "k"), V.index(nr, "q")
        p.ensure("grid-sizes", zand(zi(ga.shape[0]) == na.t + 2, zi(vals.shape[0]) == nr.t, zi(vals.shape[1]) == na.t + 2))
        a0 = A.at(0)
        p.ensure("angles-relative-to-first", ga.at(k + 1) == A.at(k) - a0)
        p.ensure("periodic-extension", zand(ga.at(0) == A.at(na - 1) - a0 - 2 * PI, ga.at(na + 1) == 2 * PI))

        def same(v, u, w):
            if masked:
                return zand(iff(V.nan(v), M.at(u, w) == 0), zor(V.nan(v), SV("f", v.t) == I.at(u, w)))
            return zand(V.notnan(v), SV("f", v.t) == I.at(u, w))
        p.ensure("samples", same(vals.at(q, k + 1), q, k))
        p.ensure("samples-wrap", zand(same(vals.at(q, 0), q, na - 1), same(vals.at(q, na + 1), q, 0)))
        i, j = V.index(r, "i"), V.index(c, "j")
        p.ensure("shape", zand(len(out.axes) == 2, zi(out.shape[0]) == r.t, zi(out.shape[1]) == c.t))
        v = out.at(i, j)
        d = rdist(i, j, cx, cy, px, py)
        fz = SV("f", z3.RealVal(0))
        th = SV("f", uf("arctan2")((fz + px * (i - cx)).t, (fz + py * (j - cy)).t))
        m = (th - a0) % (2 * PI)
        p.ensure("evaluated-at-pixel", v == SV("f", f(d.t, m.t)))


# ---------------------------------------------------------------- P21
class _Simps:
    """scipy.integrate.simpson as an uninterpreted function of the samples it is given"""

    def __init__(self):
        self.log = []

    def __call__(self, y, x=None, **k):
        r = SV("f", z3.Real(fresh_name("simps")))
        self.log.append((y, x, r))
        return r


@contract("P21", SP + ":integrate_ROI")
def integrate_one(V):
    _integrate(V, False)


@contract("P21", SP + ":integrate_ROI")
def integrate_one_descending(V):
    _integrate(V, True)


def _integrate(V, desc):
    n = V.int("n", 2)
    x, y = V.arr("x", (n,), "f"), V.arr("y", (n,), "f")
    if desc:
        V.assume(V.forall((n - 1,), lambda k: x.at(k) > x.at(k + 1)))
        V.assume(V.forall((n, n), lambda i, j: zimp(i < j, x.at(i) > x.at(j))))
    else:
        V.sorted(x, n, strict=True)
    gx = (lambda k: x.at(n - 1 - k)) if desc else (lambda k: x.at(k))
    gy = (lambda k: y.at(n - 1 - k)) if desc else (lambda k: y.at(k))
    lo, hi = V.real("lo"), V.real("hi")
    mod = V.module()
    S = _Simps()
    mod.simps = S

    def call():
        S.log = []
        return mod.integrate_ROI(x, y, lo, hi), list(S.log)
    for p in V.paths(call):
        inside = zand(lo < hi, lo >= gx(0), hi <= gx(n - 1))
        if p.kind == "exc":
            if p.raises(ValueError, "only-ValueError"):
                p.ensure("rejects-only-bad-intervals", znot(inside))
            continue
        p.ensure("accepts-only-good-intervals", inside)
        V.frame(p)
        tot, log = p.ret
        p.ensure("one-interval", len(log) == 1)
        if len(log) != 1:
            continue
        ys, xs, res = log[0]
        p.ensure("result", tot == res)
        m = SV("i", zi(xs.shape[0]))
        b = V.index(n, "b")
        t = V.index(n, "t")
        # b, t: first sample at or above the bounds
        V.assume(zand(gx(b) >= lo, zor(b == 0, gx(b - 1) < lo), gx(t) >= hi, zor(t == 0, gx(t - 1) < hi)))
        p.ensure("window-size", zand(zi(ys.shape[0]) == m.t, m == t - b + 1))
        k = V.index(m, "k")
        p.ensure("window-samples", zand(xs.at(k) == gx(b + k), ys.at(k) == gy(b + k)))


@contract("P21", SP + ":integrate_ROI")
def integrate_many(V):
    """any number of intervals: one Simpson term per interval, rejected when any interval is bad"""
    n, m = V.int("n", 2), V.int("m", 1)
    x, y = V.arr("x", (n,), "f"), V.arr("y", (n,), "f")
    V.sorted(x, n, strict=True)
    lo, hi = V.arr("x_min", (m,), "f"), V.arr("x_max", (m,), "f")
    mod = V.module()
    bad = V.exists((m,), lambda k: zor(lo.at(k) >= hi.at(k), lo.at(k) < x.at(0), hi.at(k) > x.at(n - 1)))
    V.assume(bad)
    for p in V.paths(lambda: mod.integrate_ROI(x, y, lo, hi)):
        p.raises(ValueError, "any-bad-interval-rejected")


@contract("P21", SP + ":integrate_ROI")
def integrate_rejects(V):
    n, m = V.int("n", 2), V.int("m", 1)
    x, y = V.arr("x", (n,), "f"), V.arr("y", (m,), "f")
    lo, hi = V.real("lo"), V.real("hi")
    with V.suppose(n != m):
        for p in V.paths(lambda: V.fn()(x, y, lo, hi)):
            p.raises(ValueError, "mismatched-lengths")
    y2 = V.arr("y2", (n,), "f")
    with V.suppose(zand(V.exists((n - 1,), lambda k: x.at(k) < x.at(k + 1)), V.exists((n - 1,), lambda k: x.at(k) >= x.at(k + 1)))):
        for p in V.paths(lambda: V.fn()(x, y2, lo, hi)):
            p.raises(ValueError, "non-monotonic-axis")


@contract("P21", SP + ":integrate_ROI_spectrum")
def spectrum_uses_bin_centers(V):
    n = V.int("n", 2)
    e, y = V.arr("edges", (n + 1,), "f"), V.arr("counts", (n,), "f")
    V.sorted(e, n + 1, strict=True)
    lo, hi = V.real("lo"), V.real("hi")
    mod = V.module()
    log = []

    def rec(x, yy, a, b):
        log[:] = [(x, yy, a, b)]
        return SV("f", z3.Real("integral"))
    mod.integrate_ROI = rec
    for p in V.paths(lambda: (mod.integrate_ROI_spectrum(e, y, lo, hi), list(log))):
        if not p.returned():
            continue
        V.frame(p)
        r, lg = p.ret
        x, yy, a, b = lg[0]
        k = V.index(n, "k")
        p.ensure("size", zi(x.shape[0]) == n.t)
        p.ensure("bin-centers", 2 * x.at(k) == e.at(k) + e.at(k + 1))
        p.ensure("counts-and-bounds-passed-on", zand(as_sarr(yy).at(k) == y.at(k), a == lo, b == hi, r == SV("f", z3.Real("integral"))))


def _quad_stub(log):
    def fit_quad_to_peak(x, y):
        b = tuple(SV("f", z3.Real(fresh_name("beta"))) for _ in range(3))
        R2 = SV("f", z3.Real(fresh_name("R2")))
        log.append((x, y, b, R2))
        return b, R2
    return fit_quad_to_peak


@contract("P21", SP + ":find_largest_peak")
def largest_peak_window(V):
    n, w = V.int("n", 3), V.int("window", 1)
    x, y = V.arr("x", (n,), "f"), V.arr("y", (n,), "f")
    V.assume(V.forall((n,), lambda k: y.at(k) > 0))
    mod = V.module()
    log = []

    def call():
        log.clear()
        mod.fit_quad_to_peak = _quad_stub(log)
        return mod.find_largest_peak(x, y, w), list(log)
    for p in V.paths(call):
        if not p.returned():
            continue
        V.frame(p)
        (x0, yv, sig), lg = p.ret
        xs, ys, b, R2 = lg[0]
        m = SV("i", zi(xs.shape[0]))
        j, k = V.index(n, "j"), V.index(m, "k")
        # j: first maximum
        V.assume(V.forall((n,), lambda q: zand(y.at(q) <= y.at(j), zimp(q < j, y.at(q) < y.at(j)))))
        lo = V.ite(j - w > 0, j - w, 0)
        hi = V.ite(j + w + 1 < n, j + w + 1, n)
        p.ensure("window-clipped-to-data", zand(m == hi - lo, zi(ys.shape[0]) == m.t))
        p.ensure("window-around-maximum", zand(xs.at(k) == x.at(lo + k), ys.at(k) == SV("f", uf("log")(y.at(lo + k).t))))
        p.ensure("position", x0 == b[1])
        p.ensure("height", yv == SV("f", uf("exp")(b[2].t)))
        p.ensure("width", zimp(b[0] < 0, sig * sig * (-2 * b[0]) == 1))


@contract("P21", SP + ":align_and_scale")
def align_two(V):
    n, m = V.int("n", 1), V.int("m", 1)
    e0, e1, c0, c1 = V.arr("e0", (n,), "f"), V.arr("e1", (m,), "f"), V.arr("c0", (n,), "f"), V.arr("c1", (m,), "f")
    pk = [tuple(V.real(s + str(q)) for s in ("E", "h", "s")) for q in range(2)]
    V.assume(zand(pk[0][2] > 0, pk[1][2] > 0))

    def find(e, c):
        return pk[0] if e is e0 else pk[1]
    for p in V.paths(lambda: V.fn()(SList([e0, e1]), SList([c0, c1]), find)):
        if not p.returned():
            continue
        V.frame(p)
        oe, oc = p.ret
        p.ensure("lengths", len(oe) == 2 and len(oc) == 2)
        for q, (e, nn) in enumerate(((e0, n), (e1, m))):
            k = V.index(nn, "k")
            p.ensure("axis-shifted-and-scaled-%d" % q, oe[q].at(k) * pk[q][2] == (e.at(k) - pk[q][0]) * pk[0][2])
        p.ensure("counts-unchanged", oc[0] is c0 and oc[1] is c1)


@contract("P21", SP + ":align_and_scale")
def align_any_number(V):
    """any number of spectra of a common length"""
    s, n = V.int("spectra", 1), V.int("n", 1)
    E, C = V.arr("energies", (s, n), "f"), V.arr("counts", (s, n), "f")
    P, W = z3.Function("peak_pos", z3.RealSort(), z3.RealSort()), z3.Function("peak_sigma", z3.RealSort(), z3.RealSort())
    # the peak finder is an arbitrary function of the spectrum (identified here by its first sample)

    def find(e, c):
        k = e.at(0).t
        return SV("f", P(k)), SV("f", z3.Real(fresh_name("h"))), SV("f", W(k))
    V.assume(V.forall((s,), lambda k: SV("f", W(E.at(k, 0).t)) > 0))
    for p in V.paths(lambda: V.fn()(E, C, find)):
        if not p.returned():
            continue
        V.frame(p)
        oe, oc = p.ret
        k, q = V.index(s, "k"), V.index(n, "q")
        V.assume(SV("f", W(E.at(k, 0).t)) > 0)
        ln = (lambda v: zi(v.slen() if hasattr(v, "slen") else len(v)))
        p.ensure("lengths", zand(ln(oe) == s.t, ln(oc) == s.t))
        w = SV("f", W(E.at(k, 0).t))
        p.ensure("axis-shifted-and-scaled", oe[k].at(q) * w == (E.at(k, q) - SV("f", P(E.at(k, 0).t))) * SV("f", W(E.at(0, 0).t)))
        p.ensure("counts-unchanged", oc[k].at(q) == C.at(k, q))


# ---------------------------------------------------------------- P32
@contract("P32", FE + ":filter_n_largest")
def n_largest(V):
    n, m, N = V.int("n", 1), V.int("m", 1), V.int("N", 1)
    y, cd = V.arr("y", (n,), "f"), V.arr("cands", (m,), "i")
    V.assume(V.forall((m,), lambda k: zand(cd.at(k) >= 0, cd.at(k) < n)))
    for p in V.paths(lambda: (V.fn()(y, cd, N), V.ctx.ghost.get("iperm"))):
        if not p.returned():
            continue
        V.frame(p)
        o, inv = p.ret
        L = SV("i", zi(o.shape[0]))
        p.ensure("count", L == V.ite(m < N, m, N))
        k = V.index(L - 1, "k")
        p.ensure("descending", y.at(o.at(k)) >= y.at(o.at(k + 1)))
        q, a = V.index(L, "q"), V.index(m, "a")
        p.ensure("only-candidates", V.exists((m,), lambda b: cd.at(b) == o.at(q)))
        if inv is None:
            raise Unsupported("no sort permutation to locate dropped candidates")
        b = SV("i", zi(m) - 1 - inv(a.t))        # where candidate a ended up
        p.ensure("larger-than-every-dropped-candidate", zor(zand(b >= 0, b < L, o.at(b) == cd.at(a)), y.at(cd.at(a)) <= y.at(o.at(q))))


@contract("P32", FE + ":filter_n_largest")
def n_largest_rejects(V):
    n, m, N = V.int("n", 1), V.int("m", 1), V.anyint_in("N")
    y, cd = V.arr("y", (n,), "f"), V.arr("cands", (m,), "i")
    V.assume(N <= 0)
    for p in V.paths(lambda: V.fn()(y, cd, N)):
        p.raises(ValueError, "non-positive-count")


@contract("P32", FE + ":filter_peak_height")
def peak_height(V):
    n, m, w = V.int("n", 1), V.int("m", 1), V.int("window", 0)
    y, cd, th = V.arr("y", (n,), "f"), V.arr("cands", (m,), "i"), V.real("thresh")
    V.assume(V.forall((m,), lambda k: zand(cd.at(k) >= 0, cd.at(k) < n)))
    for p in V.paths(lambda: V.fn()(y, cd, th, w)):
        if not p.returned():
            continue
        V.frame(p)
        o = p.ret
        ax = o.axes[0]
        k = V.index(m, "k")
        if len(ax.dims) != 1:
            raise Unsupported("layout")
        p.ensure("one-slot-per-candidate", zi(ax.dims[0]) == m.t)
        kept = SV("b", ax.pred((k.t,)) if ax.pred else z3.BoolVal(True))
        c = cd.at(k)
        V.assume(zand(c >= 0, c < n))

        def inw(i):
            return zand(i >= c - w, i <= c + w)
        # a, b: positions of the largest and smallest sample in the window clipped to the data
        a, b = V.index(n, "a"), V.index(n, "b")
        V.assume(zand(inw(a), inw(b), V.forall((n,), lambda i: zimp(inw(i), zand(y.at(i) <= y.at(a), y.at(i) >= y.at(b))))))
        p.ensure("keeps-exactly-high-enough", iff(kept, y.at(a) - y.at(b) > th))
        p.ensure("candidate-index-returned", SV("i", o.reader()(((k.t,),))[0]) == c)


def _refine(V, log_):
    n = V.int("n", 3)
    x, y = V.arr("x", (n,), "f"), V.arr("y", (n,), "f")
    V.assume(V.forall((n,), lambda k: y.at(k) > 0))
    mod = V.module()
    name = V.c.target.split(":")[1]
    for th in (None, V.real("thresh")):
        log = []

        def call():
            log.clear()
            mod.fit_quad_to_peak = _quad_stub(log)
            return getattr(mod, name)(x, y, th), list(log)

        def call2():
            try:
                return call()
            except mod.PeakRejection:
                return None, list(log)
        for p in V.paths(call2):
            if not p.returned():
                continue
            V.frame(p)
            r, lg = p.ret
            xs, ys, b, R2 = lg[0]
            if r is None:
                p.ensure("rejects-only-below-quality", th is not None and zb(R2 < th))
                continue
            if th is not None:
                p.ensure("accepts-only-above-quality", R2 >= th)
            k = V.index(n, "k")
            p.ensure("fits-all-samples", zand(zi(xs.shape[0]) == n.t, xs.at(k) == x.at(k),
                                              ys.at(k) == (SV("f", uf("log")(y.at(k).t)) if log_ else y.at(k))))
            p.ensure("vertex", zand(r[0] == b[1], r[1] == (SV("f", uf("exp")(b[2].t)) if log_ else b[2])))


@contract("P32", FE + ":refine_quadratic")
def refine_quadratic(V):
    _refine(V, False)


@contract("P32", FE + ":refine_log_quadratic")
def refine_log_quadratic(V):
    _refine(V, True)


@contract("P32", FU + ":fit_quad_to_peak")
def fit_quad(V):
    n = V.int("n", 3)
    x, y = V.arr("x", (n,), "f"), V.arr("y", (n,), "f")
    for p in V.paths(lambda: V.fn()(x, y)):
        if not p.returned():
            continue
        V.frame(p)
        (a, x0, y0), R2 = p.ret
        V.assume(a != 0)
        for m in range(3):
            def body(k, m=m):
                e = a * (x.at(k) - x0) * (x.at(k) - x0) + y0 - y.at(k)
                for _ in range(m):
                    e = e * x.at(k)
                return e
            p.ensure("least-squares-normal-equation-%d" % m, V.sum((n,), body) == 0)
        b = V.ctx.ghost.get("lstsq")
        if b is None or len(b) != 3:
            raise Unsupported("no least-squares solution to compare with")
        p.ensure("vertex-form-of-the-fitted-parabola", zand(a == b[0], 2 * a * x0 == -b[1], y0 + a * x0 * x0 == b[2]))
        mean = V.sum((n,), lambda k: y.at(k)) / n

        def res(k):
            return b[0] * x.at(k) * x.at(k) + b[1] * x.at(k) + b[2] - y.at(k)
        err = V.sum((n,), lambda k: res(k) * res(k))
        tot = V.sum((n,), lambda k: (y.at(k) - mean) * (y.at(k) - mean))
        p.ensure("R2", zimp(tot != 0, (1 - R2) * tot == err))


@contract("P32", FE + ":peak_refinement")
def peak_refinement(V):
    n, m, w = V.int("n", 1), V.int("m", 1), V.int("window", 0)
    x, y, cd = V.arr("x", (n,), "f"), V.arr("y", (n,), "f"), V.arr("cands", (m,), "i")
    V.assume(V.forall((m,), lambda k: zand(cd.at(k) >= 0, cd.at(k) < n)))
    mod = V.module()
    # an arbitrary refinement: outcome is any function of where the window lies (first sample and size), with the
    # samples it receives checked below
    I_, R_ = z3.IntSort(), z3.RealSort()
    rej, f1, f2 = z3.Function("rejected", R_, R_, I_, z3.BoolSort()), z3.Function("out1", R_, R_, I_, R_), z3.Function("out2", R_, R_, I_, R_)
    seen = []

    def refine(xs, ys):
        key = (xs.at(0).t, ys.at(0).t, zi(xs.shape[0]))
        seen[:] = [(xs, ys)]
        if V.ctx.decide(rej(*key)):
            raise mod.PeakRejection()
        return SV("f", f1(*key)), SV("f", f2(*key))
    for p in V.paths(lambda: mod.peak_refinement(x, y, cd, w, refine)):
        if not p.returned():
            continue
        V.frame(p)
        k = V.index(m, "k")
        c = cd.at(k)
        V.assume(zand(c >= 0, c < n))
        lo, hi = V.ite(c - w > 0, c - w, 0), V.ite(c + w + 1 < n, c + w + 1, n)
        key = (x.at(lo).t, y.at(lo).t, (hi - lo).t)
        ok = SV("b", znot(rej(*key)))
        if len(p.ret) == 0:
            p.ensure("empty-only-when-all-rejected", znot(ok))
            continue
        p.ensure("two-outputs", len(p.ret) == 2)
        for q, f in enumerate((f1, f2)):
            a = p.ret[q]
            ax = a.axes[0]
            if len(ax.dims) != 1:
                raise Unsupported("layout")
            p.ensure("one-slot-per-candidate", zi(ax.dims[0]) == m.t)
            kept = SV("b", ax.pred((k.t,)) if ax.pred else z3.BoolVal(True))
            p.ensure("rejected-dropped", iff(kept, ok))
            p.ensure("value-of-clipped-window-%d" % q, zimp(kept, SV("f", a.reader()(((k.t,),))[0]) == SV("f", f(*key))))
