"""Contracts: one-time and two-time correlation, masked cross-correlation (skbeam/core/correlation.py)."""
import z3

from pyvc.arr import Ax, SArr, Storage, as_sarr, dim, sym_arr, zi
from pyvc.core import CTX, FInt, SV, Unsupported, fresh_name, uf, zand, zb, zimp, znot, zor
from pyvc.npshim import np as N
from pyvc.seq import SList, symiter
from pyvc.verify import contract

CO = "skbeam.core.correlation"


def labsum(V, lab, npx, q, f):
    """sum of f over the pixels of label q + 1"""
    return V.sum((npx,), lambda k: V.ite(lab.at(k) == q + 1, f(k), 0.0))


def raw(x):
    return SV("f", x.t)


# ---------------------------------------------------------------- P14
@contract("P14", CO + ":one_time_from_two_time")
def one_time_from_two_time(V):
    q, n = V.int("q", 1), V.int("n", 1)
    g = V.arr("g2", (q, n, n), "f")
    for p in V.paths(lambda: V.fn()(g)):
        if not p.returned():
            continue
        V.frame(p)
        a, j = V.index(q), V.index(n)
        p.ensure("shape", zand(zi(p.ret.shape[0]) == zi(q), zi(p.ret.shape[1]) == zi(n)))
        p.ensure("mean-of-diagonal", p.ret.at(a, j) * (n - j) == V.sum((n - j,), lambda t: g.at(a, t, t + j)))


def spec_arr(dims, f, kind="i"):
    return SArr([Ax((dim(d),)) for d in dims], Storage(lambda idx: (f(*[SV("i", k[0]) for k in idx]).t, None), kind))


@contract("P14", CO + ":two_time_state_to_results")
def state_to_results(V):
    nl, n, npx = V.int("nlab", 1), V.int("n", 1), V.int("npx", 1)
    g0 = V.arr("g2", (nl, n, n), "f")
    lab = V.arr("lab", (npx,), "i")
    V.assume(V.forall((npx,), lambda k: zand(lab.at(k) >= 1, lab.at(k) <= nl)))
    V.assume(V.exists((npx,), lambda k: lab.at(k) == nl))
    lag = V.arr("lag", (n,), "i")
    mod = V.module()
    tok = [object() for _ in range(10)]

    def call():
        st = mod._two_time_internal_state(tok[0], tok[1], lab, tok[2], tok[3], tok[4], tok[5], lag, g0.copy(), tok[6], 1, tok[7], tok[8], tok[9])
        return mod.two_time_state_to_results(st), st
    for p in V.paths(call):
        if not p.returned():
            continue
        V.frame(p)
        res, st = p.ret
        q, a, b = V.index(nl), V.index(n), V.index(n)
        p.ensure("lower-triangle-kept", zimp(a >= b, res.g2.at(q, a, b) == g0.at(q, a, b)))
        p.ensure("symmetric", zimp(a < b, res.g2.at(q, a, b) == g0.at(q, b, a)))
        p.ensure("lags", res.lag_steps is lag)


def _two(level):
    def c(V):
        half, npx, nl, fr = V.int("half", 1), V.int("npx", 1), V.int("nlab", 1), V.int("frames", 1)
        nb = half * 2
        L = level + 1
        buf = V.arr("buf", (L, nb, npx), "f")
        g0 = V.arr("g2", (nl, fr, fr), "f")
        lab, cnt = V.arr("lab", (npx,), "i"), V.arr("num_pixels", (nl,), "i")
        V.assume(V.forall((npx,), lambda k: zand(lab.at(k) >= 1, lab.at(k) <= nl)))
        V.assume(V.forall((nl,), lambda k: cnt.at(k) >= 1))
        V.assume(V.exists((npx,), lambda k: lab.at(k) == nl))
        ipl0 = V.arr("img_per_level", (L,), "i")
        V.assume(V.forall((L,), lambda k: ipl0.at(k) >= 0))
        bn = V.anyint("buf_no")
        V.assume(zand(bn >= -1, bn < nb))
        rows = (L + 1) * half
        lag = spec_arr((rows,), lambda k: k)
        t = V.int("time", 1)
        V.assume(zand(t <= fr, ipl0.at(0) + 1 == t))

        def call():
            g2, ipl = g0.copy(), ipl0.copy()
            V.fn()(buf, g2, lab, nb, cnt, ipl, lag, t, level, bn)
            return g2, ipl
        for p in V.paths(call):
            if not p.returned():
                continue
            V.frame(p)
            g2, ipl = p.ret
            p.ensure("frame-count", ipl.at(level) == ipl0.at(level) + 1)
            q, a, b = V.index(nl), V.index(fr), V.index(fr)
            i = a - b
            hit = zand(a == t - 1, i >= 0, i < nb)
            p.ensure("other-entries-kept", zimp(znot(hit), g2.at(q, a, b) == g0.at(q, a, b)))
            d = (bn - i) % nb
            for case, nm, f in ((bn >= 0, "", bn), (bn < 0, "-last", nb + bn)):
                with V.suppose(zand(case, hit)):
                    pf = labsum(V, lab, npx, q, lambda k: buf.at(level, d, k) * buf.at(level, f, k))
                    pp = labsum(V, lab, npx, q, lambda k: buf.at(level, d, k))
                    ff = labsum(V, lab, npx, q, lambda k: buf.at(level, f, k))
                    p.ensure("correlation" + nm, zimp(zand(pp != 0, ff != 0), g2.at(q, a, b) == pf / (pp * ff) * cnt.at(q)))
    c.__name__ = "two_time_process_%d" % level
    return c


contract("P14", CO + ":_two_time_process")(_two(0))


def _two_deep(level):
    """level >= 1: each pair of averaged frames fills the 2**level diagonal entries of its block"""
    w, L = 2 ** level, level + 1

    def c(V):
        half, npx, nl, fr = V.int("half", 1), V.int("npx", 1), V.int("nlab", 1), V.int("frames", 1)
        nb = half * 2
        buf = V.arr("buf", (L, nb, npx), "f")
        g0 = V.arr("g2", (nl, fr, fr), "f")
        lab, cnt = V.arr("lab", (npx,), "i"), V.arr("num_pixels", (nl,), "i")
        V.assume(V.forall((npx,), lambda k: zand(lab.at(k) >= 1, lab.at(k) <= nl)))
        V.assume(V.forall((nl,), lambda k: cnt.at(k) >= 1))
        V.assume(V.exists((npx,), lambda k: lab.at(k) == nl))
        ipl0 = V.arr("img_per_level", (L,), "i")
        m = V.int("blocks", 0)
        V.assume(zand(ipl0.at(level) == m, w * m + w <= fr))
        bn = V.anyint("buf_no")
        V.assume(zand(bn >= 0, bn < nb))
        rows = (L + 1) * half
        lag = spec_arr((rows,), lambda k: w * (k - level * half))      # rows of this level (the only ones it may use)
        t = w * m + (w + 1) / 2.0

        def call():
            g2, ipl = g0.copy(), ipl0.copy()
            V.fn()(buf, g2, lab, nb, cnt, ipl, lag, t, level, bn)
            return g2, ipl
        for p in V.paths(call):
            if not p.returned():
                continue
            V.frame(p)
            g2, ipl = p.ret
            p.ensure("frame-count", zand(ipl.at(level) == m + 1, *[ipl.at(l) == ipl0.at(l) for l in range(level)]))
            q, a, b = V.index(nl), V.index(fr), V.index(fr)
            i = V.index(nb)
            block = zand(a >= w * m, a < w * m + w)
            hit = zand(block, a - b == w * i, i >= half, i <= m)
            d = (bn - i) % nb
            with V.suppose(hit):
                pf = labsum(V, lab, npx, q, lambda k: buf.at(level, d, k) * buf.at(level, bn, k))
                pp = labsum(V, lab, npx, q, lambda k: buf.at(level, d, k))
                ff = labsum(V, lab, npx, q, lambda k: buf.at(level, bn, k))
                p.ensure("correlation", zimp(zand(pp != 0, ff != 0), g2.at(q, a, b) == pf / (pp * ff) * cnt.at(q)))
            out = znot(zand(block, a - b >= w * half, a - b < w * nb, (a - b) % w == 0))
            p.ensure("other-entries-kept", zimp(out, g2.at(q, a, b) == g0.at(q, a, b)))
    c.__name__ = "two_time_process_%d" % level
    return c


for _l in (1, 2, 3):
    contract("P14", CO + ":_two_time_process", **({"hard": True} if _l > 1 else {}))(_two_deep(_l))


def _lazy2(L):
    """one image fed to an arbitrary two-time state satisfying the ring-buffer invariant"""
    def c(V):
        half, npx, nl, r, cc, fr_ = V.int("half", 1), V.int("npx", 1), V.int("nlab", 1), V.int("rows", 1), V.int("cols", 1), V.int("total", 1)
        nb = half * 2
        img = V.arr("image", (r, cc), "f")
        pix = V.arr("pixel_list", (npx,), "i")
        V.assume(V.forall((npx,), lambda k: zand(pix.at(k) >= 0, pix.at(k) < r * cc)))
        buf0 = V.arr("buf", (L, nb, npx), "f")
        cur0, count0, track0 = V.arr("cur", (L,), "i"), V.arr("count", (L,), "i"), V.arr("track", (L,), "b")
        g0 = V.arr("g2", (nl, fr_, fr_), "f")
        n = V.int("frames", 0)
        m = [n]
        for l in range(1, L):
            m.append(m[-1] // 2)
        fr = [z3.Function("frame%d" % l, z3.IntSort(), z3.IntSort(), z3.RealSort()) for l in range(L)]

        def F(l, t, k):
            return SV("f", fr[l](zi(t), zi(k)))

        def age(cl, s):
            d = cl - 1 - s
            return V.ite(d >= 0, d, d + nb)
        for l in range(L):
            cl = cur0.at(l)
            V.assume(zand(cl >= (0 if l == 0 else 1), cl <= (nb - 1 if l == 0 else nb), count0.at(l) == m[l]))
            if l:
                V.assume(zb(track0.at(l)) == zb(m[l - 1] % 2 == 1))
            V.assume(V.forall((nb, npx), lambda s, k: zimp(age(cl, s) < m[l], buf0.at(l, s, k) == F(l, m[l] - 1 - age(cl, s), k))))
        mod = V.module()
        log = []

        def process(*a, **kw):
            names = ["buf", "g2", "label_array", "num_bufs", "num_pixels", "img_per_level", "lag_steps", "current_img_time", "level", "buf_no"]
            d = dict(zip(names, a))
            d.update(kw)
            if set(d) != set(names):
                raise Unsupported("helper called differently")
            log.append((d["level"], d["buf_no"], d["buf"].copy(), d["g2"], d["num_bufs"], d["current_img_time"]))
        mod._two_time_process = process
        tok = [object() for _ in range(7)]

        class Times:
            """times of the frames of a level: frame t of level l is centered at (t + 1/2) 2^l + 1/2"""

            def __init__(self, l):
                self.l, self.added = l, []

            def __getitem__(self, k):
                if self.added and CTX().decide(zb(k == m[self.l])):
                    return self.added[0]
                CTX().oblige("recorded-times-%d" % self.l, zb(zand(k >= 0, k < m[self.l])))
                return centre(self.l, k)

            def append(self, v):
                self.added.append(v)

        def centre(l, k):
            return k + 1 if l == 0 else (k * 2 ** l) + (2 ** l + 1) / 2.0

        def call():
            del log[:]
            times = {l: Times(l) for l in range(L)}
            st = mod._two_time_internal_state(buf0.copy(), tok[0], tok[1], track0.copy(), cur0.copy(), pix, tok[2], tok[3], g0, count0.copy(), n, times, tok[4], tok[5])
            out = list(mod.lazy_two_time(None, [img], fr_, nb, L, two_time_internal_state=st))
            return out, list(log), times
        for p in V.paths(call):
            if not p.returned():
                continue
            V.frame(p)
            out, lg, times = p.ret
            p.ensure("one-state", len(out) == 1)
            if not lg:
                raise Unsupported("helper not called")
            st = out[0]
            n1 = [n + 1]
            for l in range(1, L):
                n1.append(n1[-1] // 2)
            px = V.index(npx)
            new = img.ravel().at(pix.at(px))
            p.ensure("time-advanced", st.current_img_time == n + 1)
            for l in range(L):
                if l < len(lg):
                    lev, bn, snap, g, nbuf, tm = lg[l]
                    p.ensure("level-order-%d" % l, zand(lev == l, g is g0, nbuf == nb))
                    p.ensure("complete-frame-%d" % l, n1[l] == m[l] + 1)
                    p.ensure("frame-time-%d" % l, zand(tm == centre(l, m[l]), len(times[l].added) == 1))
                    p.ensure("frame-time-recorded-%d" % l, times[l].added[0] == centre(l, m[l]) if times[l].added else False)
                    if l:
                        new = (F(l - 1, m[l - 1] - 1, px) + new) / 2
                    s_ = V.index(nb)
                    a = age(bn + 1, s_)
                    p.ensure("newest-frame-%d" % l, zimp(a == 0, snap.at(l, s_, px) == new))
                    p.ensure("older-frames-%d" % l, zimp(zand(a > 0, a <= m[l]), snap.at(l, s_, px) == F(l, m[l] - a, px)))
                    p.ensure("buffer-kept-%d" % l, st.buf.at(l, s_, px) == snap.at(l, s_, px))
                    p.ensure("cursor-%d" % l, zand(st.cur.at(l) - 1 == bn, st.cur.at(l) >= (0 if l == 0 else 1), st.cur.at(l) <= (nb - 1 if l == 0 else nb)))
                else:
                    p.ensure("no-frame-%d" % l, n1[l] == m[l])
                    j = V.index(nb)
                    p.ensure("untouched-%d" % l, zand(st.cur.at(l) == cur0.at(l), st.buf.at(l, j, px) == buf0.at(l, j, px), len(times[l].added) == 0))
                p.ensure("count-%d" % l, st.count_level.at(l) == n1[l])
                if l:
                    p.ensure("half-frame-flag-%d" % l, zb(st.track_level.at(l)) == zb(n1[l - 1] % 2 == 1))
    c.__name__ = "lazy_two_time_step_%d" % L
    return c


for _l in (1, 2, 3):
    contract("P14", CO + ":lazy_two_time")(_lazy2(_l))


# ---------------------------------------------------------------- P13
def _proc(level, nan=False):
    def c(V):
        half, npx, nl = V.int("half", 1), V.int("npx", 1), V.int("nlab", 1)
        nb = half * 2
        nlev = V.int("levels", level + 1)
        buf = V.arr("buf", (nlev, nb, npx), "f", nan)
        rows = (nlev + 1) * half
        acc0 = [V.arr(k, (rows, nl), "f") for k in ("G", "past", "future")]
        lab = V.arr("lab", (npx,), "i")
        V.assume(V.forall((npx,), lambda k: zand(lab.at(k) >= 1, lab.at(k) <= nl)))
        cnt = V.arr("num_pixels", (nl,), "i")
        V.assume(V.forall((nl,), lambda k: cnt.at(k) >= 1))
        V.assume(V.exists((npx,), lambda k: lab.at(k) == nl))
        ipl0 = V.arr("img_per_level", (nlev,), "i")
        V.assume(V.forall((nlev,), lambda k: ipl0.at(k) >= 0))
        bn = V.anyint("buf_no")
        V.assume(zand(bn >= -1, bn < nb))
        lev_len = V.arr("lev_len", (nlev,), "i")
        V.assume(lev_len.at(0) == nb)
        V.assume(V.forall((nlev,), lambda k: zimp(k >= 1, lev_len.at(k) == half)))
        sizes = [nb] + [half] * level
        norm0 = {k + 1: V.arr("norm%d" % (k + 1), (sizes[k],), "i") for k in range(level + 1)}

        def call():
            acc = [x.copy() for x in acc0]
            ipl, norm = ipl0.copy(), {k: x.copy() for k, x in norm0.items()}
            V.fn()(buf, acc[0], acc[1], acc[2], lab, nb, cnt, ipl, level, bn, norm, lev_len)
            return acc, ipl, norm
        for p in V.paths(call):
            if not p.returned():
                continue
            V.frame(p)
            acc, ipl, norm = p.ret
            lv = V.index(nlev)
            m = ipl0.at(level) + 1
            p.ensure("frame-count", ipl.at(lv) == V.ite(lv == level, ipl0.at(lv) + 1, ipl0.at(lv)))
            r, q = V.index(rows), V.index(nl)
            i = r - level * half
            hit = zand(i >= (0 if level == 0 else half), i < nb, i < m)
            d = (bn - i) % nb
            for case, nm2, f in ((bn >= 0, "", bn), (bn < 0, "-last", nb + bn)):
                vals = [labsum(V, lab, npx, q, lambda k: raw(buf.at(level, d, k)) * raw(buf.at(level, f, k))),
                        labsum(V, lab, npx, q, lambda k: raw(buf.at(level, d, k))),
                        labsum(V, lab, npx, q, lambda k: raw(buf.at(level, f, k)))]
                bad = False
                if nan:
                    bad = zor(V.exists((npx,), lambda k: V.nan(buf.at(level, d, k))), V.exists((npx,), lambda k: V.nan(buf.at(level, f, k))))
                with V.suppose(case):
                    sk = V.index(sizes[level])
                    off = 0 if level == 0 else half
                    p.ensure("skipped-pairs" + nm2, zimp(sk + off == i, norm[level + 1].at(sk) == norm0[level + 1].at(sk) + V.ite(zand(hit, bad), 1, 0)))
                    for nm, o, a, v in zip(("product", "past", "future"), acc0, acc, vals):
                        w = m - i - norm0[level + 1].at(V.ite(hit, i - (0 if level == 0 else half), 0))
                        p.ensure("kept-" + nm + nm2, zimp(znot(zand(hit, znot(bad))), zand(V.notnan(a.at(r, q)), raw(a.at(r, q)) == o.at(r, q))))
                        p.ensure("running-mean-" + nm + nm2, zimp(zand(hit, znot(bad), w != 0), zand(V.notnan(a.at(r, q)), raw(a.at(r, q)) == o.at(r, q) + (v / cnt.at(q) - o.at(r, q)) / w)))
                        p.ensure("weighted-sum-" + nm + nm2, zimp(zand(hit, znot(bad), w != 0), raw(a.at(r, q)) * w == o.at(r, q) * (w - 1) + v / cnt.at(q)))
    c.__name__ = "process_level%d%s" % (level, "_nan" if nan else "")
    return c


contract("P13", CO + ":_one_time_process")(_proc(0))
contract("P13", CO + ":_one_time_process")(_proc(1))
contract("P13", CO + ":_one_time_process")(_proc(0, True))
contract("P13", CO + ":_one_time_process")(_proc(2, True))


def _lazy(L):
    """one image fed to an arbitrary state satisfying the ring-buffer invariant (inductive step over the frame history)"""
    def c(V):
        half, npx, nl, r, cc = V.int("half", 1), V.int("npx", 1), V.int("nlab", 1), V.int("rows", 1), V.int("cols", 1)
        nb = half * 2
        img = V.arr("image", (r, cc), "f")
        pix = V.arr("pixel_list", (npx,), "i")
        V.assume(V.forall((npx,), lambda k: zand(pix.at(k) >= 0, pix.at(k) < r * cc)))
        rows = (L + 1) * half
        buf0 = V.arr("buf", (L, nb, npx), "f")
        cur0 = V.arr("cur", (L,), "i")
        track0 = V.arr("track", (L,), "b")
        acc0 = [V.arr(k, (rows, nl), "f") for k in ("G", "past", "future")]
        lag = V.arr("lag", (rows,), "i")
        # ghost: number of frames and frame contents per level
        n = V.int("frames", 0)
        m = [n]
        for l in range(1, L):
            m.append(m[-1] // 2)
        fr = [z3.Function("frame%d" % l, z3.IntSort(), z3.IntSort(), z3.RealSort()) for l in range(L)]

        def F(l, t, k):
            return SV("f", fr[l](zi(t), zi(k)))

        def age(cl, s):
            """age of the frame in slot s when the cursor is cl"""
            d = cl - 1 - s
            return V.ite(d >= 0, d, d + nb)
        for l in range(L):
            cl = cur0.at(l)
            V.assume(zand(cl >= (0 if l == 0 else 1), cl <= (nb - 1 if l == 0 else nb)))
            if l:
                V.assume(zb(track0.at(l)) == zb(m[l - 1] % 2 == 1))
            V.assume(V.forall((nb, npx), lambda s, k: zimp(age(cl, s) < m[l], buf0.at(l, s, k) == F(l, m[l] - 1 - age(cl, s), k))))
        mod = V.module()
        log = []

        def process(*a, **kw):
            if len(a) != 12 or kw:
                raise Unsupported("helper called differently")
            buf, G, past, future, label_array, num_bufs, num_pixels, img_per_level, level, buf_no, norm, lev_len = a
            log.append((level, buf_no, buf.copy(), (G, past, future), num_bufs))
        mod._one_time_process = process
        tok = [object() for _ in range(5)]

        def call():
            del log[:]
            st = mod._internal_state(buf0.copy(), acc0[0], acc0[1], acc0[2], tok[0], tok[1], track0.copy(), cur0.copy(), pix, tok[2], lag, tok[3], tok[4])
            out = list(mod.lazy_one_time([img], L, nb, None, internal_state=st))
            return out, st, list(log)
        for p in V.paths(call):
            if not p.returned():
                continue
            V.frame(p)
            out, st, lg = p.ret
            p.ensure("one-result", len(out) == 1)
            st = out[0].internal_state
            if not lg:
                raise Unsupported("helper not called")
            nlv = len(lg)
            n1 = [n + 1]
            for l in range(1, L):
                n1.append(n1[-1] // 2)
            px = V.index(npx)
            # the frame every processed level receives
            new = img.ravel().at(pix.at(px))
            for l in range(L):
                if l < nlv:
                    lev, bn, snap, accs, nbuf = lg[l]
                    p.ensure("level-order-%d" % l, zand(lev == l, accs[0] is acc0[0], accs[1] is acc0[1], accs[2] is acc0[2], nbuf == nb))
                    p.ensure("complete-frame-%d" % l, zand(n1[l] == m[l] + 1))
                    if l:
                        new = (F(l - 1, m[l - 1] - 1, px) + new) / 2
                    s_ = V.index(nb)
                    a = age(bn + 1, s_)
                    p.ensure("newest-frame-%d" % l, zimp(a == 0, snap.at(l, s_, px) == new))
                    p.ensure("older-frames-%d" % l, zimp(zand(a > 0, a <= m[l]), snap.at(l, s_, px) == F(l, m[l] - a, px)))
                    p.ensure("buffer-kept-%d" % l, st.buf.at(l, s_, px) == snap.at(l, s_, px))
                    p.ensure("cursor-%d" % l, zand(st.cur.at(l) - 1 == bn, st.cur.at(l) >= (0 if l == 0 else 1), st.cur.at(l) <= (nb - 1 if l == 0 else nb)))
                else:
                    p.ensure("no-frame-%d" % l, n1[l] == m[l])
                    j = V.index(nb)
                    p.ensure("untouched-%d" % l, zand(st.cur.at(l) == cur0.at(l), st.buf.at(l, j, px) == buf0.at(l, j, px)))
                if l:
                    p.ensure("half-frame-flag-%d" % l, zb(st.track_level.at(l)) == zb(n1[l - 1] % 2 == 1))
            res = out[0]
            ln = V.len(res.g2)
            t, q = V.index(rows), V.index(nl)
            p.ensure("reported-delays-have-pairs", zimp(t < ln, acc0[1].at(t, q) != 0))
            p.ensure("first-missing-delay", zand(ln <= rows, zor(ln == rows, V.exists((nl,), lambda x: acc0[1].at(ln, x) == 0))))
            p.ensure("g2", zimp(zand(t < ln, acc0[2].at(t, q) != 0), res.g2.at(t, q) == acc0[0].at(t, q) / (acc0[1].at(t, q) * acc0[2].at(t, q))))
            p.ensure("lags", zand(V.len(res.lag_steps) == ln, zimp(t < ln, res.lag_steps.at(t) == lag.at(t))))
    c.__name__ = "lazy_step_%d" % L
    return c


for _l in (1, 2, 3):
    contract("P13", CO + ":lazy_one_time")(_lazy(_l))


# ---------------------------------------------------------------- P16
def _ccorr(nd, self_):
    def c(V):
        dims = tuple(V.int("n%d" % k, 1) for k in range(nd))
        a = V.arr("img1", dims, "f")
        b = a if self_ else V.arr("img2", dims, "f")
        for p in V.paths(lambda: V.fn()(a) if self_ else V.fn()(a, b)):
            if not p.returned():
                continue
            V.frame(p)
            p.ensure("shape", zand(len(p.ret.shape) == nd, *[zi(s) == zi(2 * d - 1) for s, d in zip(p.ret.shape, dims)]))
            m = [V.index(2 * d - 1) for d in dims]
            sh = [x - (d - 1) for x, d in zip(m, dims)]      # displacement

            def body(*i):
                o = [x - s for x, s in zip(i, sh)]
                return V.ite(zand(*[zand(x >= 0, x < d) for x, d in zip(o, dims)]), a.at(*i) * b.at(*o), 0.0)
            p.ensure("pair-sum", p.ret.at(*m) == V.sum(dims, body))
    c.__name__ = "cross_corr_%dd%s" % (nd, "_self" if self_ else "")
    return c


for _n in (1, 2, 3):
    for _s in (False, True):
        contract("P16", CO + ":_cross_corr")(_ccorr(_n, _s))


@contract("P16", CO + ":_cross_corr")
def cross_corr_shape(V):
    dims, dims2 = tuple(V.int("n%d" % k, 1) for k in range(2)), tuple(V.int("m%d" % k, 1) for k in range(2))
    V.assume(zor(dims[0] != dims2[0], dims[1] != dims2[1]))
    a, b = V.arr("img1", dims, "f"), V.arr("img2", dims2, "f")
    for p in V.paths(lambda: V.fn()(a, b)):
        p.raises(ValueError)


def _cccall(nd, R, norm, two, late=False):
    """the correlation of R labelled regions for an object satisfying the class invariant
    (pixel lists sorted by region, positions relative to the bounding box, one entry per pixel)"""
    def c(V):
        mod = V.module()
        cls = mod.CrossCorrelator
        rows, cols = (1 if nd == 1 else V.int("rows", 1)), V.int("cols", 1)
        shape = (cols,) if nd == 1 else (rows, cols)
        cnt = [V.int("n%d" % k, 1) for k in range(R)]
        start = [0]
        for k in cnt:
            start.append(start[-1] + k)
        tot = start[-1]
        pi, pj = V.arr("pi", (tot,), "i"), V.arr("pj", (tot,), "i")
        V.assume(V.forall((tot,), lambda k: zand(pi.at(k) >= 0, pi.at(k) < rows, pj.at(k) >= 0, pj.at(k) < cols)))
        ppi, ppj = V.arr("ppii", (tot,), "i"), V.arr("ppjj", (tot,), "i")
        H = [1 if nd == 1 else V.int("H%d" % k, 1) for k in range(R)]
        W = [V.int("W%d" % k, 1) for k in range(R)]
        shapes = spec_arr((R, 2), lambda a, b: V.ite(b == 0, _pick(V, a, H), _pick(V, a, W)))
        idpos = spec_arr((R + 1,), lambda a: _pick(V, a, start))
        T = [[V.arr("T%d_%d" % (im, k), (H[k], W[k]), "f") for k in range(R)] for im in (1, 2)]
        M = [V.arr("M%d" % k, (H[k], W[k]), "f") for k in range(R)]
        mc = [V.arr("maskcorr%d" % k, (2 * H[k] - 1, 2 * W[k] - 1), "f", True) for k in range(R)]
        img = [V.arr("img1", shape, "f"), V.arr("img2", shape, "f")]
        pos = [z3.Function("pixelat%d" % k, z3.IntSort(), z3.IntSort(), z3.IntSort()) for k in range(R)]
        for k in range(R):
            lo, hi = start[k], start[k + 1]
            at = lambda a, b: SV("i", pos[k](zi(a), zi(b)))  # noqa
            V.assume(V.forall((tot,), lambda t: zimp(zand(t >= lo, t < hi), zand(
                ppi.at(t) >= 0, ppi.at(t) < H[k], ppj.at(t) >= 0, ppj.at(t) < W[k], at(ppi.at(t), ppj.at(t)) == t))))
            member = lambda a, b: zand(at(a, b) >= lo, at(a, b) < hi, ppi.at(at(a, b)) == a, ppj.at(at(a, b)) == b)  # noqa

            def pixel(im, a, b):
                t = at(a, b)
                v = img[im].at(pj.at(t)) if nd == 1 else img[im].at(pi.at(t), pj.at(t))
                return v
            V.assume(V.forall((H[k], W[k]), lambda a, b: M[k].at(a, b) == V.ite(member(a, b), 1.0, 0.0)))
            for im in (0, 1):
                V.assume(V.forall((H[k], W[k]), lambda a, b: T[im][k].at(a, b) == V.ite(member(a, b), pixel(im, a, b), 0.0)))

        cand = [("1", T[0]), ("2", T[1]), ("M", M)]

        def which(x):
            """the region image an argument is, decided for all its elements"""
            for k in range(R):
                if not V.ctx.valid(zand(zi(x.shape[0]) == zi(H[k]), zi(x.shape[1]) == zi(W[k]))):
                    continue
                i, j = V.index(H[k]), V.index(W[k])
                for n, c_ in cand:
                    if x is c_[k]:
                        return n, k
                    if V.ctx.valid(zb(x.at(i, j) == c_[k].at(i, j))):
                        x[...] = c_[k]      # no change of value: just proved equal everywhere
                        return n, k
            return None

        def ccfun(a, b, k):
            return z3.Function("CC_%s%s_%d" % (a, b, k), z3.IntSort(), z3.IntSort(), z3.RealSort())

        def cross(a, b=None):
            b = a if b is None else b
            wa, wb = which(as_sarr(a)), which(as_sarr(b))
            if wa is None or wb is None or wa[1] != wb[1]:
                return V.arr(fresh_name("unknown"), (2 * a.shape[0] - 1, 2 * a.shape[1] - 1), "f")
            f = ccfun(wa[0], wb[0], wa[1])
            return spec_arr((2 * H[wa[1]] - 1, 2 * W[wa[1]] - 1), lambda i, j: SV("f", f(i.t, j.t)), "f")
        mod._cross_corr = cross

        def call():
            o = cls.__new__(cls)
            o.normalization = ["none"] if late else list(norm)
            o.shape, o.ndim, o.nids = shape, nd, R
            o.ppii, o.ppjj, o.pi, o.pj = ppi, ppj, pi, pj
            o.shapes, o.idpos = shapes, idpos
            o.submasks, o.maskcorrs = list(M), list(mc)
            o.pxlst_maskcorrs = o.positions = o.centers = None
            kw = {"normalization": list(norm)} if late else {}
            return o(img[0], img[1], **kw) if two else o(img[0], **kw)
        for p in V.paths(call):
            if not p.returned():
                continue
            V.frame(p)
            res = [p.ret] if R == 1 else p.ret
            p.ensure("regions", len(res) == R)
            for k in range(R):
                dims = (H[k], W[k])
                m = [V.index(2 * d - 1) for d in dims]
                if nd == 1:
                    m[0] = 0

                def corr(a, b):
                    return SV("f", ccfun(a, b, k)(zi(m[0]), zi(m[1])))
                two_ = "2" if two else "1"
                val = corr("1", two_)
                q = mc[k].at(*m)
                num = SV("f", q.t)
                ok = zand()
                if "symavg" in norm:
                    i1, i2 = corr("1", "M"), corr("M", two_)
                    val = val * num / i1 / i2
                    ok = zand(ok, i1 != 0, i2 != 0)
                if "regular" in norm:
                    avg = []
                    for im in (0, 1 if two else 0):
                        on = lambda t: T[im][k].at(ppi.at(start[k] + t), ppj.at(start[k] + t))  # noqa
                        t = V.index(cnt[k])
                        px = (pj.at(start[k] + t),) if nd == 1 else (pi.at(start[k] + t), pj.at(start[k] + t))
                        p.ensure("average-over-region-%d" % k, on(t) == img[im].at(*px))
                        avg.append(V.sum((cnt[k],), on) / cnt[k])
                    val = val / num / (avg[0] * avg[1])
                    ok = zand(ok, num != 0, avg[0] != 0, avg[1] != 0)
                got = res[k].at(m[1]) if nd == 1 else res[k].at(*m)
                p.ensure("size-%d" % k, zand(len(res[k].shape) == nd, *[zi(s) == zi(2 * d - 1) for s, d in zip(res[k].shape, dims[2 - nd:])]))
                isn = zb(V.nan(q)) if norm else zb(False)
                p.ensure("no-pairs-nan-%d" % k, zimp(ok, zb(V.nan(got)) == isn))
                p.ensure("value-%d" % k, zimp(zand(ok, znot(isn)), SV("f", got.t) == val))
    c.__name__ = "call_%dd_%d_%s%s%s" % (nd, R, "_".join(norm) or "none", "_two" if two else "", "_late" if late else "")
    return c


def _pick(V, a, vals):
    r = vals[-1]
    for k in range(len(vals) - 2, -1, -1):
        r = V.ite(a == k, vals[k], r)
    return r if isinstance(r, SV) else SV("i", zi(r))


for _a in ((2, 1, (), True), (2, 1, ("regular",), False), (2, 1, ("regular",), True), (2, 2, ("symavg",), True), (1, 2, ("regular",), True, True), (2, 1, ("symavg",), False)):
    contract("P16", CO + ":CrossCorrelator.__call__")(_cccall(*_a))
