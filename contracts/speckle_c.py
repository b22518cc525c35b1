"""Contracts: speckle visibility histograms (skbeam/core/speckle.py)."""
import z3

from pyvc.arr import Ax, SArr, Storage, as_sarr, dim, sym_arr, zi
from pyvc.core import CTX, FInt, SV, Unsupported, fresh_name, unop, zand, zb, zimp, znot, zor
from pyvc.loops import Poison
from pyvc.npshim import np as N
from pyvc.objarr import OCells, ORows
from pyvc.seq import SSeq
from pyvc.verify import contract

SP = "skbeam.core.speckle"


def raw(x):
    return SV("f", x.t)


def orows(V, name, widths, ncol):
    return ORows(len(widths), ncol, [V.arr("%s%d" % (name, l), (ncol, w), "f") for l, w in enumerate(widths)])


def _process(level, nan, slot):
    """one window of `level` enters the running means of every region"""
    def c(V):
        npx, nr, nb = V.int("npx", 1), V.int("rois", 1), V.int("bins", 1)
        lab = V.arr("labels", (npx,), "i")
        ul = V.arr("label_values", (nr,), "i")
        V.unique_values(lab, ul, nr)
        mx = V.int("max_cts", 2)
        L = level + 1
        widths = [mx * 2 ** l - 1 for l in range(L)]
        nb = widths[level]
        win = V.arr("window", (npx,), "f", nan)
        other = V.arr("other", (npx,), "f", nan)
        edges = N.arange(mx * 2 ** level)
        ipl0, bad0 = V.arr("img_per_level", (L,), "i"), V.arr("track_bad", (L,), "f")
        V.assume(V.forall((L,), lambda k: zand(ipl0.at(k) >= 0, bad0.at(k) >= 0, bad0.at(k) <= ipl0.at(k))))
        P0, Q0 = orows(V, "p", widths, nr), orows(V, "q", widths, nr)

        def call():
            buf = OCells((L, 2), None)
            P, Q, ipl, bad = P0.copy(), Q0.copy(), ipl0.copy(), bad0.copy()
            for l in range(L):
                buf[l, 0] = buf[l, 1] = other
            buf[level, slot] = win
            V.fn()(nr, level, slot, buf, ipl, lab, mx, edges, P, Q, bad)
            return P, Q, ipl, bad
        for p in V.paths(call):
            if not p.returned():
                continue
            V.frame(p)
            P, Q, ipl, bad = p.ret
            lv = V.index(L)
            isbad = V.exists((npx,), lambda k: V.nan(win.at(k))) if nan else z3.BoolVal(False)
            p.ensure("window-count", ipl.at(lv) == V.ite(lv == level, ipl0.at(lv) + 1, ipl0.at(lv)))
            p.ensure("bad-count", bad.at(lv) == V.ite(zand(lv == level, isbad), bad0.at(lv) + 1, bad0.at(lv)))
            q, b = V.index(nr), V.index(nb)
            w = ipl0.at(level) + 1 - bad0.at(level)

            def inbin(k, e):
                x = raw(win.at(k))
                return zand(lab.at(k) == ul.at(q), x >= e, zor(x < e + 1, zand(e == nb - 1, x <= e + 1)))
            cnt = V.count((npx,), lambda k: inbin(k, b))
            tot = V.sum((nb,), lambda e: V.count((npx,), lambda k: inbin(k, e)), "i")
            h = cnt / tot
            for nm, A0, A, v in (("distribution", P0, P, h), ("squares", Q0, Q, h * h)):
                o, a = A0.at(level, q, b), A.at(level, q, b)
                p.ensure("bad-window-skipped-" + nm, zimp(isbad, zand(V.notnan(a), raw(a) == o)))
                for what, case, x in (("", tot != 0, v), ("-empty", tot == 0, 0.0)):
                    with V.suppose(zand(znot(isbad), case)):
                        p.ensure("not-nan-" + nm + what, V.notnan(a))
                        p.ensure("running-mean-" + nm + what, raw(a) == o + (x - o) / w)
                if level:
                    b2 = V.index(widths[0])
                    p.ensure("other-levels-kept-" + nm, A.at(0, q, b2) == A0.at(0, q, b2))
    c.__name__ = "process_%d%s" % (level, "_nan" if nan else "")
    return c


contract("P17", SP + ":_process", hard=True)(_process(0, False, -1))
contract("P17", SP + ":_process", hard=True)(_process(0, True, 0))
contract("P17", SP + ":_process", hard=True)(_process(1, False, 1))


def _norm(T):
    def c(V):
        nr, mx = V.int("rois", 1), V.int("max_cts", 2)
        mean = V.arr("mean", (nr,), "f")
        V.assume(V.forall((nr,), lambda k: mean.at(k) > 0))
        for p in V.paths(lambda: V.fn()(T, nr, mean, mx)):
            if not p.returned():
                continue
            V.frame(p)
            e, c_ = p.ret
            q = V.index(nr)
            for l in range(T):
                w = 2 ** l
                E, C = e[l, q], c_[l, q]
                p.ensure("edge-count-%d" % l, zand(V.len(E) == mx * w, V.len(C) == mx * w - 1))
                b = V.index(mx * w)
                p.ensure("edge-%d" % l, E.at(b) * (mean.at(q) * w) == b)
                b = V.index(mx * w - 1)
                p.ensure("center-%d" % l, C.at(b) * 2 == E.at(b) + E.at(b + 1))
    c.__name__ = "normalize_bin_edges_%d" % T
    return c


for _t in (1, 2, 3):
    contract("P17", SP + ":normalize_bin_edges")(_norm(_t))


class Only:
    """module stand-in: the callee contracts the function under proof may rely on"""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __getattr__(self, n):
        raise Unsupported("call of %s" % n)


def _xsvs(L, auto_max=False):
    """any number of image sets, any number of frames each; 2^(L-1) is the longest integration time"""
    total = {1: 2, 2: 4, 3: 7}[L]

    def c(V):
        npx, nr, ns, r, cc = V.int("npx", 1), V.int("rois", 1), V.int("sets", 1), V.int("rows", 1), V.int("cols", 1)
        lab, pix, ul = V.arr("labels", (npx,), "i"), V.arr("indices", (npx,), "i"), V.arr("label_values", (nr,), "i")
        V.unique_values(lab, ul, nr)
        V.assume(V.forall((npx,), lambda k: zand(pix.at(k) >= 0, pix.at(k) < r * cc)))
        mx = V.int("max_cts", 2)
        widths = [mx * 2 ** l - 1 for l in range(L)]
        label_array = object()
        I_ = z3.IntSort()
        val = z3.Function("pixel", I_, I_, I_, I_, z3.RealSort())
        bad = z3.Function("pixelnan", I_, I_, I_, I_, z3.BoolSort())
        nf = z3.Function("frames", I_, I_)
        P = [z3.Function("P%d" % l, I_, I_, I_, z3.RealSort()) for l in range(L)]     # distribution of one image set
        Q = [z3.Function("Q%d" % l, I_, I_, I_, z3.RealSort()) for l in range(L)]
        SP_ = [z3.Function("sumP%d" % l, I_, I_, I_, z3.RealSort()) for l in range(L)]   # over the first so many sets
        SQ = [z3.Function("sumQ%d" % l, I_, I_, I_, z3.RealSort()) for l in range(L)]
        W = [z3.Function("win%d" % l, I_, I_, I_, z3.RealSort()) for l in range(L)]   # (set, window, pixel)
        B = [z3.Function("winbad%d" % l, I_, I_, I_, z3.BoolSort()) for l in range(L)]

        def image(s, t):
            return SArr([Ax((dim(r),)), Ax((dim(cc),))], Storage(lambda idx: (val(s, t, idx[0][0], idx[1][0]), bad(s, t, idx[0][0], idx[1][0])), "f"))

        def images(s):
            st = zi(s)
            return SSeq(SV("i", nf(st)), lambda t: image(st, zi(t)))

        def ghost(l, s, t):
            return SArr([Ax((dim(npx),))], Storage(lambda idx: (W[l](s, t, idx[0][0]), B[l](s, t, idx[0][0])), "f"))
        mod = V.module()
        state = {}

        class Frames:
            carried = ("buf", "track_level", "track_bad", "cur", "img_per_level", "prob_k", "prob_k_pow")

            def get(self, env):
                for n in ("buf", "cur", "track_level", "prob_k", "prob_k_pow"):
                    if n not in env:
                        raise Unsupported("loop state %s" % n)
                if not isinstance(env["buf"], OCells) or env["buf"].shape != (L, 2):
                    raise Unsupported("window buffer of another layout")
                return env["buf"], env["cur"], env["track_level"]

            def m(self, k, l):
                return k // 2 ** l

            def check(self, env, k, what):
                buf, cur, track = self.get(env)
                s = state["set"]
                ctx = CTX()
                if what == "entry":
                    q = V.index(nr)
                    for n in ("prob_k", "prob_k_pow"):
                        for l in range(L):
                            b = V.index(widths[l])
                            ctx.oblige("%s#set-starts-at-zero-%s-%d" % (V.c.name, n, l), zb(env[n].at(l, q, b) == 0))
                    state["log"] = None
                else:
                    log = state["log"]
                    for l in range(L):
                        want = self.m(k, l) == self.m(k - 1, l) + 1
                        ctx.oblige("%s#every-complete-window-counted-%d" % (V.c.name, l), zb(want if l < len(log) else znot(want)))
                        if l >= len(log):
                            continue
                        d = log[l]
                        p, b = V.index(npx), V.index(widths[l] + 1)
                        ctx.oblige("%s#level-order-%d" % (V.c.name, l), zb(d["level"] == l))
                        x = d["window"]
                        t = zi(self.m(k, l)) - 1
                        ctx.oblige("%s#window-is-sum-of-its-frames-%d" % (V.c.name, l), zimp(znot(B[l](s, t, zi(p))), zb(zand(V.notnan(x.at(p)), x.at(p).t == W[l](s, t, zi(p))))))
                        ctx.oblige("%s#window-with-bad-frame-is-bad-%d" % (V.c.name, l), zimp(B[l](s, t, zi(p)), V.nan(x.at(p))))
                        e = d["bin_edges"]
                        ctx.oblige("%s#bins-%d" % (V.c.name, l), zand(zb(V.len(e) == mx * 2 ** l), zb(e.at(b) == b)))
                        ctx.oblige("%s#arguments-%d" % (V.c.name, l), zand(d["labels"] is lab, zb(d["num_roi"] == nr), d["prob_k"] is env["prob_k"],
                                                                         d["prob_k_pow"] is env["prob_k_pow"], d["buf"] is buf, zb(d["max_cts"] == mx)))
                        if "track_bad" in env and "img_per_level" in env:
                            ctx.oblige("%s#counters-%d" % (V.c.name, l), zand(d["img_per_level"] is env["img_per_level"], d["track_bad"] is env["track_bad"]))
                for l in range(L):
                    c_ = cur.at(l)
                    ctx.oblige("invariant: cursor %d %s" % (l, what), zb(zand(c_ >= (0 if l == 0 else 1), c_ <= 2)))
                    if l:
                        ctx.oblige("invariant: half-window flag %d %s" % (l, what), zb(track.at(l) != 0) == zb(self.m(k, l - 1) % 2 == 1))
                    if what == "entry":
                        continue
                    p = V.index(npx)
                    for slot in range(2):
                        cell = buf.cells[2 * l + slot]
                        if not isinstance(cell, SArr):
                            raise Unsupported("window buffer holds %s" % type(cell).__name__)
                        new = (c_ - 1) % 2 == slot
                        for what2, cond, t in (("newest", zand(zb(new), zb(self.m(k, l) >= 1)), self.m(k, l) - 1), ("previous", zand(znot(zb(new)), zb(self.m(k, l) >= 2)), self.m(k, l) - 2)):
                            g = ghost(l, s, zi(t)).at(p)
                            x = cell.at(p)
                            ctx.oblige("invariant: %s window %d %s" % (what2, l, what), zimp(cond, zand(zb(V.nan(x)) == zb(V.nan(g)), zimp(znot(V.nan(g)), x.t == g.t))))

            def assume(self, env, k, after=False):
                buf, cur, track = self.get(env)
                ctx = CTX()
                s = state["set"]
                ctx.log_write(buf)
                cells = []
                for l in range(L):
                    for v in range(0 if l == 0 else 1, 3):
                        if v == 2 or after or ctx.decide(z3.Bool(fresh_name("cursor"))):
                            break
                    cur[l] = v
                    m = self.m(k, l)
                    two = [None, None]
                    two[(v - 1) % 2] = ghost(l, s, zi(m - 1))
                    two[v % 2] = ghost(l, s, zi(m - 2))
                    cells += two
                    if l:
                        track[l] = V.ite(self.m(k, l - 1) % 2 == 1, 1.0, 0.0)
                buf.cells = cells if not after else [Poison("window buffer after the frames")] * (2 * L)
                if after:
                    cur[...] = sym_arr(fresh_name("cur"), (L,), "i")
                for l, (A, G) in enumerate([(a, g) for a in ("prob_k", "prob_k_pow") for g in ((P if a == "prob_k" else Q),)]):
                    pk = env[A]
                    ctx.log_write(pk)
                    pk.rows = [SArr([Ax((dim(nr),)), Ax((dim(widths[q]),))], Storage(lambda idx, f=G[q]: (f(s, idx[0][0], idx[1][0]), None), "f")) for q in range(L)]
                # the windows of this step are by definition the sums of their frames
                i = FInt("px")
                f = image(s, zi(k)).ravel().at(pix.at(SV("i", i)))
                facts = [W[0](s, zi(k), i) == f.t, B[0](s, zi(k), i) == f.nan]
                for l in range(1, L):
                    t = zi(self.m(k + 1, l)) - 1
                    facts += [W[l](s, t, i) == W[l - 1](s, 2 * t, i) + W[l - 1](s, 2 * t + 1, i), B[l](s, t, i) == zor(B[l - 1](s, 2 * t, i), B[l - 1](s, 2 * t + 1, i))]
                ctx.assume(z3.ForAll([i], zimp(zand(i >= 0, i < zi(npx)), zand(*facts))))
                state["log"] = []
                return [buf, cur.st, track.st]

        class Sets:
            carried = ("prob_k_all", "prob_k_pow_all")

            def mean(self, G, l, k):
                def fn(idx):
                    return V.ite(k == 0, 0.0, SV("f", G[l](zi(k), idx[0][0], idx[1][0])) / k).t, None
                return SArr([Ax((dim(nr),)), Ax((dim(widths[l]),))], Storage(fn, "f"))

            def check(self, env, k, what):
                ctx = CTX()
                for A, G in (("prob_k_all", SP_), ("prob_k_pow_all", SQ)):
                    if A not in env:
                        raise Unsupported("loop state %s" % A)
                    for l in range(L):
                        q, b = V.index(nr), V.index(widths[l])
                        x = env[A].at(l, q, b)
                        if what == "entry":
                            ctx.oblige("invariant: %s starts at 0" % A, zb(x == 0))
                        else:
                            for w, case in (("first-set", k == 1), ("mean-over-sets", k > 1)):
                                with V.suppose(case):
                                    ctx.oblige("%s#%s-%s-%d" % (V.c.name, w, A, l), zb(x * k == SV("f", G[l](zi(k), zi(q), zi(b)))))

            def assume(self, env, k, after=False):
                ctx = CTX()
                state["set"] = zi(k)
                out = []
                q, b = FInt("q"), FInt("b")
                for A, G, H in (("prob_k_all", SP_, P), ("prob_k_pow_all", SQ, Q)):
                    # the sum over the first k + 1 sets is that over the first k plus the last
                    ctx.assume(z3.ForAll([q, b], zand(*[G[l](zi(k) + 1, q, b) == G[l](zi(k), q, b) + H[l](zi(k), q, b) for l in range(L)])))
                    ctx.assume(z3.ForAll([q, b], zand(*[G[l](0, q, b) == 0 for l in range(L)])))
                    o = env[A]
                    ctx.log_write(o)
                    o.rows = [self.mean(G, l, k) for l in range(L)]
                    out.append(o)
                return out
        finv, sinv = Frames(), Sets()

        def hook(ax, item, body, vals, names, lid):
            if len(ax.dims) != 1:
                return None
            from pyvc.loops import inv_for
            d = zi(ax.dims[0])
            if d.eq(zi(ns)):
                return inv_for(ax, item, body, vals, names, lid, sinv)
            if z3.is_app(d) and d.decl().name() == "frames":
                return inv_for(ax, item, body, vals, names, lid, finv)
            return None

        def process(*a, **kw):
            names = ["num_roi", "level", "buf_no", "buf", "img_per_level", "labels", "max_cts", "bin_edges", "prob_k", "prob_k_pow", "track_bad"]
            d = dict(zip(names, a))
            d.update(kw)
            if set(d) != set(names) or state.get("log") is None:
                raise Unsupported("helper called differently")
            d["window"] = d["buf"][d["level"], d["buf_no"]].copy()
            state["log"].append(d)
        mod._process = process
        sets = SSeq(ns, images)
        mod.roi = Only(extract_label_indices=lambda la: (lab, pix) if la is label_array else V.ensure("labels-of-the-label-array", False) or (lab, pix),
                       roi_max_counts=lambda ims, la: mx if ims is sets and la is label_array else V.ensure("maximum-of-these-images", False) or mx)
        V.assume(z3.ForAll([z3.Int("s")], nf(z3.Int("s")) >= 0))
        V.ctx.loop_hook = hook

        def call():
            state.clear()
            return mod.xsvs(sets, label_array, total, 2, None if auto_max else mx)
        try:
            for p in V.paths(call):
                if not p.returned():
                    continue
                V.frame(p)
                pk, sd = p.ret
                p.ensure("levels", zand(pk.nrow == L, zi(pk.ncol) == zi(nr)))
                for l in range(L):
                    q, b = V.index(nr), V.index(widths[l])
                    mp = SV("f", SP_[l](zi(ns), zi(q), zi(b))) / ns
                    mq = SV("f", SQ[l](zi(ns), zi(q), zi(b))) / ns
                    p.ensure("mean-%d" % l, pk.at(l, q, b) == mp)
                    x = sd.at(l, q, b)
                    p.ensure("spread-%d" % l, zimp(mq - mp * mp >= 0, zand(x >= 0, x * x == mq - mp * mp)))
        finally:
            V.ctx.loop_hook = None
    c.__name__ = "xsvs_%d%s" % (L, "_max" if auto_max else "")
    return c


for _l in (1, 2, 3):
    contract("P17", SP + ":xsvs", hard=True)(_xsvs(_l))
contract("P17", SP + ":xsvs")(_xsvs(1, True))


# ---------------------------------------------------------------- expected distributions
LS = "skbeam.core.fitting.lineshapes"


def _dist(name, spec, two):
    def c(V):
        n = V.int("n", 1)
        x = V.arr("bins", (n,), "f")
        V.assume(V.forall((n,), lambda k: x.at(k) >= 0))
        K = V.real("K", gt=0)
        args = (K, V.real("M", gt=0)) if two else (K,)
        for p in V.paths(lambda: V.fn()(x, *args)):
            if not p.returned():
                continue
            V.frame(p)
            i = V.index(n)
            p.ensure("shape", V.len(p.ret) == n)
            p.ensure("formula", p.ret.at(i) == spec(x.at(i), *args))
    c.__name__ = name
    return c


def _pw(a, b):
    return N.power(a, b)


def _gl(a):
    return unop("gammaln", a)


contract("P17", LS + ":nbinom_dist", soft=True)(_dist("nbinom_formula", lambda x, K, M: N.exp(_gl(x + M) - _gl(x + 1) - _gl(M)) * _pw(M / (K + M), M) * _pw(K / (M + K), x), True))
contract("P17", LS + ":poisson_dist", soft=True)(_dist("poisson_formula", lambda x, K: N.exp(-K) * _pw(K, x) / unop("gamma", x + 1), False))
contract("P17", LS + ":gamma_dist", soft=True)(_dist("gamma_formula", lambda x, K, M: _pw(x / (K / M), M - 1) * N.exp(-(x / (K / M))) / (unop("gamma", M) * (K / M)), True))
