"""Contracts: reciprocal space coordinates (skbeam/core/recip.py) and 3-D gridding front end (skbeam/core/utils.py:grid3d)."""
import types

import z3

from pyvc.arr import as_sarr, zi
from pyvc.core import SV, FInt, Unsupported, fresh_name, zand, zb, zimp, znot, zor
from pyvc.npshim import np as N
from pyvc.verify import contract

RE = "skbeam.core.recip"
UT = "skbeam.core.utils"
PI = SV("f", z3.Real("pi"))


def _gisaxs(theta):
    def c(V):
        ix, iy, rx, ry = [V.real(k) for k in ("inc_x", "inc_y", "refl_x", "refl_y")]
        p0, p1, dist, lam = [V.real(k, gt=0) for k in ("px", "py", "dist", "wavelength")]
        r, cc = V.int("rows", 1), V.int("cols", 1)
        th = V.real("theta_i") if theta else 0.0
        kw = {"theta_i": th} if theta else {}
        for p in V.paths(lambda: V.fn()((ix, iy), (rx, ry), (p0, p1), (r, cc), dist, lam, **kw)):
            if not p.returned():
                continue
            V.frame(p)
            o = p.ret
            mx, my = p0 * 10 ** (-6), p1 * 10 ** (-6)
            tilt = N.arctan2((rx - ix) * mx, (ry - iy) * my)
            ai = N.arctan2((ry - iy) * my, dist) / 2
            y, x = V.index(r), V.index(cc)
            af = N.arctan2((y - iy) * my, dist) - ai
            tf = N.arctan2((x - ix) * mx, dist) / 2 - th
            k = 2 * PI / lam
            p.ensure("tilt-angle", o.tilt_angle == tilt)
            p.ensure("incident-angle", o.alpha_i == ai)
            at = lambda a: a.at(y, x)  # noqa
            for n in ("alpha_f", "theta_f", "qx", "qy", "qz", "qr"):
                a = getattr(o, n)
                p.ensure("shape-" + n, zand(len(a.shape) == 2, zi(a.shape[0]) == zi(r), zi(a.shape[1]) == zi(cc)))
            p.ensure("exit-angle", at(o.alpha_f) == af)
            p.ensure("in-plane-angle", at(o.theta_f) == tf)
            af, tf = at(o.alpha_f), at(o.theta_f)
            qx = (N.cos(af) * N.cos(2 * tf) - N.cos(ai) * N.cos(2 * th)) * k
            qy = N.cos(af) * N.sin(2 * tf) - N.cos(ai) * N.sin(2 * th)
            qz = N.sin(af) + N.sin(ai)
            st, ct = N.sin(tilt), N.cos(tilt)
            p.ensure("qx", at(o.qx) == qx)
            p.ensure("qy", at(o.qy) == (qz * st + qy * ct) * k)
            p.ensure("qz", at(o.qz) == (qz * ct - qy * st) * k)
            p.ensure("qr", at(o.qr) == N.sqrt(at(o.qx) * at(o.qx) + at(o.qy) * at(o.qy)))
    c.__name__ = "gisaxs" + ("_theta" if theta else "")
    return c


contract("P12", RE + ":gisaxs", op="gisaxs")(_gisaxs(False))
contract("P12", RE + ":gisaxs", op="gisaxs")(_gisaxs(True))


@contract("P12", RE + ":hkl_to_q", op="hkl_to_q")
def hkl_to_q(V):
    n = V.int("n", 1)
    a = V.arr("hkl", (n, 3), "f")
    for p in V.paths(lambda: V.fn()(a)):
        if not p.returned():
            continue
        V.frame(p)
        i = V.index(n)
        p.ensure("length", zi(p.ret.shape[0]) == zi(n))
        p.ensure("norm", p.ret.at(i) == N.sqrt(a.at(i, 0) * a.at(i, 0) + a.at(i, 1) * a.at(i, 1) + a.at(i, 2) * a.at(i, 2)))


def _toq(frame, one):
    def c(V):
        rec = []

        def ccd(**k):
            rec.append(k)
            return result
        ext = {"skbeam.ext.ctrans": types.SimpleNamespace(ccdToQ=ccd)}
        m = 1 if one else V.int("images", 1)
        ang = V.arr("angles", (6,) if one else (m, 6), "f")
        ub = V.arr("ub", (3, 3), "f")
        sx, sy = V.int("xs", 1), V.int("ys", 1)
        px, py, cx, cy, dist, lam = [V.real(k) for k in ("px", "py", "cx", "cy", "dist", "wavelength")]
        result = V.arr("hkl", (m * sx * sy, 3), "f")
        fn = V.fn(ext=ext)

        def call():
            del rec[:]
            kw = {} if frame is None else {"frame_mode": frame}
            return fn(ang, (sx, sy), (px, py), (cx, cy), dist, lam, ub, **kw), list(rec)
        for p in V.paths(call):
            if not p.returned():
                continue
            V.frame(p)
            ret, r = p.ret
            if len(r) != 1:
                raise Unsupported("conversion called %d times" % len(r))
            k = r[0]
            if set(k) != {"angles", "mode", "ccd_size", "ccd_pixsize", "ccd_cen", "dist", "wavelength", "UBinv"}:
                raise Unsupported("conversion called with other arguments")
            p.ensure("result", ret is result)
            i, j = V.index(m), V.index(6)
            a = ang.at(j) if one else ang.at(i, j)
            p.ensure("angles-in-radians", zand(zi(k["angles"].shape[0]) == zi(m), k["angles"].at(i, j) == a * PI / 180))
            p.ensure("frame", k["mode"] == {None: 4, "theta": 1, "phi": 2, "cart": 3, "hkl": 4}[frame])
            p.ensure("detector", zand(k["ccd_size"][0] == sx, k["ccd_size"][1] == sy, k["ccd_pixsize"][0] == px, k["ccd_pixsize"][1] == py,
                                      k["ccd_cen"][0] == cx, k["ccd_cen"][1] == cy, k["dist"] == dist, k["wavelength"] == lam))
            a_, b_ = V.index(3), V.index(3)
            p.ensure("inverse-ub", k["UBinv"].at(a_, b_) == N.linalg.inv(ub).at(a_, b_))
    c.__name__ = "process_to_q_%s%s" % (frame or "default", "_one" if one else "")
    return c


for _a in ((None, False), ("theta", False), ("phi", True), ("cart", False), ("hkl", False)):
    contract("P12", RE + ":process_to_q")(_toq(*_a))


def _toq_bad(kind):
    def c(V):
        ext = {"skbeam.ext.ctrans": types.SimpleNamespace(ccdToQ=lambda **k: "called")}
        m, w = V.int("images", 1), V.int("width", 1)
        V.assume(w != 6)
        ang = V.arr("angles", (m, w) if kind == "width" else (m, 6), "f")
        ub = V.arr("ub", (3, 3), "f")
        kw = {"frame_mode": "lab"} if kind == "frame" else {}
        for p in V.paths(lambda: V.fn(ext=ext)(ang, (2, 2), (1., 1.), (0., 0.), 1., 1., ub, **kw)):
            p.raises(KeyError if kind == "frame" else ValueError)
    c.__name__ = "process_to_q_rejects_" + kind
    return c


contract("P12", RE + ":process_to_q")(_toq_bad("width"))
contract("P12", RE + ":process_to_q")(_toq_bad("frame"))
