"""P12 runtime contracts: reciprocal space coordinates (rebuilt C extension)"""
import numpy as np

from rt.common import A, Frozen, close, ensure, eqv, op, raises, require
from skbeam.core import recip


def gq(rng):
    n = rng.randint(1, 5)
    if rng.random() < 0.5:
        ang = [[rng.uniform(-120, 120) for _ in range(6)] for _ in range(n)]
    else:
        ang = [[rng.choice([0, 15, 30, -45, 90]) if rng.random() < 0.6 else 0 for _ in range(6)] for _ in range(n)]
    ub = [[rng.uniform(-2, 2) + (3 if a == b else 0) for b in range(3)] for a in range(3)]
    return {"ang": ang, "size": [rng.randint(1, 7), rng.randint(1, 7)], "pix": [rng.uniform(.01, .3), rng.uniform(.01, .3)],
            "cen": [rng.uniform(-3, 9), rng.uniform(-3, 9)], "dist": rng.uniform(1, 500), "lam": rng.uniform(.3, 4), "ub": ub,
            "frame": rng.choice([None, "theta", "phi", "cart", "hkl", "hkl"])}


def rot(axis, a):
    c, s = np.cos(a), np.sin(a)
    return np.array({"x": [[1, 0, 0], [0, c, -s], [0, s, c]], "y": [[c, 0, s], [0, 1, 0], [-s, 0, c]],
                     "z": [[c, -s, 0], [s, c, 0], [0, 0, 1]]}[axis])


def oracle(i):
    """six-circle geometry from rotations: returns q (N, 3) in the requested frame and the scattering angle per pixel"""
    nx, ny = i["size"]
    out, tt = [], []
    inv = np.linalg.inv(A(i["ub"]))
    for a in i["ang"]:
        dl, th, ch, ph, mu, gm = np.radians(np.array(a, dtype=float))
        k = 2 * np.pi / i["lam"]
        # incident beam seen by the theta circle
        ki = rot("x", -th) @ np.array([np.sin(mu), np.cos(mu), 0])
        for r in range(ny):
            d = dl - np.arctan2((r - i["cen"][1]) * i["pix"][1], i["dist"])
            for c in range(nx):
                g = gm - np.arctan2((c - i["cen"][0]) * i["pix"][0], i["dist"])
                kf = rot("x", d - th) @ np.array([-np.sin(g), np.cos(g), 0])
                q = k * (kf - ki)
                tt.append(np.arccos(np.clip(ki @ kf, -1, 1)))
                if i["frame"] != "theta":
                    # undo chi about y, then phi about x
                    q = rot("x", -ph) @ (rot("y", -ch) @ q)
                if i["frame"] in (None, "hkl"):
                    q = inv @ np.array([q[2], q[1], -q[0]])
                out.append(q)
    return np.array(out), np.array(tt)


@op("process_to_q", gq, 120)
def process_to_q(i):
    ub, ang = A(i["ub"]).astype(float), A(i["ang"]).astype(float)
    require(abs(np.linalg.det(ub)) > 1e-3 and i["dist"] > 0 and i["lam"] > 0)
    fz = Frozen(ub, ang)
    kw = {} if i["frame"] is None else {"frame_mode": i["frame"]}
    a = ang[0] if len(ang) == 1 else ang
    q = recip.process_to_q(a, tuple(i["size"]), tuple(i["pix"]), tuple(i["cen"]), i["dist"], i["lam"], ub, **kw)
    fz.check()
    want, tt = oracle(i)
    ensure(q.shape == want.shape, "shape %s", q.shape)
    sc = np.abs(want).max() + 1
    ensure(close(q / sc, want / sc, 1e-8, 1e-9), "q in frame %s: first difference at row %s: got %s expected %s", i["frame"],
           int(np.argmax(np.abs(q - want).max(axis=1))), q[np.argmax(np.abs(q - want).max(axis=1))], want[np.argmax(np.abs(q - want).max(axis=1))])
    if i["frame"] in ("theta", "phi", "cart"):
        eqv(np.linalg.norm(q, axis=1) * i["lam"], 4 * np.pi * np.sin(tt / 2), "length of q", 1e-6, 1e-6)
    # a list of the same settings gives the same values
    q2 = recip.process_to_q(ang.tolist(), tuple(i["size"]), tuple(i["pix"]), tuple(i["cen"]), i["dist"], i["lam"], ub.tolist(), **kw)
    ensure(np.array_equal(q, q2), "list arguments")


@op("process_to_q_rejects", lambda rng: {"w": rng.randint(1, 9), "n": rng.randint(1, 3)}, 12)
def process_to_q_rejects(i):
    require(i["w"] != 6)
    f = recip.process_to_q
    ensure(raises(ValueError, f, np.zeros((i["n"], i["w"])), (2, 2), (1., 1.), (0., 0.), 1., 1., np.eye(3)) is True, "angles of width %s accepted", i["w"])
    ensure(raises(KeyError, f, np.zeros((1, 6)), (2, 2), (1., 1.), (0., 0.), 1., 1., np.eye(3), frame_mode="lab") is True, "unknown frame accepted")


@op("hkl_to_q", lambda rng: {"hkl": rng.floats((rng.randint(1, 9), 3))}, 40)
def hkl_to_q(i):
    h = A(i["hkl"])
    require(h.ndim == 2 and h.shape[1] == 3)
    fz = Frozen(h)
    eqv(recip.hkl_to_q(h), np.sqrt((h ** 2).sum(axis=1)), "norm")
    fz.check()


def gg(rng):
    return {"ix": rng.uniform(-5, 9), "iy": rng.uniform(-5, 9), "rx": rng.uniform(-5, 9), "ry": rng.uniform(-5, 9), "px": rng.uniform(1, 200),
            "py": rng.uniform(1, 200), "rows": rng.randint(1, 6), "cols": rng.randint(1, 6), "dist": rng.choice([rng.uniform(1e-4, 1e-2), rng.uniform(.1, 5)]), "wavelength": rng.uniform(.3, 4),
            "theta_i": rng.choice([None, 0.0, rng.uniform(-.5, .5)])}


@op("gisaxs", gg, 60)
def gisaxs(i):
    require(min(i["px"], i["py"], i["dist"], i["wavelength"]) > 0)
    th = i.get("theta_i")
    kw = {} if th is None else {"theta_i": th}
    th = th or 0.0
    o = recip.gisaxs((i["ix"], i["iy"]), (i["rx"], i["ry"]), (i["px"], i["py"]), (i["rows"], i["cols"]), i["dist"], i["wavelength"], **kw)
    mx, my = i["px"] * 1e-6, i["py"] * 1e-6
    tilt = np.arctan2((i["rx"] - i["ix"]) * mx, (i["ry"] - i["iy"]) * my)
    ai = np.arctan2((i["ry"] - i["iy"]) * my, i["dist"]) / 2
    y, x = np.indices((i["rows"], i["cols"]))
    af = np.arctan2((y - i["iy"]) * my, i["dist"]) - ai
    tf = np.arctan2((x - i["ix"]) * mx, i["dist"]) / 2 - th
    eqv(o.tilt_angle, tilt, "tilt angle")
    eqv(o.alpha_i, ai, "incident angle")
    eqv(o.alpha_f, af, "exit angle")
    eqv(o.theta_f, tf, "in-plane angle")
    k = 2 * np.pi / i["wavelength"]
    v = np.stack([np.cos(af) * np.cos(2 * tf) - np.cos(ai) * np.cos(2 * th), np.cos(af) * np.sin(2 * tf) - np.cos(ai) * np.sin(2 * th),
                  np.sin(af) + np.sin(ai)])
    c, s = np.cos(tilt), np.sin(tilt)
    w = k * np.einsum("ab,bij->aij", np.array([[1, 0, 0], [0, c, s], [0, -s, c]]), v)
    eqv(o.qx, w[0], "qx")
    eqv(o.qy, w[1], "qy")
    eqv(o.qz, w[2], "qz")
    eqv(o.qr, np.hypot(w[0], w[1]), "qr")
