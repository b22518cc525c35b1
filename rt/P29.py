"""P29 runtime contracts: differential phase contrast"""
import math

import numpy as np
from scipy.optimize import minimize

from rt.common import A, E, ensure, eqv, op, raises, require
from skbeam.core import dpc


def gi(rng):
    r, c = rng.randint(1, 7), rng.randint(1, 7)
    im = np.array([rng.randint(0, 50) for _ in range(r * c)], dtype=rng.choice([float, int])).reshape(r, c)
    roi = None
    if rng.random() < 0.6:
        a, b = rng.randint(0, r - 1), rng.randint(0, c - 1)
        roi = [a, b, rng.randint(1, r), rng.randint(1, c)]
    bad = None
    if rng.random() < 0.6:
        bad = [[rng.randint(0, r - 1), rng.randint(0, c - 1)] for _ in range(rng.randint(0, 3))]
    return {"im": E(im), "roi": roi, "bad": bad}


@op("image_reduction", gi, 200)
def image_reduction(i):
    im = A(i["im"])
    keep = im.copy()
    roi = None if i.get("roi") is None else A(i["roi"]).tolist()
    bad = None if i.get("bad") is None else [tuple(b) for b in i["bad"]]
    x, y = dpc.image_reduction(im, roi, bad)
    w = keep.copy()
    for b in bad or []:
        w[b] = 0
    if roi:
        r, c, nr, nc = roi
        w = w[r:r + nr, c:c + nc]
    eqv(x, [sum(w[a, b] for a in range(w.shape[0])) for b in range(w.shape[1])], "column sums")
    eqv(y, [sum(w[a, b] for b in range(w.shape[1])) for a in range(w.shape[0])], "row sums")
    ensure(np.array_equal(im, keep), "image modified")


def gr(rng):
    r, c = rng.randint(1, 6), rng.randint(1, 6)
    f = lambda: E(np.array([rng.uniform(-3, 3) for _ in range(r * c)]).reshape(r, c))  # noqa
    return {"gx": f(), "gy": f(), "dx": round(rng.uniform(0.05, 2), 3), "dy": round(rng.uniform(0.05, 2), 3), "pad": rng.choice([0, 0, 1, 2]),
            "w": rng.choice([0, 1, 0.5, round(rng.random(), 2)])}


def direct(gx, gy, dx, dy, pad, w):
    """weighted least-squares Fourier integration by explicit sums"""
    r, c = gx.shape
    R, C = r * (2 * pad + 1), c * (2 * pad + 1)
    X, Y = np.zeros((R, C)), np.zeros((R, C))
    X[pad * r:(pad + 1) * r, pad * c:(pad + 1) * c] = gx
    Y[pad * r:(pad + 1) * r, pad * c:(pad + 1) * c] = gy
    u, v = np.arange(R), np.arange(C)
    WR, WC = np.exp(-2j * np.pi * np.outer(u, u) / R), np.exp(-2j * np.pi * np.outer(v, v) / C)
    TX, TY = WR @ X @ WC, WR @ Y @ WC
    P = np.zeros((R, C), complex)
    for a in range(R):
        for b in range(C):
            fa, fb = a if a < (R + 1) // 2 else a - R, b if b < (C + 1) // 2 else b - C
            kx, ky = 2 * np.pi * fb / (C * dx), 2 * np.pi * fa / (R * dy)
            d = (1 - w) * kx * kx + w * ky * ky
            if d:
                P[a, b] = -1j * ((1 - w) * kx * TX[a, b] + w * ky * TY[a, b]) / d
    out = np.conj(WR) @ P @ np.conj(WC) / (R * C)
    return out[pad * r:(pad + 1) * r, pad * c:(pad + 1) * c].real


@op("recon", gr, 120)
def recon(i):
    gx, gy = A(i["gx"]), A(i["gy"])
    kx, ky = gx.copy(), gy.copy()
    out = dpc.recon(gx, gy, i["dx"], i["dy"], i["pad"], i["w"])
    ensure(out.shape == gx.shape, "shape %s", out.shape)
    eqv(out, direct(kx, ky, i["dx"], i["dy"], i["pad"], i["w"]), "phase", 1e-7, 1e-8)
    ensure(np.array_equal(gx, kx) and np.array_equal(gy, ky), "gradients modified")


@op("recon_exact", lambda rng: {"r": rng.randint(2, 8), "c": rng.randint(2, 8), "dx": round(rng.uniform(0.1, 2), 2), "dy": round(rng.uniform(0.1, 2), 2),
                                "w": round(rng.uniform(0.1, 0.9), 2), "m": rng.randint(-3, 3), "n": rng.randint(-3, 3), "amp": round(rng.uniform(0.5, 3), 2)}, 60)
def recon_exact(i):
    """a zero-mean band-limited phase is recovered from its exact gradients"""
    r, c, m, n = i["r"], i["c"], i["m"], i["n"]
    require((m, n) != (0, 0) and 2 * abs(m) < r and 2 * abs(n) < c)
    a, b = np.meshgrid(np.arange(r), np.arange(c), indexing="ij")
    th = 2 * np.pi * (m * a / r + n * b / c)
    ph = i["amp"] * np.cos(th + 0.3)
    gx = -i["amp"] * np.sin(th + 0.3) * 2 * np.pi * n / (c * i["dx"])
    gy = -i["amp"] * np.sin(th + 0.3) * 2 * np.pi * m / (r * i["dy"])
    eqv(dpc.recon(gx, gy, i["dx"], i["dy"], 0, i["w"]), ph, "phase", 1e-7, 1e-8)


@op("recon_rejects", lambda rng: {"w": rng.choice([-0.01, 1.01, -3, 2])}, 6)
def recon_rejects(i):
    ensure(raises(ValueError, dpc.recon, np.ones((3, 3)), np.ones((3, 3)), 1, 1, 0, i["w"]) is True, "weighting accepted")


@op("rss", lambda rng: {"n": rng.randint(1, 9), "v": [round(rng.uniform(0.2, 2), 2), round(rng.uniform(-1, 1), 2)], "seed": rng.randint(0, 9999)}, 60)
def rss(i):
    n = i["n"]
    r = np.random.RandomState(i["seed"])
    a, b = r.rand(n) + 1j * r.rand(n), r.rand(n) + 1j * r.rand(n)
    want = 0
    for k in range(n):
        want += abs(b[k] - a[k] * i["v"][0] * np.exp(1j * i["v"][1] * (k - n // 2))) ** 2
    eqv(dpc._rss_factory(n)(i["v"], a, b), want, "residual")


def gp(rng):
    return {"rows": rng.randint(1, 3), "cols": rng.randint(1, 3), "pixel": rng.choice([None, 55.0, 10.0]), "dist": rng.choice([None, 1e6, 2e5]), "energy": round(rng.uniform(5, 20), 2),
            "negate": rng.random() < 0.5, "scale": rng.random() < 0.6, "pad": rng.choice([0, 1]), "w": rng.choice([0.5, 0.2]), "seed": rng.randint(0, 9999),
            "nx": rng.randint(2, 6), "ny": rng.randint(2, 6)}


@op("phase_from_state", gp, 80)
def phase_from_state(i):
    r = np.random.RandomState(i["seed"])
    s = (i["rows"], i["cols"])
    ax, ay, gx, gy = [r.rand(*s) for _ in range(4)]
    st = dpc.dpc_internal_state(ax, ay, gx, gy, r.rand(i["nx"]), r.rand(i["ny"]), [3])
    keep = [v.copy() for v in (ax, ay, gx, gy)]
    ph, am = dpc.reconstruct_phase_from_partial_info(st, i["energy"], 0.3, 0.4, i["pixel"], i["dist"], i["negate"], i["scale"], i["pad"], i["w"])
    X, Y = keep[2], keep[3]
    if i["scale"] and i["pixel"] and i["dist"]:
        f = i["pixel"] / (12.4e-4 / i["energy"] * i["dist"])
        X, Y = X * i["nx"] * f, Y * i["ny"] * f
    if i["negate"]:
        X = -X
    eqv(ph, direct(X, Y, 0.3, 0.4, i["pad"], i["w"]), "phase", 1e-7, 1e-8)
    eqv(am, (keep[0] + keep[1]) / 2, "amplitude")
    ensure(all(np.array_equal(a, b) for a, b in zip((ax, ay, gx, gy), keep)), "state modified")


def gl(rng):
    r, c = rng.randint(4, 6), rng.randint(4, 6)
    return {"r": r, "c": c, "rows": rng.randint(1, 2), "cols": rng.randint(1, 3), "seed": rng.randint(0, 999), "roi": rng.choice([None, [1, 0, 3, 4], [0, 1, 4, 3]]),
            "bad": rng.choice([None, [[1, 1]], [[2, 0], [0, 2]]]), "split": rng.random() < 0.4}


@op("lazy_dpc", gl, 12)
def lazy_dpc(i):
    rs = np.random.RandomState(i["seed"])
    ref = rs.rand(i["r"], i["c"]) + 0.5
    ims = [rs.rand(i["r"], i["c"]) + 0.5 for _ in range(i["rows"] * i["cols"])]
    keep = [ref.copy()] + [m.copy() for m in ims]
    roi = i["roi"]
    bad = None if i["bad"] is None else [tuple(b) for b in i["bad"]]
    st = None
    if i["split"]:
        k = len(ims) // 2
        for st in dpc.lazy_dpc(ref, ims[:k], [1, 0], i["rows"], i["cols"], roi=roi, bad_pixels=bad):
            pass
        for st in dpc.lazy_dpc(ref, ims[k:], [1, 0], i["rows"], i["cols"], roi=roi, bad_pixels=bad, dpc_state=st):
            pass
    else:
        for st in dpc.lazy_dpc(ref, ims, [1, 0], i["rows"], i["cols"], roi=roi, bad_pixels=bad):
            pass
    ensure(np.array_equal(ref, keep[0]) and all(np.array_equal(a, b) for a, b in zip(ims, keep[1:])), "images modified")

    def lines(im):
        w = im.copy()
        for b in bad or []:
            w[b] = 0
        if roi:
            w = w[roi[0]:roi[0] + roi[2], roi[1]:roi[1] + roi[3]]
        return [np.fft.fftshift(np.fft.ifft(w.sum(axis=q))) for q in (0, 1)]
    R = lines(keep[0])
    for n, im in enumerate(keep[1:]):
        D = lines(im)
        a, b = divmod(n, i["cols"])
        for q, (G, AM) in enumerate([(st.gx, st.ax), (st.gy, st.ay)]):
            m = len(R[q])
            beta = np.arange(m) - m // 2

            def f(v):
                return float(np.sum(np.abs(D[q] - R[q] * v[0] * np.exp(1j * v[1] * beta)) ** 2))
            got = f([AM[a, b], G[a, b]])
            best = minimize(f, [1, 0], method="Nelder-Mead", tol=1e-6, options=dict(maxiter=2000))
            ensure(got <= best.fun * (1 + 1e-6) + 1e-9, "scan position %s axis %d: residual %s, minimum %s", (a, b), q, got, best.fun)
    ensure(st.index[0] == len(ims), "index %s", st.index)
