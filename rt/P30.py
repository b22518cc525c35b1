"""P30 runtime contracts: phase retrieval building blocks"""
import itertools
import math

import numpy as np
from scipy.ndimage import gaussian_filter

from rt.common import A, E, ensure, eqv, op, raises, require
from skbeam.core import cdi


def shp(rng, hi=7):
    return tuple(rng.randint(2, hi) for _ in range(rng.choice([2, 2, 3])))


def carr(rng, s, real=False):
    n = int(np.prod(s))
    re = [rng.uniform(-3, 3) for _ in range(n)]
    im = [0.0 if real else rng.uniform(-3, 3) for _ in range(n)]
    if real:
        return E(np.array(re).reshape(s))
    return E(np.array([complex(a, b) for a, b in zip(re, im)]).reshape(s))


def gpat(rng, s):
    return E(np.array([rng.choice([0.0, rng.uniform(0, 5)]) for _ in range(int(np.prod(s)))]).reshape(s))


def g(rng):
    s = shp(rng)
    return {"recon": carr(rng, s, rng.random() < 0.3), "pattern": gpat(rng, s), "offset": rng.choice([None, 1e-12, 0.25])}


@op("pi_modulus", g, 120)
def pi_modulus(i):
    r, d = A(i["recon"]), A(i["pattern"])
    kr, kd = r.copy(), d.copy()
    off = 1e-12 if i["offset"] is None else i["offset"]
    out = cdi.pi_modulus(r, d, **({} if i["offset"] is None else {"offset_v": off}))
    F = np.fft.fftn(kr) / math.sqrt(kr.size)
    G = np.fft.fftn(out) / math.sqrt(kr.size)
    want = np.where(kd > 0, kd * F / (np.abs(F) + off), F)
    eqv(G.real, want.real, "projected spectrum (real part)", 1e-8, 1e-8)
    eqv(G.imag, want.imag, "projected spectrum (imaginary part)", 1e-8, 1e-8)
    ensure(np.array_equal(r, kr) and np.array_equal(d, kd), "inputs modified")


def gs(rng):
    s = shp(rng, 11)
    return {"shape": list(s), "radius": rng.choice([0, 1, 2, 3, 5, 8])}


@op("box_support", gs, 150)
def box_support(i):
    s, r = tuple(i["shape"]), i["radius"]
    require(r >= 0)
    out = cdi.generate_box_support(r, s)
    ensure(out.shape == s, "shape")
    for idx in itertools.product(*[range(n) for n in s]):
        want = 1 if all(n // 2 - r <= k < n // 2 + r for k, n in zip(idx, s)) else 0
        ensure(out[idx] == want, "pixel %s of %s radius %s: %s", idx, s, r, out[idx])


@op("disk_support", gs, 150)
def disk_support(i):
    s, r = tuple(i["shape"]), i["radius"]
    out = cdi.generate_disk_support(r, s)
    ensure(out.shape == s, "shape")
    for idx in itertools.product(*[range(n) for n in s]):
        want = 1 if sum((k - n // 2) ** 2 for k, n in zip(idx, s)) < r * r else 0
        ensure(out[idx] == want, "pixel %s of %s radius %s: %s", idx, s, r, out[idx])


@op("gauss", lambda rng: {"shape": list(shp(rng, 9)), "sigma": round(rng.uniform(0.2, 6), 3)}, 80)
def gauss(i):
    s, sg = tuple(i["shape"]), i["sigma"]
    require(sg > 0)
    out = cdi.gauss(s, sg)
    w = np.zeros(s)
    for idx in itertools.product(*[range(n) for n in s]):
        w[idx] = math.exp(-sum((k - n // 2) ** 2 for k, n in zip(idx, s)) / (2 * sg * sg))
    eqv(out, w / w.sum(), "normalised gaussian", 1e-9, 1e-300)


@op("dist", lambda rng: {"shape": list(shp(rng, 9))}, 60)
def dist(i):
    s = tuple(i["shape"])
    out = cdi._dist(s)
    w = np.zeros(s)
    for idx in itertools.product(*[range(n) for n in s]):
        w[idx] = math.sqrt(sum((k - n // 2) ** 2 for k, n in zip(idx, s)))
    eqv(out, w, "distance")


def gd(rng):
    s = shp(rng)
    return {"obj": carr(rng, s), "pattern": E(np.array([rng.uniform(0.1, 5) for _ in range(int(np.prod(s)))]).reshape(s)), "sigma": round(rng.uniform(0.3, 2), 2),
            "thr": round(rng.uniform(0.05, 1.0), 2)}


@op("diff_error", gd, 60)
def diff_error(i):
    o, d = A(i["obj"]), A(i["pattern"])
    require(np.any(d))
    F = np.abs(np.fft.fftn(o)) / math.sqrt(o.size)
    eqv(cdi.cal_diff_error(o, d), math.sqrt(np.sum((F - d) ** 2)) / math.sqrt(np.sum(d ** 2)), "diff error")
    eqv(cdi.cal_diff_error(o, F), 0, "own pattern", 1e-9, 1e-12)


@op("find_support", gd, 60)
def find_support(i):
    o = A(i["obj"])
    keep = o.copy()
    c = gaussian_filter(np.abs(o), i["sigma"])
    out = cdi.find_support(o, i["sigma"], i["thr"])
    near = np.abs(c - i["thr"] * c.max()) < 1e-9
    ensure(np.all((np.asarray(out) == (c >= i["thr"] * c.max())) | near) and np.asarray(out).dtype == bool, "support")
    ensure(np.array_equal(o, keep), "sample modified")


@op("random_phase_field", lambda rng: {"pattern": gpat(rng, shp(rng))}, 40)
def random_phase_field(i):
    d = A(i["pattern"])
    o = cdi.generate_random_phase_field(d)
    eqv(np.abs(np.fft.fftn(o)) / math.sqrt(d.size), d, "amplitude", 1e-8, 1e-8)


def gr(rng):
    s = tuple(rng.randint(3, 6) for _ in range(2))
    n = rng.choice([2, 3, 5, 8, 10, 13])
    return {"pattern": E(np.array([rng.uniform(0.0, 5) for _ in range(int(np.prod(s)))]).reshape(s)), "obj": carr(rng, s), "radius": rng.randint(1, 2),
            "n": n, "beta": rng.choice([1.15, 0.9]), "start_avg": rng.choice([0.8, 0.5, 0.3, 0.0]), "flag": rng.choice(["Complex", "Real", "complex", "REAL"]), "sw": rng.random() < 0.5,
            "sw_step": rng.choice([1, 2, 10]), "cb_step": rng.choice([1, 2, 3, 5])}


@op("cdi_recon", gr, 40)
def cdi_recon(i):
    d0, o0 = A(i["pattern"]), A(i["obj"])
    keepd, keepo = d0.copy(), o0.copy()
    sup0 = np.zeros(d0.shape)
    sup0[tuple(slice(max(n // 2 - i["radius"], 0), n // 2 + i["radius"]) for n in d0.shape)] = 1
    keeps = sup0.copy()
    N, b = i["n"], i["beta"]
    calls = []
    obj, err = cdi.cdi_recon(d0, o0, sup0, beta=b, start_avg=i["start_avg"], pi_modulus_flag=i["flag"], sw_flag=i["sw"], sw_sigma=0.5, sw_threshold=0.1,
                             sw_start=0.2, sw_end=0.8, sw_step=i["sw_step"], n_iterations=N, cb_step=i["cb_step"],
                             cb_function=lambda s, a, c, e: calls.append(s.copy()))
    ensure(np.array_equal(d0, keepd), "pattern modified")
    ensure(np.array_equal(o0, keepo), "initial sample modified")
    ensure(np.array_equal(sup0, keeps), "support modified")
    # difference map with the same parameters
    d = np.fft.fftshift(keepd)
    x, outside = keepo.copy(), keeps != 1
    supo = np.zeros(d.shape)
    real = i["flag"].lower() == "real"

    def pm(v):
        F = np.fft.fftn(v) / math.sqrt(v.size)
        F = np.where(d > 0, d * F / (np.abs(F) + 1e-12), F)
        r = np.fft.ifftn(F) * math.sqrt(v.size)
        return np.abs(r) if real else r
    avg, m, its = 0, 0, []
    for n in range(N):
        old = x.copy()
        a = (1 + 1 / b) * pm(x) - x / b
        a = np.where(outside, 0, a)
        c = (1 - 1 / b) * np.where(outside, 0, x) + x / b
        c = pm(c)
        x = x + b * (a - c)
        its.append(x)
        eqv(err["obj_error"][n], np.linalg.norm(x - old) / np.linalg.norm(old), "obj_error[%d]" % n, 1e-6, 1e-9)
        eqv(err["diff_error"][n], np.linalg.norm(np.abs(np.fft.fftn(x)) / math.sqrt(x.size) - d) / np.linalg.norm(d), "diff_error[%d]" % n, 1e-6, 1e-9)
        if i["sw"] and 0.2 * N <= n <= 0.8 * N and n % i["sw_step"] == 0:
            cf = gaussian_filter(np.abs(x), 0.5)
            require(np.min(np.abs(cf - 0.1 * cf.max())) > 1e-6)
            outside = ~(cf >= 0.1 * cf.max())
        if n > i["start_avg"] * N:
            avg, m = avg + x, m + 1
    if m:
        eqv(np.abs(obj - avg / m), np.zeros(d.shape), "average of the iterates after start_avg", 1e-6, 1e-6)
    want = [v for n, v in enumerate(its) if (n + 1) % i["cb_step"] == 0]
    ensure(len(calls) == len(want), "callback called %d times, expected %d", len(calls), len(want))
    for a, w in zip(calls, want):
        eqv(np.abs(a - w), np.zeros(d.shape), "sample given to the callback", 1e-6, 1e-6)


@op("cdi_recon_flag", lambda rng: {"flag": rng.choice(["Imag", "complexx", "", "re"])}, 4)
def cdi_recon_flag(i):
    ensure(raises(ValueError, cdi.cdi_recon, np.ones((4, 4)), np.ones((4, 4), complex), np.ones((4, 4)), pi_modulus_flag=i["flag"], n_iterations=2) is True,
           "flag %r accepted", i["flag"])
