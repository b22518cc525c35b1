"""P08 runtime contracts: unit conversions"""
import math

import numpy as np

from rt.common import A, Frozen, close, ensure, op, require
from skbeam.core import utils


def g(rng):
    n = rng.randint(1, 6)
    wl = rng.uniform(0.05, 12)
    u = rng.choice([1.0, 1.0, 1.0, 1e-10, 1e-10, 1e3])   # unit of length: Angstrom, metre, ...
    wl *= u
    mk = lambda f: {"shape": [n], "kind": "f", "data": [f() for _ in range(n)]}  # noqa
    return {"n": n, "wavelength": wl, "q": mk(lambda: rng.uniform(1e-4, 4 * math.pi / (wl / u) * 0.999) / u), "d": mk(lambda: rng.uniform(1e-3, 90) * u),
            "two_theta": mk(lambda: rng.choice([rng.uniform(0, math.pi), 1e-6, math.pi, 0.0])), "dist": rng.uniform(0.01, 500),
            "radius": mk(lambda: rng.choice([0.0, rng.uniform(0, 2000)])), "how": rng.choice(["array", "scalar", "list", "2d", "int"])}


def form(a, how):
    a = A(a)
    if how == "scalar":
        return float(a[0])
    if how == "list":
        return [float(x) for x in a]
    if how == "2d":
        return a.reshape(1, -1)
    if how == "int":
        return np.maximum(1, a.astype(int))
    return a


def run(f, a, ref, tol=1e-9):
    fz = Frozen(a) if not isinstance(a, float) else None
    r = f(a)
    if fz:
        fz.check()
    b = np.asarray(a, dtype=float)
    ensure(np.shape(r) == np.shape(a), "shape %s for input %s", np.shape(r), np.shape(a))
    want = np.array([ref(x) for x in b.ravel()]).reshape(b.shape)
    ensure(np.allclose(r, want, rtol=tol, atol=1e-300 if tol < 1e-6 else tol), "%s -> %s expected %s", a, r, want)


@op("q_to_d", g, 60)
def q_to_d(i):
    q = form(i["q"], i.get("how", "array"))
    require(np.all(np.asarray(q) > 0))
    run(utils.q_to_d, q, lambda x: 2 * math.pi / x)


@op("d_to_q", g, 60)
def d_to_q(i):
    d = form(i["d"], i.get("how", "array"))
    require(np.all(np.asarray(d) > 0))
    run(utils.d_to_q, d, lambda x: 2 * math.pi / x)


@op("roundtrip_q_d", g, 40)
def roundtrip_q_d(i):
    q = form(i["q"], i.get("how", "array"))
    require(np.all(np.asarray(q) > 0))
    run(lambda x: utils.d_to_q(utils.q_to_d(x)), q, lambda x: x)
    run(lambda x: utils.q_to_d(utils.d_to_q(x)), q, lambda x: x)


@op("q_to_twotheta", g, 60)
def q_to_twotheta(i):
    q, wl = form(i["q"], i.get("how", "array")), i["wavelength"]
    require(wl > 0 and np.all(np.asarray(q) >= 0) and np.all(np.asarray(q) * wl <= 4 * math.pi))
    run(lambda x: utils.q_to_twotheta(x, wl), q, lambda x: 2 * math.asin(min(1, x * wl / (4 * math.pi))), 1e-7)
    run(lambda x: utils.q_to_twotheta(x, int(max(1, wl))), np.asarray(q) * 0 + 0.25 / int(max(1, wl)), lambda x: 2 * math.asin(x * int(max(1, wl)) / (4 * math.pi)))


@op("twotheta_to_q", g, 60)
def twotheta_to_q(i):
    t, wl = form(i["two_theta"], i.get("how", "array")), i["wavelength"]
    require(wl > 0)
    run(lambda x: utils.twotheta_to_q(x, wl), t, lambda x: 4 * math.pi / wl * math.sin(x / 2))


@op("roundtrip_q", g, 40)
def roundtrip_q(i):
    q, wl = form(i["q"], i.get("how", "array")), i["wavelength"]
    require(wl > 0 and np.all(np.asarray(q) >= 0) and np.all(np.asarray(q) * wl <= 4 * math.pi))
    run(lambda x: utils.twotheta_to_q(utils.q_to_twotheta(x, wl), wl), q, lambda x: x, 1e-7)


@op("roundtrip_twotheta", g, 40)
def roundtrip_twotheta(i):
    t, wl = form(i["two_theta"], i.get("how", "array")), i["wavelength"]
    require(wl > 0 and np.all(np.asarray(t) >= 0) and np.all(np.asarray(t) <= 3.14))
    run(lambda x: utils.q_to_twotheta(utils.twotheta_to_q(x, wl), wl), t, lambda x: x, 1e-6)


@op("radius_to_twotheta", g, 60)
def radius_to_twotheta(i):
    r, d = form(i["radius"], i.get("how", "array")), i["dist"]
    require(d > 0 and not isinstance(r, list))
    run(lambda x: utils.radius_to_twotheta(d, x), r, lambda x: math.atan2(x, d))
