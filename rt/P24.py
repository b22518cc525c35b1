"""P24 runtime contracts: line shapes"""
import math

import numpy as np
from scipy import integrate

from rt.common import A, eqv, ensure, op, require
from skbeam.core.fitting import lineshapes as L


def arr(rng, lo=-5.0, hi=5.0):
    n = rng.randint(1, 12)
    return [round(rng.uniform(lo, hi), rng.choice([0, 1, 3])) for _ in range(n)]


def g(rng):
    c = round(rng.uniform(-3, 3), 2)
    x = arr(rng)
    if rng.random() < 0.5:
        x.append(c)
    return {"x": x, "area": round(rng.choice([1, rng.uniform(-3, 50)]), 3), "center": c, "sigma": round(rng.uniform(0.05, 4), 3),
            "fraction": round(rng.uniform(-0.2, 1.2), 3), "peak_e": round(rng.uniform(0.5, 20), 3), "gamma": round(rng.uniform(0.2, 3), 3)}


def gauss(x, a, c, s):
    return a / (math.sqrt(2 * math.pi) * s) * math.exp(-(x - c) ** 2 / (2 * s * s))


def lor(x, a, c, s):
    return a * s / (math.pi * ((x - c) ** 2 + s * s))


def step(x, a, c, s, e):
    return a * math.erfc((x - c) / (math.sqrt(2) * s)) / (2 * e)


def tail(x, a, c, s, ga):
    return a * math.exp(min(x - c, 0) / (ga * s)) * math.erfc((x - c) / (math.sqrt(2) * s) + 1 / (ga * math.sqrt(2))) / (2 * ga * s * math.exp(-0.5 / ga ** 2))


def compare(i, f, spec, *extra):
    i["x"] = [float(v) for v in A(i["x"])]
    require(i["sigma"] > 0 and len(i["x"]) > 0)
    x = A(i["x"]).astype(float)
    keep = x.copy()
    args = (i["area"], i["center"], i["sigma"]) + extra
    got = f(x, *args)
    want = [spec(v, *args) for v in i["x"]]
    ensure(got.shape == x.shape, "shape %s", got.shape)
    eqv(got, want, "%s%s" % (f.__name__, args), rtol=1e-9, atol=1e-250)
    ensure(np.array_equal(x, keep), "x modified")
    if len(i["x"]) > 1:
        k = len(i["x"]) // 2
        eqv(f(x[k:k + 1], *args), want[k:k + 1], "element alone", rtol=1e-9, atol=1e-250)


@op("gaussian", g, 120)
def gaussian(i):
    compare(i, L.gaussian, gauss)
    r = integrate.quad(lambda t: float(L.gaussian(t, 1.0, 0.0, i["sigma"])), -12 * i["sigma"], 12 * i["sigma"])[0]
    eqv(r, 1.0, "area", rtol=1e-6)


@op("lorentzian", g, 120)
def lorentzian(i):
    compare(i, L.lorentzian, lor)


@op("lorentzian2", g, 120)
def lorentzian2(i):
    compare(i, L.lorentzian2, lambda x, a, c, s: a / (math.pi * s) / (1 + ((x - c) / s) ** 2) ** 2)


@op("lorentzian2_area", lambda rng: {"sigma": 1.0}, 1)
def lorentzian2_area(i):
    r = integrate.quad(lambda t: float(L.lorentzian2(t, 1.0, 0.0, i["sigma"])), -np.inf, np.inf)[0]
    ensure(abs(r - 0.5) > 1e-6, "lorentzian2 integrates to half the area")
    eqv(r, 1.0, "integral of lorentzian2 with unit area", rtol=1e-6)


@op("pvoigt", g, 120)
def pvoigt(i):
    compare(i, L.pvoigt, lambda x, a, c, s, f: (1 - f) * gauss(x, a, c, s) + f * lor(x, a, c, s), i["fraction"])


@op("gaussian_step", g, 120)
def gaussian_step(i):
    require(i["peak_e"] > 0)
    compare(i, L.gausssian_step, step, i["peak_e"])


@op("gaussian_tail", g, 120)
def gaussian_tail(i):
    require(i["gamma"] > 0)
    compare(i, L.gaussian_tail, tail, i["gamma"])


@op("voigt", lambda rng: {"x": round(rng.uniform(-4, 4), 2), "area": round(rng.uniform(0.5, 9), 2), "center": round(rng.uniform(-2, 2), 2),
                          "sigma": round(rng.uniform(0.2, 2), 2), "gamma": rng.choice([None, round(rng.uniform(0.1, 2), 2)])}, 25)
def voigt(i):
    s, gm = i["sigma"], i["gamma"] if i["gamma"] is not None else i["sigma"]
    d = i["x"] - i["center"]
    want = i["area"] * integrate.quad(lambda t: gauss(t, 1, 0, s) * lor(d - t, 1, 0, gm), -15 * s, 15 * s, points=[0], limit=400, epsabs=1e-12)[0]
    got = L.voigt(np.array([i["x"]]), i["area"], i["center"], s, **({} if i["gamma"] is None else {"gamma": gm}))
    eqv(got, [want], "voigt", rtol=1e-5)


def gc(rng):
    return {"x": [round(rng.uniform(-2, 25), 2) for _ in range(rng.randint(1, 10))], "amplitude": round(rng.uniform(0.1, 90), 2),
            "energy": round(rng.uniform(3, 22), 2), "fwhm_offset": round(rng.uniform(0.01, 0.6), 3), "fwhm_fanoprime": round(rng.choice([0, rng.uniform(0, 0.01)]), 5),
            "e_offset": round(rng.uniform(-0.5, 0.5), 3), "e_linear": round(rng.choice([1, rng.uniform(0.5, 1.5)]), 3),
            "e_quadratic": round(rng.choice([0, rng.uniform(-0.01, 0.01)]), 4), "epsilon": rng.choice([None, 2.96, round(rng.uniform(1, 5), 2)]),
            "compton_angle": round(rng.uniform(0, 180), 1), "compton_fwhm_corr": round(rng.uniform(0.4, 3), 2),
            "f_step": round(rng.choice([0, 0, rng.uniform(0, 1)]), 3), "f_tail": round(rng.choice([0, rng.uniform(0, 1)]), 3),
            "gamma": round(rng.uniform(0.5, 6), 2), "hi_f_tail": round(rng.choice([0, rng.uniform(0, 1)]), 3), "hi_gamma": round(rng.uniform(0.5, 6), 2)}


def sig(e, i, eps):
    return math.sqrt((i["fwhm_offset"] / (2 * math.sqrt(2 * math.log(2)))) ** 2 + e * eps * i["fwhm_fanoprime"])


def common(i):
    i["x"] = [float(v) for v in A(i["x"])]
    require(i["energy"] > 0 and i["fwhm_offset"] > 0 and i["fwhm_fanoprime"] >= 0 and len(i["x"]) > 0)
    x = A(i["x"]).astype(float)
    E = [i["e_offset"] + v * i["e_linear"] + v * v * i["e_quadratic"] for v in i["x"]]
    given = i.get("epsilon") is not None
    return x, E, (i["epsilon"] if given else 2.96), ({"epsilon": i["epsilon"]} if given else {})


@op("elastic", gc, 120)
def elastic(i):
    x, E, eps, kw = common(i)
    keep = x.copy()
    got = L.elastic(x, i["amplitude"], i["energy"], i["fwhm_offset"], i["fwhm_fanoprime"], i["e_offset"], i["e_linear"], i["e_quadratic"], **kw)
    eqv(got, [gauss(v, i["amplitude"], i["energy"], sig(i["energy"], i, eps)) for v in E], "elastic", rtol=1e-8, atol=1e-200)
    ensure(np.array_equal(x, keep), "x modified")


@op("compton", gc, 150)
def compton(i):
    x, E, eps, kw = common(i)
    require(i["f_step"] >= 0 and i["f_tail"] >= 0 and i["hi_f_tail"] >= 0 and i["gamma"] > 0 and i["hi_gamma"] > 0 and i["compton_fwhm_corr"] > 0)
    keep = x.copy()
    got = L.compton(x, i["amplitude"], i["energy"], i["fwhm_offset"], i["fwhm_fanoprime"], i["e_offset"], i["e_linear"], i["e_quadratic"],
                    i["compton_angle"], i["compton_fwhm_corr"], i["f_step"], i["f_tail"], i["gamma"], i["hi_f_tail"], i["hi_gamma"], **kw)
    ce = i["energy"] / (1 + i["energy"] / 511 * (1 - math.cos(math.radians(i["compton_angle"]))))
    s, a = sig(ce, i, eps), i["amplitude"]
    want = [(gauss(v, a, ce, s * i["compton_fwhm_corr"]) + i["f_step"] * step(v, a, ce, s, ce) + i["f_tail"] * tail(v, a, ce, s, i["gamma"])
             + i["hi_f_tail"] * tail(-v, a, -ce, s, i["hi_gamma"])) / (1 + i["f_step"] + i["f_tail"] + i["hi_f_tail"]) for v in E]
    eqv(got, want, "compton", rtol=1e-7, atol=1e-200)
    ensure(np.array_equal(x, keep), "x modified")
