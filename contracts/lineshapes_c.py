"""Contracts: peak line shapes (skbeam/core/fitting/lineshapes.py)."""
import z3

from pyvc.core import SV, unop, zand, zimp, znot, zor
from pyvc.npshim import np as N
from pyvc.verify import contract

LS = "skbeam.core.fitting.lineshapes"
PI = SV("f", z3.Real("pi"))


def gauss(x, a, c, s):
    return a / (N.sqrt(2 * PI) * s) * N.exp(-(x - c) * (x - c) / (2 * s * s))


def lorentz(x, a, c, s):
    return a * s / (PI * ((x - c) * (x - c) + s * s))


def step(x, a, c, s, e):
    return a * unop("erfc", (x - c) / (N.sqrt(2) * s)) / (2 * e)


def tail(V, x, a, c, s, g):
    d = V.ite(x > c, SV("f", z3.RealVal(0)), x - c)
    return a * N.exp(d / (g * s)) * unop("erfc", (x - c) / (N.sqrt(2) * s) + 1 / (g * N.sqrt(2))) / (2 * g * s * N.exp(-0.5 / (g * g)))


def base(V):
    n = V.int("n", 1)
    x = V.arr("x", (n,), "f")
    return n, x, V.real("area"), V.real("center"), V.real("sigma", gt=0)


def shape(name, spec, extra=lambda V: ()):
    def c(V):
        n, x, a, ce, s = base(V)
        ex = tuple(extra(V))
        for p in V.paths(lambda: V.fn()(x, a, ce, s, *ex)):
            if not p.returned():
                continue
            V.frame(p)
            i = V.index(n)
            p.ensure("shape", V.len(p.ret) == n)
            p.ensure("formula", p.ret.at(i) == spec(V, x.at(i), a, ce, s, *ex))
    c.__name__ = name
    return c


contract("P24", LS + ":gaussian")(shape("gaussian", lambda V, *a: gauss(*a)))
contract("P24", LS + ":lorentzian")(shape("lorentzian", lambda V, *a: lorentz(*a)))
contract("P24", LS + ":lorentzian2")(shape("lorentzian2", lambda V, x, a, c, s: a / (PI * s) / ((1 + (x - c) / s * ((x - c) / s)) * (1 + (x - c) / s * ((x - c) / s)))))
contract("P24", LS + ":pvoigt")(shape("pvoigt", lambda V, x, a, c, s, f: (1 - f) * gauss(x, a, c, s) + f * lorentz(x, a, c, s), lambda V: (V.real("fraction"),)))
contract("P24", LS + ":gausssian_step")(shape("gaussian_step", lambda V, *a: step(*a), lambda V: (V.real("peak_e", gt=0),)))
contract("P24", LS + ":gaussian_tail")(shape("gaussian_tail", tail, lambda V: (V.real("gamma", gt=0),)))


def sigma_of(e, off, fano, eps):
    t = 2 * N.sqrt(2 * N.log(2))
    return N.sqrt((off / t) * (off / t) + e * eps * fano)


def calib(V):
    n = V.int("n", 1)
    x = V.arr("x", (n,), "f")
    amp, e = V.real("amplitude"), V.real("energy", gt=0)
    off, fano = V.real("fwhm_offset", gt=0), V.real("fwhm_fanoprime", lo=0)
    e0, e1, e2 = V.real("e_offset"), V.real("e_linear"), V.real("e_quadratic")
    return n, x, amp, e, off, fano, e0, e1, e2


def _elastic(given):
    def c(V):
        n, x, amp, e, off, fano, e0, e1, e2 = calib(V)
        eps, kw = 2.96, {}
        if given:
            eps = V.real("epsilon", gt=0)
            kw = {"epsilon": eps}
        for p in V.paths(lambda: V.fn()(x, amp, e, off, fano, e0, e1, e2, **kw)):
            if not p.returned():
                continue
            V.frame(p)
            i = V.index(n)
            E = e0 + x.at(i) * e1 + x.at(i) * x.at(i) * e2
            p.ensure("shape", V.len(p.ret) == n)
            p.ensure("formula", p.ret.at(i) == gauss(E, amp, e, sigma_of(e, off, fano, eps)))
    c.__name__ = "elastic" + ("_epsilon" if given else "")
    return c


contract("P24", LS + ":elastic")(_elastic(False))
contract("P24", LS + ":elastic")(_elastic(True))


def _compton(given):
    def c(V):
        n, x, amp, e, off, fano, e0, e1, e2 = calib(V)
        ang, corr = V.real("compton_angle"), V.real("compton_fwhm_corr", gt=0)
        fs, ft, g = V.real("f_step", lo=0), V.real("f_tail", lo=0), V.real("gamma", gt=0)
        hft, hg = V.real("hi_f_tail", lo=0), V.real("hi_gamma", gt=0)
        eps, kw = 2.96, {}
        if given:
            eps = V.real("epsilon", gt=0)
            kw = {"epsilon": eps}
        for p in V.paths(lambda: V.fn()(x, amp, e, off, fano, e0, e1, e2, ang, corr, fs, ft, g, hft, hg, **kw)):
            if not p.returned():
                continue
            V.frame(p)
            i = V.index(n)
            E = e0 + x.at(i) * e1 + x.at(i) * x.at(i) * e2
            ce = e / (1 + e / 511 * (1 - N.cos(ang * PI / 180)))
            s = sigma_of(ce, off, fano, eps)
            tot = 1 + fs + ft + hft
            want = (gauss(E, amp, ce, s * corr) + V.ite(fs > 0, fs, SV('f', z3.RealVal(0))) * step(E, amp, ce, s, ce) + ft * tail(V, E, amp, ce, s, g)
                    + hft * tail(V, -1 * E, amp, -1 * ce, s, hg)) / tot
            p.ensure("shape", V.len(p.ret) == n)
            p.ensure("formula", p.ret.at(i) == want)
    c.__name__ = "compton" + ("_epsilon" if given else "")
    return c


contract("P24", LS + ":compton")(_compton(False))
contract("P24", LS + ":compton")(_compton(True))
