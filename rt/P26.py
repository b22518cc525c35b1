"""P26 runtime contracts: element constants, fluorescence lines, powder standards"""
import os

import numpy as np
import xraylib

from rt.common import A, ensure, eqv, op, raises, require
from skbeam.core.constants import basic, xrf, xrs

FIELDS = ["atomic_radius", "covalent_radius", "mass", "bp", "mp", "density", "atomic_volume", "coherent_scattering_length",
          "incoherent_crosssection", "absorption", "debye_temp", "thermal_conductivity"]
LINES = {"ka1": "KA1", "ka2": "KA2", "ka3": "KA3", "kb1": "KB1", "kb2": "KB2", "kb3": "KB3", "kb4": "KB4", "kb5": "KB5", "la1": "LA1", "la2": "LA2",
         "lb1": "LB1", "lb2": "LB2", "lb3": "LB3", "lb4": "LB4", "lb5": "LB5", "lg1": "LG1", "lg2": "LG2", "lg3": "LG3", "lg4": "LG4", "ll": "LL", "ln": "LE",
         "ma1": "MA1", "ma2": "MA2", "mb": "MB", "mg": "MG"}
SHELLS = ["K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5", "N1", "N2", "N3", "N4", "N5", "N6", "N7", "O1", "O2", "O3", "O4", "O5", "P1", "P2", "P3"]


def table():
    """(Z, symbol, name, values) of every element in the data file shipped with the package"""
    out, cur = {}, None
    for ln in open(os.path.join(os.path.dirname(basic.__file__), "data", "AtomicConstants.dat")):
        w = ln.split()
        if not w:
            continue
        if w[0] == "#S":
            cur = [int(w[1]), w[2], None]
        elif w[0] == "#UNAME":
            cur[2] = w[1]
        elif not ln.startswith("#") and cur[0] != 1000:
            out[cur[0]] = tuple(cur) + ([float(x) for x in w],)
    return out


T = table()


def spell(rng, s):
    return "".join(c.upper() if rng.random() < 0.5 else c.lower() for c in s)


@op("elements", lambda rng: {"sp": {str(z): [spell(rng, T[z][1]), spell(rng, T[z][2])] for z in T}}, 4)
def elements(i):
    """every element, every kind of key"""
    ensure(len(T) >= 100, "element table lost")
    objs = {}
    for z, (Z, sym, name, vals) in sorted(T.items()):
        keys = [z, sym, name] + i["sp"][str(z)]
        es = [basic.BasicElement(k) for k in keys]
        for k, e in zip(keys, es):
            ensure((e.Z, e.sym, e.name) == (Z, sym, name), "key %r gives %r", k, (e.Z, e.sym, e.name))
            for f, v in zip(FIELDS, vals):
                ensure(getattr(e, f) == v and e[f] == v, "%s.%s = %r, table has %r", sym, f, getattr(e, f), v)
            ensure(e == es[0] and not (e != es[0]), "two lookups of %s differ", sym)
        objs[z] = es[0]
    zs = sorted(objs)
    for a, b in zip(zs, zs[1:]):
        x, y = objs[a], objs[b]
        ensure(x < y and y > x and x <= y and y >= x and x != y and not x == y and not y < x and not y <= x, "order of %s and %s", x.sym, y.sym)
    ensure(sorted(objs.values())[0].Z == zs[0] and [e.Z for e in sorted(objs.values(), reverse=True)] == zs[::-1], "sorting elements")


@op("unknown", lambda rng: {"key": rng.choice([0, -1, 104, 119, 1000, "", "xx", "Znn", "zinck", "1", " fe"])}, 12)
def unknown(i):
    r = raises(KeyError, basic.BasicElement, i["key"])
    ensure(r is True, "unknown element %r accepted: %s", i["key"], r)


def safe(f, *a):
    try:
        return f(*a)
    except ValueError:
        return 0


@op("lines", lambda rng: {"z": rng.randint(1, 100), "e": rng.uniform(1, 40), "up": rng.random() < 0.5}, 25)
def lines(i):
    z = i["z"]
    e = xrf.XrfElement(rngkey(i))
    ensure(e.Z == z, "wrong element")
    w = (lambda k: k.upper()) if i["up"] else (lambda k: k.capitalize())
    for k, n in LINES.items():
        ln = getattr(xraylib, n + "_LINE")
        ensure(e.emission_line[w(k)] == safe(xraylib.LineEnergy, z, ln), "%s %s energy", e.sym, k)
        ensure(e.cs(i["e"])[w(k)] == safe(xraylib.CS_FluorLine_Kissel, z, ln, i["e"]), "%s %s cross section", e.sym, k)
        ensure(e.csb(i["e"])[w(k)] == safe(xraylib.CSb_FluorLine_Kissel, z, ln, i["e"]), "%s %s cross section per atom", e.sym, k)
    for s in SHELLS:
        sh = getattr(xraylib, s + "_SHELL")
        ensure(e.bind_energy[w(s)] == safe(xraylib.EdgeEnergy, z, sh), "%s %s edge", e.sym, s)
        ensure(e.jump_factor[w(s)] == safe(xraylib.JumpFactor, z, sh), "%s %s jump", e.sym, s)
        ensure(e.fluor_yield[w(s)] == safe(xraylib.FluorYield, z, sh), "%s %s yield", e.sym, s)
    ensure(sorted(dict(e.emission_line.all)) == sorted(LINES) and len(e.emission_line) == len(LINES), "line names")
    ensure(sorted(x.upper() for x in e.bind_energy) == sorted(SHELLS), "shell names")
    ensure(raises(KeyError, lambda: e.emission_line["zz"]) is True, "unknown line accepted")


def rngkey(i):
    return T[i["z"]][1].upper() if i["up"] else i["z"]


def g_search(rng):
    return {"e": rng.uniform(0.5, 20), "d": rng.choice([0.05, 0.2, 1.0, 5.0, 0.0]), "inc": rng.uniform(0.5, 30), "inside": rng.random() < 0.3,
            "els": rng.choice([None, None, [rng.randint(1, 100) for _ in range(4)], ["Fe", "zn", 29]])}


@op("search", g_search, 12)
def search(i):
    els = i["els"] if i["els"] is not None else list(range(1, 101))
    want = {}
    e0 = i["e"]
    if i["inside"]:
        e0 = xraylib.LineEnergy(29, xraylib.KA1_LINE)
    for k in els:
        z, sym = basic.BasicElement(k).Z, basic.BasicElement(k).sym
        d = {}
        for name, n in LINES.items():
            ln = getattr(xraylib, n + "_LINE")
            v = safe(xraylib.LineEnergy, z, ln)
            if safe(xraylib.CS_FluorLine_Kissel, z, ln, i["inc"]) != 0 and abs(v - e0) < i["d"]:
                d[name] = v
        if d:
            want[sym] = d
    got = xrf.emission_line_search(e0, i["d"], i["inc"], i["els"])
    ensure(got == want, "search found %s expected %s", got, want)


def g_std(rng):
    n = rng.randint(1, 6)
    return {"v": [rng.uniform(0.2, 2.8) for _ in range(n)], "lam": rng.uniform(0.1, 1.5), "hkl": rng.random() < 0.6, "kind": rng.choice(["d", "2theta"]), "order": rng.random() < 0.5}


@op("standards", g_std, 40)
def standards(i):
    v = A(i["v"])
    hkl = [(k, k + 1, 2 * k) for k in range(len(v))] if i["hkl"] else None
    if i["kind"] == "d":
        s = xrs.PowderStandard.from_d("x", v if i["order"] else list(v), hkl)
        q = 2 * np.pi / v
    else:
        s = xrs.PowderStandard.from_lambda_2theta_hkl("x", i["lam"], v, hkl)
        q = 4 * np.pi * np.sin(v / 2) / i["lam"]
    order = np.argsort(q)
    ensure(len(s) == len(v) and len(list(s)) == len(v), "length")
    eqv([r.q for r in s], q[order], "q")
    eqv([r.d for r in s], 2 * np.pi / q[order], "d")
    for r, k in zip(s, order):
        ensure(tuple(r.hkl) == (hkl[k] if hkl else (0, 0, 0)), "hkl moved")
        eqv(r.hkl.length, np.sqrt(sum(x * x for x in r.hkl)), "hkl length")
    lam = i["lam"]
    require(np.all(q * lam / (4 * np.pi) <= 1))
    eqv(s.convert_2theta(lam), 2 * np.arcsin(np.clip(q[order] * lam / (4 * np.pi), -1, 1)), "two theta", 1e-9, 1e-7)


@op("known_standards", lambda rng: {"lam": rng.uniform(0.05, 0.5)}, 3)
def known_standards(i):
    for name, s in xrs.calibration_standards.items():
        q = np.array([r.q for r in s])
        ensure(s.name == name and len(s) > 3 and np.all(np.diff(q) > 0), "%s not ascending", name)
        eqv(q * np.array([r.d for r in s]), np.full(len(q), 2 * np.pi), name + " q*d")
        eqv(s.convert_2theta(i["lam"]), 2 * np.arcsin(q * i["lam"] / (4 * np.pi)), name)
