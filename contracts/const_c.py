"""Contracts: element constants, emission line search and powder standards (skbeam/core/constants)."""
import z3

from pyvc.core import SV, Unsupported, zand, zb, zimp, znot, zor
from pyvc.verify import contract

XRF = "skbeam.core.constants.xrf"
XRS = "skbeam.core.constants.xrs"
BAS = "skbeam.core.constants.basic"


def _abs(V, x):
    return V.ite(x >= 0, x, -x)


def _near(n):
    """lines whose cross section at the incident energy is not zero and whose energy lies inside the open window"""
    def c(V):
        mod = V.module()
        keys = ["ka1", "ka2", "lb1"][:n]
        en = {k: V.real("energy_" + k) for k in keys}
        cs = {k: V.real("cs_" + k) for k in keys}
        E, d, inc = V.real("energy"), V.real("delta_e"), V.real("incident")
        asked = []

        class Line:
            def __init__(self, vals):
                self.vals = vals

            def items(self):
                return list(self.vals.items())

            def keys(self):
                return list(self.vals)

            def values(self):
                return list(self.vals.values())

            def __iter__(self):
                return iter(list(self.vals))

            def __getitem__(self, k):
                return self.vals[k]

            def __len__(self):
                return len(self.vals)

            @property
            def all(self):
                return list(self.vals.items())

        def wrap(Z, kind, energy=None):
            if energy is None:
                raise Unsupported("line energies looked up anew")
            asked.append((kind, energy))
            if kind not in ("cs", "csb"):
                raise Unsupported("cross section kind")
            return Line(cs)
        mod.XrayLibWrap_Energy = wrap

        def call():
            del asked[:]
            e = mod.XrfElement.__new__(mod.XrfElement)
            e.Z, e.sym = 30, "Zn"
            e._emission_line = Line(en)
            return e.line_near(E, d, inc), list(asked)
        for p in V.paths(call):
            if not p.returned():
                continue
            out, used = p.ret
            p.ensure("incident-energy", all(u[1] is inc or zb(u[1] == inc) is not None and V.ctx.valid(zb(u[1] == inc)) for u in used) and len(used) > 0)
            for k in keys:
                want = zand(cs[k] != 0, _abs(V, en[k] - E) < d)
                p.ensure("listed-exactly-%s" % k, zb(want) == zb(k in out))
                if k in out:
                    p.ensure("energy-%s" % k, out[k] == en[k])
            p.ensure("no-other-line", all(k in keys for k in out))
    c.__name__ = "line_near_%d" % n
    return c


for _n in (1, 3):
    contract("P26", XRF + ":XrfElement.line_near")(_near(_n))


@contract("P26", XRF + ":emission_line_search")
def line_search(V):
    """every element is searched with the caller's window; elements without a line are left out"""
    mod = V.module()
    E, d, inc = V.real("energy"), V.real("delta_e"), V.real("incident")
    found = [V.bool("has%d" % k) for k in range(3)]
    calls = []

    class El:
        def __init__(self, item):
            self.sym = {29: "Cu", 30: "Zn", "Fe": "Fe"}[item]
            self.n = {29: 0, 30: 1, "Fe": 2}[item]

        def line_near(self, *a):
            calls.append((self.sym, a))
            return {"ka1": 1.0 + self.n} if found[self.n] else {}
    mod.XrfElement = El
    mod.xraylib = object()

    def call():
        del calls[:]
        return mod.emission_line_search(E, d, inc, [29, "Fe", 30]), list(calls)
    for p in V.paths(call):
        if not p.returned():
            continue
        out, cl = p.ret
        for k, s in enumerate(("Cu", "Zn", "Fe")):
            p.ensure("listed-%s" % s, zb(found[k]) == zb(s in out))
            p.ensure("lines-%s" % s, s not in out or out[s] == {"ka1": 1.0 + k})
        p.ensure("nothing-else", len(out) == len([s for s in out if s in ("Cu", "Zn", "Fe")]))
        p.ensure("window", zand(*[zand(len(a) == 3, a[0] == E, a[1] == d, a[2] == inc) for _, a in cl]))


@contract("P26", BAS + ":BasicElement")
def element_order(V):
    """elements compare by atomic number"""
    mod = V.module()
    cls = mod.BasicElement
    z1, z2 = V.int("z1", 1, py=True), V.int("z2", 1)

    def mk(z):
        e = cls.__new__(cls)
        e.Z = z
        return e
    for name, want in (("lt", z1 < z2), ("gt", z1 > z2), ("le", z1 <= z2), ("ge", z1 >= z2), ("eq", z1 == z2), ("ne", z1 != z2)):
        fn = {"lt": lambda a, b: a < b, "gt": lambda a, b: a > b, "le": lambda a, b: a <= b, "ge": lambda a, b: a >= b,
              "eq": lambda a, b: a == b, "ne": lambda a, b: a != b}[name]
        for p in V.paths(lambda: bool(fn(mk(z1), mk(z2)))):
            if not p.returned():
                continue
            p.ensure(name, zb(want) == zb(p.ret))


def _std(which):
    def c(V):
        mod = V.module()
        n = 3
        pi = SV("f", z3.Real("pi"))
        v = [V.real("v%d" % k, gt=0) for k in range(n)]
        lam = V.real("wavelength", gt=0)
        hkl = ((1, 0, 0), (2, 1, 0), (3, 2, 1))
        from pyvc.npshim import np as N
        if which == "2theta":
            for x in v:
                V.assume(x < pi)

        def call():
            if which == "d":
                return mod.PowderStandard.from_d("s", list(v), hkl)
            if which == "2theta":
                return mod.PowderStandard.from_lambda_2theta_hkl("s", lam, N.array(list(v)), hkl)
        for p in V.paths(call):
            if not p.returned():
                continue
            r = p.ret.reflections
            p.ensure("count", zand(len(r) == n, len(p.ret) == n))
            p.ensure("ascending", zand(*[r[k].q <= r[k + 1].q for k in range(n - 1)]))
            got = sorted(x.hkl.h for x in r)
            p.ensure("every-reflection-once", got == [1, 2, 3])
            for x in r:
                src = v[x.hkl.h - 1]
                p.ensure("hkl", tuple(x.hkl) == hkl[x.hkl.h - 1])
                if which == "d":
                    p.ensure("d-kept", x.d == src)
                    p.ensure("q-from-d", x.q == 2 * pi / src)
                else:
                    q = 4 * pi / lam * N.sin(src / 2)
                    p.ensure("q-from-angle", x.q == q)
                    p.ensure("d-from-q", x.d == 2 * pi / q)
    c.__name__ = "standard_from_%s" % which
    return c


contract("P26", XRS + ":PowderStandard.from_d")(_std("d"))
contract("P26", XRS + ":PowderStandard.from_lambda_2theta_hkl")(_std("2theta"))
