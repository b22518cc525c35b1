"""P19 runtime contracts: image logic"""
import numpy as np

from rt.common import A, Frozen, ensure, op, raises, require
from skbeam.core import arithmetic as M

REF = {"logical_nand": lambda a, b: not (a and b), "logical_nor": lambda a, b: not (a or b), "logical_sub": lambda a, b: a and not b,
       "logical_and": lambda a, b: a and b, "logical_or": lambda a, b: a or b, "logical_xor": lambda a, b: a != b}


def g(rng):
    n = rng.randint(1, 3)
    shp = [rng.randint(1, 4) for _ in range(n)]

    def one():
        k = rng.choice("bif")
        a = rng.arr(tuple(shp), -1 if k == "i" else 0, 1, 2, kind=k)
        if k == "f":
            a["data"] = [rng.choice([0.0, -0.0, 0.5, -2.0, 1e-9]) for _ in a["data"]]
        return a
    return {"x1": one(), "x2": one(), "out": rng.choice([None, None, "new", "x1", "x2"])}


def check(name, i):
    a, b = A(i["x1"]), A(i["x2"])
    require(a.shape == b.shape)
    want = np.array([bool(REF[name](bool(x), bool(y))) for x, y in zip(a.ravel(), b.ravel())]).reshape(a.shape)
    f = getattr(M, name)
    how = i.get("out")
    if how == "new":
        o = np.zeros(a.shape, bool)
        fz = Frozen(a, b)
        r = f(a, b, o)
        fz.check()
        ensure(r is o, "result is not the supplied out array")
    elif how in ("x1", "x2") and name != "logical_sub":
        a, b = a.astype(bool), b.astype(bool)
        r = f(a, b, a if how == "x1" else b)
    else:
        fz = Frozen(a, b)
        r = f(a, b)
        fz.check()
    ensure(np.asarray(r).dtype == bool and r.shape == want.shape, "result type %s shape %s", np.asarray(r).dtype, r.shape)
    ensure(np.array_equal(r, want), "%s(%s, %s) = %s", name, a.tolist(), b.tolist(), r.tolist())


for _n in REF:
    op(_n, g, 60)(lambda i, _n=_n: check(_n, i))


def g_sh(rng):
    return {"a": rng.randint(2, 4), "b": rng.randint(5, 7)}


@op("unequal_shapes", g_sh, 10)
def unequal_shapes(i):
    for n in REF:
        ensure(raises(ValueError, getattr(M, n), np.ones(i["a"]), np.ones(i["b"])) is True, "%s accepts unequal shapes", n)
