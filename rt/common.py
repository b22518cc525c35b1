"""Runtime contract checking of the real code (replay + bounded stand-in).

A module rt/P??.py registers operations:  @op("name", n=40)  class/functions
  gen(rng) -> inputs (JSON-able dict)      check(inputs) -> None | message
check() evaluates the same postcondition as the contract of the same name,
independently of the verifier.  Inputs outside the precondition return None.
"""
import math
import random
import signal

import numpy as np

OPS = {}


class Skip(Exception):
    """input outside the precondition"""


class Bad(Exception):
    """postcondition violated"""


def op(name, gen, n=30, weight=1):
    def deco(f):
        OPS[name] = (gen, f, n)
        return f
    return deco


def A(x):
    """decode array"""
    if isinstance(x, dict) and "data" in x:
        dt = {"f": float, "i": np.int64, "b": bool, "c": complex}[x["kind"]]
        if x["kind"] == "c":
            d = [complex(*v) for v in x["data"]]
        else:
            d = [float("nan") if v is None else v for v in x["data"]]
        return layout(np.array(d, dtype=dt).reshape(x["shape"]), x.get("lay"))
    return np.array(x)


def layout(a, lay):
    """the same array in another memory layout: F column-major, S strided view, R negative strides"""
    if not lay or a.ndim == 0 or a.size == 0:
        return a
    if lay == "F":
        return np.asfortranarray(a)
    if lay == "S":
        big = np.zeros([2 * k for k in a.shape], a.dtype)
        big[...] = a.ravel()[-1]
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    return a[::-1].copy()[::-1]


def E(a):
    """encode array"""
    a = np.asarray(a)
    k = {"b": "b", "i": "i", "u": "i", "f": "f", "c": "c"}[a.dtype.kind]
    if k == "c":
        d = [[float(v.real), float(v.imag)] for v in a.ravel()]
    else:
        d = [None if (isinstance(v, float) and v != v) else v for v in a.ravel().tolist()]
    return {"shape": list(a.shape), "kind": k, "data": d}


def require(c):
    if not c:
        raise Skip()


def ensure(c, msg, *args):
    if not c:
        raise Bad(msg % args if args else msg)


def close(a, b, rtol=1e-9, atol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


def eqv(a, b, what, rtol=1e-9, atol=1e-9):
    """ensure two values agree up to rounding"""
    if not close(a, b, rtol, atol):
        raise Bad("%s: got %s expected %s" % (what, np.array2string(np.asarray(a), threshold=30)[:300], np.array2string(np.asarray(b), threshold=30)[:300]))


class Rng(random.Random):
    def dy(self, lo, hi, q=8):
        """dyadic rational in [lo, hi]: exact in floating point"""
        return self.randint(int(math.ceil(lo * q)), int(math.floor(hi * q))) / q

    def arr(self, shape, lo=-4, hi=4, q=8, kind="f"):
        n = int(np.prod(shape)) if len(shape) else 1
        if kind == "i":
            d = [self.randint(lo, hi) for _ in range(n)]
        elif kind == "b":
            d = [self.random() < 0.5 for _ in range(n)]
        else:
            d = [self.dy(lo, hi, q) for _ in range(n)]
        return self._lay({"shape": list(shape), "kind": kind, "data": d})

    def _lay(self, x):
        r = self.random()
        if r < 0.3:
            x["lay"] = "F" if r < 0.15 else "S" if r < 0.25 else "R"
        return x

    def floats(self, shape, lo=-4, hi=4):
        n = int(np.prod(shape)) if len(shape) else 1
        return self._lay({"shape": list(shape), "kind": "f", "data": [self.uniform(lo, hi) for _ in range(n)]})


class Frozen:
    """detect mutation of inputs: with Frozen(a, b): call"""

    def __init__(self, *arrs):
        self.arrs = [(a, _copy(a)) for a in arrs]

    def check(self, what="input"):
        for a, c in self.arrs:
            if not _same(a, c):
                raise Bad("%s modified in place" % what)


def _copy(a):
    if isinstance(a, np.ndarray):
        return a.copy()
    import copy
    return copy.deepcopy(a)


def _same(a, c):
    if isinstance(a, np.ndarray):
        return a.shape == c.shape and a.dtype == c.dtype and np.array_equal(a, c, equal_nan=a.dtype.kind in "fc")
    if isinstance(a, (list, tuple)):
        return len(a) == len(c) and all(_same(x, y) for x, y in zip(a, c))
    if isinstance(a, dict):
        return set(a) == set(c) and all(_same(a[k], c[k]) for k in a)
    return a is c or a == c or (a != a and c != c)


def raises(exc, f, *a, **k):
    try:
        f(*a, **k)
    except exc:
        return True
    except Exception as e:  # other exception type
        return repr(e)
    return False


CASE_LIMIT = 90


def _hang(*a):
    raise Bad("did not terminate within %d s" % CASE_LIMIT)


def run_check(name, inputs):
    """None ok/skip, else message"""
    g, f, n = OPS[name]
    import warnings
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            signal.signal(signal.SIGALRM, _hang)
            signal.alarm(CASE_LIMIT)
            try:
                r = f(inputs)
            finally:
                signal.alarm(0)
        except Skip:
            return "skip"
        except Bad as e:
            return "FAIL: %s" % e
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            where = [t for t in tb if "skbeam" in t.filename]
            w = ("%s:%d" % (where[-1].filename, where[-1].lineno)) if where else "harness %s:%d" % (tb[-1].filename, tb[-1].lineno)
            if isinstance(e, MemoryError):
                return "skip"
            return "FAIL: raised %s: %s (%s)" % (type(e).__name__, str(e)[:200], w)
    return None if r is None else "FAIL: %s" % r
