"""Raw pointers into C-contiguous arrays (translated Cython and C code).

An access outside the array is an IndexError path, so "no exception" is the memory-safety obligation.
"""
import z3

from .arr import SArr, dim, zi
from .core import CTX, SV, Unsupported


def monomials(t):
    """sum-of-products normal form: list of (coefficient, [factors])"""
    t = z3.simplify(t, som=True)
    out = []
    for p in (t.children() if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ADD else [t]):
        c, fs = 1, []
        todo = [p]
        while todo:
            f = todo.pop(0)
            if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_MUL:
                todo = f.children() + todo
                continue
            if z3.is_int_value(f):
                c *= f.as_long()
            elif z3.is_app(f) and f.decl().kind() == z3.Z3_OP_UMINUS:
                c, fs = -c, fs + [f.arg(0)]
            elif z3.is_app(f) and f.decl().kind() == z3.Z3_OP_POWER and z3.is_int_value(f.arg(1)):
                fs += [f.arg(0)] * f.arg(1).as_long()
            else:
                fs.append(f)
        out.append((c, fs))
    return out


def divide(c, fs, d):
    """(c, fs) / d for a dimension d, or None"""
    if isinstance(d, int):
        return (c // d, fs) if c % d == 0 else None
    for q, f in enumerate(fs):
        if f.eq(d):
            return c, fs[:q] + fs[q + 1:]
    ms = monomials(d)
    if len(ms) == 1 and len(ms[0][1]) > 1 and ms[0][0] and c % ms[0][0] == 0:
        c //= ms[0][0]
        for g in ms[0][1]:
            for q, f in enumerate(fs):
                if f.eq(g):
                    fs = fs[:q] + fs[q + 1:]
                    break
            else:
                return None
        return c, fs
    return None


def term(ms):
    r = z3.IntVal(0)
    for c, fs in ms:
        p = z3.IntVal(c)
        for f in fs:
            p = p * f
        r = r + p
    return z3.simplify(r)


def split_index(t, dims):
    """candidate components of a flat index: t == flatten(result, dims), read off the products in t"""
    comps = [[] for _ in dims]
    for c, fs in monomials(t):
        for k in range(len(dims)):
            m = (c, fs)
            for d in dims[k + 1:]:
                m = divide(m[0], m[1], d)
                if m is None:
                    break
            if m is not None:
                comps[k].append(m)
                break
        else:
            raise Unsupported("flat index")
    # a constant position beyond a constant dimension carries over
    for k in range(len(dims) - 1, 0, -1):
        c = sum(m[0] for m in comps[k] if not m[1])
        if isinstance(dims[k], int) and all(not m[1] for m in comps[k]) and not 0 <= c < dims[k]:
            comps[k] = [(c % dims[k], [])]
            comps[k - 1].append((c // dims[k], []))
    return [term(ms) for ms in comps]


class FlatPtr:
    """pointer to element `off` of a contiguous array"""

    def __init__(self, a, off=0):
        self.a, self.off = a, off

    def _where(self, i):
        a = self.a
        if isinstance(self.off, SV) or self.off:
            i = i + self.off
        t = zi(i) if isinstance(i, (SV, int)) else None
        if t is None:
            raise Unsupported("pointer index")
        dims = [x.dims[0] for x in a.axes]
        if len(dims) == 1:
            comps = [z3.simplify(t)]
        else:
            comps = split_index(t, [d if isinstance(d, int) else zi(d) for d in dims])
        c = CTX()
        if len(dims) > 1 and not all(c.valid(z3.And(x >= 0, x < zi(d))) for x, d in zip(comps, dims)):
            # not in range component-wise: the flat position itself decides
            n = z3.IntVal(1)
            for d in dims:
                n = n * zi(d)
            if not c.decide(z3.And(t >= 0, t < n)):
                raise IndexError("pointer outside the array")
            raise Unsupported("flat index does not split into coordinates: %s in %s" % (comps, dims))
        if len(dims) == 1 and self._factored(comps[0], zi(dims[0])):
            # coordinates in range: so is the position (mixed-radix lemma)
            c.assume(z3.And(comps[0] >= 0, comps[0] < zi(dims[0])))
        elif len(dims) == 1 and not c.decide(z3.And(comps[0] >= 0, comps[0] < zi(dims[0]))):
            raise IndexError("pointer outside the array")
        return tuple(SV("i", x) for x in comps)

    @staticmethod
    def _factored(t, n):
        """is t known to be a position in a row-major block of n = n1 * n2 * ... elements?"""
        import itertools
        ms = monomials(n)
        if len(ms) != 1 or not 2 <= len(ms[0][1]) <= 4 or ms[0][0] != 1:
            return False
        c = CTX()
        for dims in itertools.permutations(ms[0][1]):
            try:
                comps = split_index(t, list(dims))
            except Unsupported:
                continue
            if not any(z3.is_int_value(x) for x in comps) and all(c.valid(z3.And(x >= 0, x < d)) for x, d in zip(comps, dims)):
                return True
        return False

    def __getitem__(self, i):
        return self.a[self._where(i)]

    def __setitem__(self, i, v):
        self.a[self._where(i)] = v

    def __add__(self, n):
        return FlatPtr(self.a, self.off + n)

    __radd__ = __add__


def contiguous(a):
    """known to be laid out in C order: freshly allocated arrays and results of ascontiguousarray"""
    return all(x.plain() and len(x.dims) == 1 for x in a.axes) and (
        getattr(a, "contig", False) or (a.vmap is None and getattr(a.st, "name", None) is None))


def data(a):
    if not isinstance(a, SArr):
        raise Unsupported("data pointer")
    if not contiguous(a):
        CTX().oblige("pointer into an array of known layout", z3.BoolVal(False))
        raise Unsupported("pointer into an array of unknown layout")
    return FlatPtr(a)


def strides(a):
    if not contiguous(a):
        raise Unsupported("strides of an array of unknown layout")
    out, n = [], 8
    for x in reversed(a.axes):
        out.append(SV("i", z3.simplify(zi(n))) if not isinstance(n, int) else n)
        d = x.dims[0]
        n = n * d if isinstance(n, int) and isinstance(d, int) else zi(n) * zi(d)
    return tuple(reversed(out))
