"""Symbolic sequences, ranges and instrumented list objects."""
import z3

from .arr import Ax, SArr, Storage, as_sarr, castp, cint, dim, dimv, unflatten, zi
from .core import CTX, SV, TRUE, Unsupported, _oid, binop, lift, truth, zand, zite


class SList(list):
    """list with write logging (created by every list display in the code)"""

    __hash__ = object.__hash__

    def __init__(self, *a):
        super().__init__(*a)
        self.oid = next(_oid)

    def snapshot(self):
        return list(self)

    def restore(self, s):
        list.__init__(self, s)

    def _log(self):
        c = CTX()
        if c is not None:
            c.log_write(self)

    def append(self, x):
        self._log()
        super().append(x)

    def extend(self, x):
        self._log()
        super().extend(x)

    def __setitem__(self, k, v):
        self._log()
        if isinstance(k, SV):
            k = k.__index__()
        super().__setitem__(k, v)

    def __getitem__(self, k):
        if isinstance(k, SV):
            c = k.concrete()
            if c is not None:
                return super().__getitem__(c)
            if any(isinstance(x, Rest) for x in self):
                raise Unsupported("symbolic index into list under construction")
            from .indexing import norm_int
            t = norm_int(k, len(self))
            from .loops import merge_values
            r = super().__getitem__(len(self) - 1)
            for j in range(len(self) - 2, -1, -1):
                r = merge_values(t == j, super().__getitem__(j), r)
            return r
        r = super().__getitem__(k)
        if isinstance(r, Rest):
            last = getattr(r, "last", None)
            if k == -1 and last is not None:
                return last
            raise Unsupported("read of a list under construction")
        return SList(r) if isinstance(k, slice) else r

    def remove(self, x):
        self._log()
        super().remove(x)

    def pop(self, *a):
        self._log()
        return super().pop(*a)

    def insert(self, i, x):
        self._log()
        super().insert(i, x)

    def sort(self, *a, **k):
        self._log()
        super().sort(*a, **k)

    def __eq__(self, o):
        return list.__eq__(self, o)

    def __mul__(self, n):
        if isinstance(n, SV):
            return binop("mul", list(self), n)
        return SList(list.__mul__(self, n))

    __rmul__ = __mul__

    def __add__(self, o):
        return SList(list.__add__(self, list(o)))

    def __iadd__(self, o):
        self._log()
        super().extend(o)
        return self


class Rest:
    """marker: unknown prefix of a list under loop summarisation"""

    def __init__(self, tag):
        self.tag = tag


class Chunk:
    """a symbolic run of elements appended by an inner loop to a list under construction in an outer one"""

    def __init__(self, ax, fn):
        self.ax, self.fn = ax, fn


class SSeq:
    """sequence over a symbolic axis: fn(components)->value, after a concrete prefix"""

    def __init__(self, length, fn, ax=None):
        # fn takes the component tuple when ax is given, else an int-like
        if ax is None:
            ax = Ax((dim(length),))
            f0 = fn
            fn = lambda c: f0(SV("i", c[0], py=True))  # noqa
        self.ax, self.fn = ax, fn

    def slen(self):
        return dimv(self.ax.size)

    def __len__(self):
        n = self.ax.size
        if isinstance(n, int):
            return n
        raise Unsupported("len of symbolic sequence")

    def at(self, comps):
        if not isinstance(comps, tuple):
            comps = (zi(comps),)
        return self.fn(comps)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if not self.ax.plain():
                raise Unsupported("slice of filtered sequence")
            from .indexing import slice_params
            st, step, ln = slice_params(k, self.ax.size)
            return SSeq(dimv(ln), None, None) if False else SSeq_slice(self, st, step, ln)
        if not self.ax.plain():
            raise Unsupported("index into filtered sequence")
        from .indexing import norm_int
        return self.fn((norm_int(k, self.ax.size),))

    def __iter__(self):
        n = self.ax.size
        if isinstance(n, int) and self.ax.pred is None:
            return iter([self[i] for i in range(n)])
        raise Unsupported("iteration over symbolic sequence outside an instrumented loop")

    def __contains__(self, x):
        from .arr import make_any
        ax = self.ax
        return CTX().decide(make_any(ax.dims, ax.pred, lambda c: truth(binop("eq", self.fn(c), x))))

    def to_array(self):
        ax = self.ax
        probe = self.fn(ax.fresh("pr"))
        P = as_sarr(probe)
        kind = P.kind
        inner = P.axes
        fn = self.fn

        def f(idx):
            v = as_sarr(fn(idx[0]))
            return castp(v.kind, *v.reader()(tuple(idx[1:])), kind)
        return SArr((ax,) + tuple(inner), Storage(f, kind))

    def append(self, x):
        raise Unsupported("append to summarised list")


def SSeq_slice(s, st, step, ln):
    from .indexing import _lin
    return SSeq(None, lambda c: s.fn((_lin(zi(st), step, c[0]),)), ax=Ax((ln,)))


class SRange:
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step
        st = step if isinstance(step, int) else cint(zi(step))
        if st is None:
            raise Unsupported("symbolic range step")
        if st == 0:
            raise ValueError("range() arg 3 must not be zero")
        self.step = st
        d = z3.simplify(zi(stop) - zi(start)) if st > 0 else z3.simplify(zi(start) - zi(stop))
        a = abs(st)
        if a != 1:
            d = (d + (a - 1)) / a
        c = cint(d)
        if c is not None:
            self.n = max(c, 0)
        else:
            self.n = d if CTX().valid(d >= 0) else zite(d >= 0, d, z3.IntVal(0))

    def item(self, k):
        return SV("i", z3.simplify(zi(self.start) + self.step * zi(k)), py=True)

    def slen(self):
        return dimv(self.n)

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([_py(self.item(i)) for i in range(self.n)])
        raise Unsupported("iteration over symbolic range")

    def to_array(self):
        return SArr([Ax((self.n,))], Storage(lambda idx: (self.item(idx[0][0]).t, None), "i"))

    def __getitem__(self, k):
        from .indexing import norm_int
        return self.item(norm_int(k, self.n))


def _py(v):
    if isinstance(v, SV):
        c = v.concrete()
        if c is not None:
            return c
    return v


class SEnum:
    def __init__(self, it, start=0):
        self.it, self.start = it, start


class SZip:
    def __init__(self, its):
        self.its = its


def symiter(x):
    """None when concretely iterable, else (Ax, item(comps))"""
    if isinstance(x, SArr):
        if x.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        ax = x.axes[0]
        if isinstance(ax.size, int) and ax.pred is None:
            return None
        if x.ndim == 1:
            rd = x.reader()
            k = x.kind
            return ax, (lambda c: SV(k, *rd((c,))))

        def item(c):
            vw = x._view(x.axes[1:], lambda v: (c,) + tuple(v),
                         lambda s: (zand(*[a == b for a, b in zip(s[0], c)]), tuple(s[1:])))
            return vw
        return ax, item
    if isinstance(x, SList) and hasattr(x, "_seq"):
        return symiter(x._seq)
    if isinstance(x, SSeq):
        if isinstance(x.ax.size, int) and x.ax.pred is None:
            return None
        return x.ax, x.fn
    if isinstance(x, SRange):
        if isinstance(x.n, int):
            return None
        return Ax((x.n,)), (lambda c: x.item(c[0]))
    if isinstance(x, SEnum):
        s = symiter(x.it)
        if s is None:
            return None
        ax, item = s
        if ax.pred is not None:
            raise Unsupported("enumerate over a filtered sequence")
        from .arr import flatten

        def it2(c):
            i = flatten(c, ax.dims)
            return (SV("i", z3.simplify(zi(i) + zi(x.start)), py=True), item(c))
        return ax, it2
    if isinstance(x, SZip):
        ss = [symiter(i) for i in x.its]
        if all(s is None for s in ss):
            return None
        # common length: min of lengths; require provable equality or take the minimum
        axes = []
        for s, i in zip(ss, x.its):
            if s is None:
                lst = list(i)
                axes.append((Ax((len(lst),)), (lambda c, lst=lst: SList(lst)[SV("i", c[0])])))
            else:
                axes.append(s)
        ax0 = axes[0][0]
        from .arr import deq
        if all(a.pred is None and len(a.dims) == 1 for a, _ in axes):
            n = axes[0][0].dims[0]
            for a, _ in axes[1:]:
                if not deq(n, a.dims[0]):
                    n = dim(zite(zi(n) <= zi(a.dims[0]), zi(n), zi(a.dims[0])))
            if isinstance(n, int):
                raise Unsupported("zip of mixed lengths")
            return Ax((n,)), (lambda c: tuple(f(c) for _, f in axes))
        from .arr import same_axis
        if all(same_axis(ax0, a) and len(a.dims) == len(ax0.dims) for a, _ in axes[1:]):
            return ax0, (lambda c: tuple(f(c) for _, f in axes))
        raise Unsupported("zip over selections")
    return None


def conc_iter(x):
    if isinstance(x, SEnum):
        return enumerate(conc_iter(x.it), x.start)
    if isinstance(x, SZip):
        return zip(*[conc_iter(i) for i in x.its])
    return iter(x)


def is_symiterable(x):
    return isinstance(x, (SArr, SSeq, SRange, SEnum, SZip))
