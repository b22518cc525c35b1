"""numpy object arrays as the code uses them: a table of cells that each hold a number or a 1-D array.

ORows: a 2-D object array with a known number of rows and any number of columns; all the cells of a row hold arrays of one
length (numbers count as constant arrays: scalar cells are told apart from arrays only up to broadcasting).
OCells: an object array of known shape whose cells hold any value."""
import z3

from .arr import ROOT, Ax, SArr, Storage, as_sarr, const_arr, cint, deq, dim, zi
from .core import CTX, SV, Unsupported, _oid, binop, lift, truth, unop, zb


def _cell_index(k, n):
    """a concrete position for index k into n cells (path split when it is symbolic)"""
    if isinstance(k, SArr):
        k = k.item()
    if isinstance(k, SV):
        c = k.concrete()
        if c is None:
            ctx = CTX()
            for v in range(-n, n):
                if ctx.decide(zb(k == v)):
                    c = v
                    break
            else:
                raise IndexError("index out of bounds")
        k = c
    k = k.__index__()
    if not -n <= k < n:
        raise IndexError("index %d is out of bounds for axis with size %d" % (k, n))
    return k % n


class OCells:
    __array_ufunc__ = None
    __hash__ = object.__hash__

    def __init__(self, shape, fill=0):
        self.shape = tuple(shape)
        n = 1
        for s in shape:
            n *= s
        self.cells = [fill] * n
        self.oid = next(_oid)

    ndim = property(lambda s: len(s.shape))

    @property
    def dtype(self):
        from .npshim import OBJ
        return OBJ

    def snapshot(self):
        return list(self.cells)

    def restore(self, s):
        self.cells = list(s)

    def _pos(self, k):
        k = k if isinstance(k, tuple) else (k,)
        if len(k) != len(self.shape) or any(isinstance(x, (slice, type(None), type(Ellipsis))) for x in k):
            raise Unsupported("slice of an object array")
        p = 0
        for x, n in zip(k, self.shape):
            p = p * n + _cell_index(x, n)
        return p

    def __getitem__(self, k):
        return self.cells[self._pos(k)]

    def __setitem__(self, k, v):
        p = self._pos(k)
        CTX().log_write(self)
        self.cells[p] = v

    def __len__(self):
        return self.shape[0]

    def slen(self):
        return self.shape[0]


class ORows:
    __array_ufunc__ = None
    __hash__ = object.__hash__

    def __init__(self, nrow, ncol, rows=None):
        self.nrow, self.ncol = nrow, dim(ncol)
        self.rows = rows if rows is not None else [const_arr((self.ncol,), 0, "f") for _ in range(nrow)]
        self.oid = next(_oid)

    ndim = 2

    @property
    def shape(self):
        from .arr import dimv
        return (self.nrow, dimv(self.ncol))

    @property
    def dtype(self):
        from .npshim import OBJ
        return OBJ

    def snapshot(self):
        return list(self.rows)

    def restore(self, s):
        self.rows = list(s)

    def widen(self, l, n):
        """row l holds arrays of length n: numbers in it become constant arrays of that length"""
        r = self.rows[l]
        if r.ndim == 2:
            return r
        rd, k = r.reader(), r.kind
        from .arr import castp
        new = SArr([r.axes[0], Ax((dim(n),))], Storage(lambda idx: castp(k, *rd((idx[0],)), "f"), "f"))
        new.st.oid = r.st.oid         # the same object in another representation
        from .loops import STRUCT
        ROOT[new.st.oid] = new.axes
        STRUCT[new.st.oid] = tuple(len(a.dims) for a in new.axes)
        self.rows[l] = new
        return new

    def _key(self, k):
        if not isinstance(k, tuple) or len(k) != 2 or any(isinstance(x, (slice, type(None), type(Ellipsis))) for x in k):
            raise Unsupported("slice of an object array")
        return _cell_index(k[0], self.nrow), k[1]

    def __getitem__(self, k):
        l, j = self._key(k)
        return self.rows[l][j]

    def at(self, l, j, b):
        r = self.rows[l]
        return r.at(j, b) if r.ndim == 2 else r.at(j)

    def __setitem__(self, k, v):
        l, j = self._key(k)
        if isinstance(v, (list, tuple)):
            v = as_sarr(v)
        if isinstance(v, SArr) and v.ndim == 1:
            if v.axes[0].pred is not None:
                raise Unsupported("selection stored in an object array")
            r = self.widen(l, v.axes[0].size)
            if not deq(r.axes[1].size, v.axes[0].size) and not CTX().valid(zi(r.axes[1].size) == zi(v.axes[0].size)):
                raise Unsupported("object array row with cells of different lengths")
        elif isinstance(v, SArr) and v.ndim:
            raise Unsupported("object array cell of dimension %d" % v.ndim)
        self.rows[l][j] = v

    def _op(self, op, o, rev=False):
        if isinstance(o, ORows):
            if o.nrow != self.nrow or not CTX().valid(zi(o.ncol) == zi(self.ncol)):
                raise Unsupported("object arrays of different shapes")
            ys = o.rows
        elif isinstance(o, (SV, int, float)):
            ys = [o] * self.nrow
        else:
            raise Unsupported("object array arithmetic with %s" % type(o).__name__)
        out = []
        for x, y in zip(self.rows, ys):
            if isinstance(y, SArr) and x.ndim != y.ndim:
                x, y = (x if x.ndim == 2 else x[:, None]), (y if y.ndim == 2 else y[:, None])
            out.append(binop(op, y, x) if rev else binop(op, x, y))
        return ORows(self.nrow, self.ncol, out)

    def _in(self, op, o):
        r = self._op(op, o)
        CTX().log_write(self)
        self.rows = r.rows
        return self

    def map1(self, op):
        return ORows(self.nrow, self.ncol, [unop(op, x) for x in self.rows])

    def copy(self):
        return ORows(self.nrow, self.ncol, [x.copy() for x in self.rows])

    def __add__(self, o): return self._op("add", o)
    def __radd__(self, o): return self._op("add", o, True)
    def __sub__(self, o): return self._op("sub", o)
    def __rsub__(self, o): return self._op("sub", o, True)
    def __mul__(self, o): return self._op("mul", o)
    def __rmul__(self, o): return self._op("mul", o, True)
    def __truediv__(self, o): return self._op("div", o)
    def __rtruediv__(self, o): return self._op("div", o, True)
    def __pow__(self, o): return self._op("pow", o)
    def __iadd__(self, o): return self._in("add", o)
    def __isub__(self, o): return self._in("sub", o)
    def __imul__(self, o): return self._in("mul", o)
    def __itruediv__(self, o): return self._in("div", o)


def zeros_obj(shape, v=0):
    from .npshim import _shape
    s = [cint(zi(d)) if not isinstance(d, int) else d for d in _shape(shape)]
    if v != 0:
        raise Unsupported("object array filled with %r" % (v,))
    if len(s) == 2 and s[0] is not None and s[1] is None:
        return ORows(s[0], _shape(shape)[1])
    if any(x is None for x in s):
        raise Unsupported("object array of unknown shape")
    return OCells(s)
