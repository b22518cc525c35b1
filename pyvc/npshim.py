"""Assumed contracts of the numpy / scipy API used by the code under test."""
import collections.abc
import math

import z3

from . import core
from .arr import (Ax, SArr, Storage, _ite2, as_sarr, axis_index, broadcast_axes, castp, check_same_axes, cint,
                  const_arr, const_sel, conv_index, deq, dim, dimv, dmul, ew, ew1, ewn, flatten, from_fn, lexle,
                  make_any, make_ext, make_sum, mapidx, norm_axis, prod_dims, reduce_, rng, same_axis, stack_list,
                  unflatten, zi, _mentions)
from .core import (CTX, FALSE, SV, TRUE, FInt, FReal, I, R, Unsupported, binop, cast, fresh_name, is_py, kmax, lift,
                   scalar_op, sort_of, to_kind, truth, uf, unop, zand, zimp, zite, znot, zor)
from .carr import CVal, FFT, as_c, is_c
from .indexing import value_reader
from .seq import SList, SRange, SSeq
from .solve import DYN_AX, PI


# ---------------------------------------------------------------- dtypes
class DType:
    def __init__(self, kind, name, itemkind):
        self.kind, self.name, self.ik = kind, name, itemkind
        self.type = self

    def __eq__(self, o):
        if isinstance(o, DType):
            return self.name == o.name
        return self.ik == kind_of_dtype(o, soft=True)

    def __hash__(self):
        return hash(self.name)

    def __call__(self, x=0):
        if isinstance(x, (SArr, list, tuple)):
            return as_sarr(x)._cast(self.ik)
        return cast(x, self.ik)

    def __repr__(self):
        return "dtype(%s)" % self.name


DTYPES = {"b": DType("b", "bool", "b"), "i": DType("i", "int64", "i"), "f": DType("f", "float64", "f")}


class OBJ:
    pass


def kind_of_dtype(dt, soft=False):
    if dt is None:
        return None
    if isinstance(dt, DType):
        return dt.ik
    if dt is bool or getattr(dt, "_pyvc_builtin", None) == "bool":
        return "b"
    if dt is int or getattr(dt, "_pyvc_builtin", None) == "int":
        return "i"
    if dt is float or getattr(dt, "_pyvc_builtin", None) == "float":
        return "f"
    if isinstance(dt, str):
        if dt in ("bool", "?", "bool_"):
            return "b"
        if dt.startswith(("int", "uint", "i", "u", "<i")):
            return "i"
        if dt.startswith(("float", "f", "d", "double", "<f")):
            return "f"
    if soft:
        return None
    raise Unsupported("dtype %r" % (dt,))


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(dim(x) for x in s)
    if isinstance(s, SArr):
        return tuple(dim(x) for x in list(s))
    return (dim(s),)


class NotModelled:
    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def __call__(self, *a, **k):
        raise Unsupported("no contract for " + self._n)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return NotModelled(self._n + "." + n)


class _Partial(type):
    """namespace class: missing members are not modelled (never an AttributeError of the code under test)"""

    def __getattr__(cls, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return NotModelled(cls.__name__ + "." + n)


def used(name):
    c = CTX()
    if c is not None:
        c.assumed.add(name)


def _dim0check(s):
    """negative dimensions raise ValueError"""
    for d in s:
        if isinstance(d, int):
            if d < 0:
                raise ValueError("negative dimensions are not allowed")
        elif not CTX().decide(zi(d) >= 0):
            raise ValueError("negative dimensions are not allowed")


class ErrState:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class _MGrid:
    def __getitem__(self, key):
        return mgrid_like(key)


def mgrid_like(key):
    if isinstance(key, slice):
        key = (key,)
    sizes = []
    starts = []
    for s in key:
        a = 0 if s.start is None else s.start
        st = 1 if s.step is None else s.step
        if st != 1:
            raise Unsupported("mgrid step")
        n = SRange(a, s.stop).n
        sizes.append(n)
        starts.append(zi(a))
    outs = []
    for p in range(len(key)):
        outs.append(SArr([Ax((n,)) for n in sizes], Storage(lambda idx, p=p: (z3.simplify(starts[p] + idx[p][0]), None), "i")))
    return stack_list(outs)


class _C_:
    """numpy.c_ of one-dimensional columns"""

    def __getitem__(self, key):
        if not isinstance(key, tuple) or any(isinstance(k, (slice, str)) for k in key):
            raise Unsupported("c_")
        return np.column_stack(key)


class NP:
    """the `numpy` module object handed to the code under test"""

    pi = SV("f", PI, py=True)
    nan = float("nan")
    inf = float("inf")
    newaxis = None
    float64 = float32 = float_ = double = DTYPES["f"]
    int64 = int32 = int_ = intp = int8 = int16 = uint32 = uint8 = uint16 = uint64 = DTYPES["i"]
    bool_ = DTYPES["b"]
    object_ = OBJ
    ndarray = SArr
    mgrid = _MGrid()
    c_ = _C_()
    sctypeDict = {}
    errstate = ErrState

    class number:
        pass
    integer = floating = generic = number

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return NotModelled("numpy." + n)

    # ------------------------------------------------------------ creation
    def zeros(self, shape, dtype=None, order=None):
        return self._full(shape, 0, dtype)

    def ones(self, shape, dtype=None):
        return self._full(shape, 1, dtype)

    def _full(self, shape, v, dtype):
        if dtype is OBJ or dtype is object:
            from .objarr import zeros_obj
            return zeros_obj(shape, v)
        k = "f" if dtype is None else kind_of_dtype(dtype)
        s = _shape(shape)
        _dim0check(s)
        return const_arr(s, v, k)

    def full(self, shape, v, dtype=None):
        k = lift(v)[0] if dtype is None else kind_of_dtype(dtype)
        s = _shape(shape)
        _dim0check(s)
        return const_arr(s, v, k)

    def empty(self, shape, dtype=None):
        k = "f" if dtype is None else kind_of_dtype(dtype)
        s = _shape(shape)
        _dim0check(s)
        f = z3.Function(fresh_name("empty"), *([I] * len(s) + [sort_of(k)]))
        return SArr([Ax((d,)) for d in s], Storage(lambda idx: (f(*[c[0] for c in idx]), None), k))

    def zeros_like(self, a, dtype=None):
        if isinstance(a, CVal):
            return CVal(self.zeros_like(a.re), self.zeros_like(a.im))
        if type(a).__name__ in ("ORows", "OCells"):
            from .objarr import ORows, OCells
            return ORows(a.nrow, a.ncol) if isinstance(a, ORows) else OCells(a.shape)
        A = as_sarr(a)
        k = kind_of_dtype(dtype) or A.kind
        z = castp("i", z3.IntVal(0), None, k)
        return SArr(A.axes, Storage(lambda idx: z, k))

    def ones_like(self, a, dtype=None):
        A = as_sarr(a)
        k = kind_of_dtype(dtype) or A.kind
        z = castp("i", z3.IntVal(1), None, k)
        return SArr(A.axes, Storage(lambda idx: z, k))

    def full_like(self, a, v, dtype=None):
        A = as_sarr(a)
        k = kind_of_dtype(dtype) or A.kind
        kk, t, n = lift(v)
        z = castp(kk, t, n, k)
        return SArr(A.axes, Storage(lambda idx: z, k))

    def empty_like(self, a, dtype=None):
        A = as_sarr(a)
        return self.empty(A.shape, kind_or(A.kind, dtype))

    def array(self, x, dtype=None, copy=True, ndmin=0, **k):
        if isinstance(x, CVal):
            return x.copy()
        return as_sarr(x, dtype).copy()

    def real(self, x):
        return x.re if isinstance(x, CVal) else as_sarr(x)

    def imag(self, x):
        return x.im if isinstance(x, CVal) else self.zeros_like(x)

    def conj(self, x):
        return x.conj() if isinstance(x, CVal) else as_sarr(x)

    conjugate = conj
    fft = FFT()

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, CVal):
            return x
        return as_sarr(x, dtype)

    asanyarray = asarray

    def ascontiguousarray(self, x, dtype=None):
        A = self.asarray(x, dtype) if dtype is not None else self.asarray(x)
        if not isinstance(A, SArr):
            return A
        r = SArr(A.axes, A.st, A.vmap, A.inv)     # the array itself or a copy: writes to it would count as writes to x
        r.contig = True
        return r

    def copy(self, x, **k):
        if isinstance(x, CVal):
            return x.copy()
        return as_sarr(x).copy()

    def atleast_1d(self, x):
        A = as_sarr(x)
        return A if A.ndim >= 1 else A.reshape((1,))

    def atleast_2d(self, x):
        A = as_sarr(x)
        if A.ndim == 0:
            return A.reshape((1, 1))
        if A.ndim == 1:
            return A[None, :]
        return A

    def arange(self, *a, **kw):
        dtype = kw.get("dtype")
        if len(a) == 1:
            start, stop, step = 0, a[0], 1
        elif len(a) == 2:
            start, stop, step = a[0], a[1], kw.get("step", 1)
        else:
            start, stop, step = a[:3]
        ks = [lift(v)[0] for v in (start, stop, step)]
        if "f" in ks:
            ts, te, tt = [to_kind(lift(v)[1], lift(v)[0], "f") for v in (start, stop, step)]
            q = (te - ts) / tt
            n = -z3.ToInt(-q)
            n = zite(n > 0, n, z3.IntVal(0))
            used("numpy.arange(float): length = ceil((stop-start)/step) in real arithmetic")
            r = SArr([Ax((dim(n),))], Storage(lambda idx: (ts + z3.ToReal(idx[0][0]) * tt, None), "f"))
        else:
            rg = SRange(start if not isinstance(start, bool) else int(start), stop, step)
            if not isinstance(rg.n, int):
                from .solve import has_quant, mentions_special
                if mentions_special(zi(rg.n)) or has_quant(zi(rg.n)):     # a length given by a reduction may be a constant
                    ctx = CTX()
                    for c in (0, 1, 2):
                        if ctx.prover.valid(ctx.pc, zi(rg.n) == c, 1500):
                            rg.n = c
                            break
            r = rg.to_array()
        if dtype is not None:
            r = r._cast(kind_of_dtype(dtype))
        return r

    def linspace(self, start, stop, num=50, endpoint=True, dtype=None, **k):
        ts, te = [to_kind(lift(v)[1], lift(v)[0], "f") for v in (start, stop)]
        n = dim(num)
        if not (isinstance(n, int) and n >= 0) and not CTX().decide(zi(n) >= 0):
            raise ValueError("Number of samples must be non-negative.")
        den = z3.ToReal(zi(n) - 1) if endpoint else z3.ToReal(zi(n))
        used("numpy.linspace")
        unit = endpoint and all(lift(v)[0] == "i" and lift(v)[1] is not None for v in (start, stop)) and \
            CTX().prover.valid(CTX().pc, te - ts == den, 1500)

        def fn(idx):
            i = idx[0][0]
            if unit:       # integer end points exactly num - 1 apart
                return (ts + z3.ToReal(i), None)
            ci, cn = cint(i), cint(n)
            step = (te - ts) / den
            if ci == 0:
                return (ts, None)
            t = ts + z3.ToReal(i) * step
            if endpoint:
                t = zite(z3.simplify(i == zi(n) - 1), zite(zi(n) - 1 > 0, te, ts), t)
            return (t, None)
        return SArr([Ax((n,))], Storage(fn, "f"))

    def meshgrid(self, *xs, **kw):
        indexing = kw.get("indexing", "xy")
        A = [as_sarr(x).ravel() if as_sarr(x).ndim != 1 else as_sarr(x) for x in xs]
        axes = [a.axes[0] for a in A]
        order = list(range(len(A)))
        if indexing == "xy" and len(A) >= 2:
            order[0], order[1] = 1, 0
        oaxes = [axes[p] for p in order]
        outs = []
        for q, a in enumerate(A):
            rd = a.reader()
            pos = order.index(q)
            outs.append(SArr(oaxes, Storage(lambda idx, rd=rd, pos=pos: rd((idx[pos],)), a.kind)))
        return SList(outs)

    def indices(self, dims, **k):
        return mgrid_like(tuple(slice(0, d) for d in dims))

    def eye(self, n, m=None, **k):
        m = n if m is None else m
        return SArr([Ax((dim(n),)), Ax((dim(m),))], Storage(
            lambda idx: (zite(idx[0][0] == idx[1][0], z3.RealVal(1), z3.RealVal(0)), None), "f"))

    identity = eye

    # ------------------------------------------------------------ shape
    def ravel(self, x, **k):
        A = as_sarr(x)
        return A.ravel() if A.ndim != 1 else A

    def reshape(self, x, shape, **k):
        return as_sarr(x).reshape(shape)

    def transpose(self, x, axes=None):
        return as_sarr(x).transpose(*(axes or ()))

    def shape(self, x):
        if isinstance(x, CVal):
            return x.shape
        return as_sarr(x).shape

    def ndim(self, x):
        return as_sarr(x).ndim

    def size(self, x):
        if isinstance(x, CVal):
            return x.size
        return as_sarr(x).size

    def squeeze(self, x, axis=None):
        return as_sarr(x).squeeze(axis)

    def expand_dims(self, x, axis):
        A = as_sarr(x)
        axis = axis % (A.ndim + 1)
        return A[tuple([slice(None)] * axis + [None])]

    def flipud(self, x):
        return as_sarr(x)[::-1]

    def fliplr(self, x):
        return as_sarr(x)[:, ::-1]

    def flip(self, x, axis=None):
        A = as_sarr(x)
        ax = norm_axis(axis, A.ndim)
        return A[tuple(slice(None, None, -1) if p in ax else slice(None) for p in range(A.ndim))]

    def swapaxes(self, x, a, b):
        return as_sarr(x).swapaxes(a, b)

    def broadcast_to(self, x, shape):
        A = as_sarr(x)
        return ew("add", A, const_arr(_shape(shape), 0, "b") if A.kind == "b" else const_arr(_shape(shape), 0, A.kind))

    def repeat(self, x, n, axis=None):
        A = as_sarr(x)
        if axis is not None or isinstance(n, SArr):
            raise Unsupported("repeat axis")
        A = A.ravel() if A.ndim != 1 else A
        a = A.axes[0]
        if a.pred is not None:
            raise Unsupported("repeat of selection")
        rd = A.reader()
        L = len(a.dims)
        return SArr([Ax(a.dims + (dim(n),))], Storage(lambda idx: rd((idx[0][:L],)), A.kind))

    def tile(self, x, reps):
        A = as_sarr(x)
        if isinstance(reps, (list, tuple)):
            if A.ndim == 1 and len(reps) == 2:
                rd = A.reader()
                if isinstance(reps[1], int) and reps[1] == 1:
                    return SArr([Ax((dim(reps[0]),)), A.axes[0]], Storage(lambda idx: rd((idx[1],)), A.kind))
            if A.ndim == 2 and len(reps) == 2 and isinstance(reps[0], int) and reps[0] == 1:
                w = A.axes[1]
                if w.size == 1:
                    rd = A.reader()
                    return SArr([A.axes[0], Ax((dim(reps[1]),))],
                                Storage(lambda idx: rd((idx[0], (z3.IntVal(0),))), A.kind))
            raise Unsupported("tile reps")
        A = A.ravel() if A.ndim != 1 else A
        a = A.axes[0]
        if a.pred is not None:
            raise Unsupported("tile of selection")
        rd = A.reader()
        return SArr([Ax((dim(reps),) + a.dims)], Storage(lambda idx: rd((idx[0][1:],)), A.kind))

    def concatenate(self, xs, axis=0, **k):
        xs = [as_sarr(x) for x in list(xs)]
        nd = xs[0].ndim
        axis = axis % nd
        kind = kmax(*[x.kind for x in xs])
        offs, n = [], 0
        from .indexing import plainify
        xs = [plainify(x, axis) for x in xs]
        for x in xs:
            offs.append(n)
            n = dim(zi(n) + zi(x.axes[axis].size))
        for x in xs[1:]:
            for p in range(nd):
                if p != axis and not same_axis(xs[0].axes[p], x.axes[p]):
                    if not CTX().decide(zi(xs[0].axes[p].size) == zi(x.axes[p].size)):
                        raise ValueError("all the input array dimensions except for the concatenation axis must match")
        rds = [(x.kind, x.reader()) for x in xs]
        axes = list(xs[0].axes)
        axes[axis] = Ax((n,))

        def fn(idx):
            i = idx[axis][0]
            r = None
            for q in range(len(xs) - 1, -1, -1):
                li = list(idx)
                li[axis] = (z3.simplify(i - zi(offs[q])),)
                v = castp(rds[q][0], *rds[q][1](tuple(li)), kind)
                if r is None:
                    r = v
                else:
                    c = z3.simplify(i < zi(offs[q + 1]))
                    r = v if z3.is_true(c) else r if z3.is_false(c) else _ite2(c, v, r)
            return r
        return SArr(axes, Storage(fn, kind))

    def append(self, a, b, axis=None):
        A, Bv = as_sarr(a), as_sarr(b)
        if axis is None:
            A = A.ravel() if A.ndim != 1 else A
            Bv = Bv.ravel() if Bv.ndim != 1 else Bv
            axis = 0
        return self.concatenate([A, Bv], axis)

    def hstack(self, xs):
        xs = [self.atleast_1d(x) for x in xs]
        return self.concatenate(xs, 0 if xs[0].ndim == 1 else 1)

    def vstack(self, xs):
        if isinstance(xs, SSeq) or hasattr(xs, "_seq"):
            s = xs if isinstance(xs, SSeq) else xs._seq
            A = s.to_array()
            if A.ndim == 2:
                return A
            if A.ndim == 3 and A.axes[1].size == 1:
                return A[:, 0]
            raise Unsupported("vstack of symbolic sequence")
        return self.concatenate([self.atleast_2d(x) for x in xs], 0)

    def stack(self, xs, axis=0):
        if axis != 0:
            raise Unsupported("stack axis")
        return as_sarr(xs)

    def savetxt(self, f, X, **k):
        from . import text
        return text.savetxt(f, X, **k)

    def column_stack(self, xs):
        xs = [as_sarr(x) for x in xs]
        if all(x.ndim == 1 for x in xs):
            return stack_list(xs).T
        raise Unsupported("column_stack")

    def insert(self, a, pos, vals, axis=None):
        A = as_sarr(a)
        if axis is None:
            A = A.ravel() if A.ndim != 1 else A
            axis = 0
        pos = int(pos)
        V = as_sarr(vals)
        n = A.axes[axis].size
        if isinstance(n, int) and pos > n or not isinstance(n, int) and not CTX().decide(zi(n) >= pos):
            raise IndexError("index out of bounds")
        full = [slice(None)] * A.ndim
        pre, post = list(full), list(full)
        pre[axis], post[axis] = slice(None, pos), slice(pos, None)
        if A.ndim == 1:
            V = V.reshape((1,)) if V.ndim == 0 else V
        elif V.ndim == A.ndim - 1:
            key = list(full)
            key.insert(axis, None)
            V = V[tuple([slice(None)] * axis + [None])] if V.ndim >= axis else V
        A_ = A
        if A.kind != V.kind:
            V = V._cast(A.kind)
        if V.ndim == A.ndim:
            # conform other axes structure
            for p in range(A.ndim):
                if p != axis and len(V.axes[p].dims) != len(A.axes[p].dims):
                    # keep the finer component structure
                    if len(V.axes[p].dims) > len(A.axes[p].dims):
                        A_ = refine_axis(A_, p, V.axes[p])
                    else:
                        V = refine_axis(V, p, A_.axes[p])
        return self.concatenate([A_[tuple(pre)], V, A_[tuple(post)]], axis)

    # ------------------------------------------------------------ elementwise
    def _b(op):  # noqa
        def f(self, a, b, out=None, **k):
            r = binop(op, a, b) if not isinstance(a, (list, tuple)) and not isinstance(b, (list, tuple)) else ew(op, a, b)
            return _out(r, out)
        return f
    add, subtract, multiply, divide, true_divide = _b("add"), _b("sub"), _b("mul"), _b("div"), _b("div")
    floor_divide, mod, remainder, power = _b("fdiv"), _b("mod"), _b("mod"), _b("pow")
    maximum, minimum, fmax, fmin = _b("max"), _b("min"), _b("max"), _b("min")
    equal, not_equal, less, less_equal, greater, greater_equal = _b("eq"), _b("ne"), _b("lt"), _b("le"), _b("gt"), _b("ge")
    logical_and, logical_or, logical_xor = _b("land"), _b("lor"), _b("lxor")
    bitwise_and, bitwise_or = _b("and"), _b("or")
    hypot, arctan2 = _b("hypot"), _b("arctan2")

    def _u(op):  # noqa
        def f(self, a, out=None, **k):
            if isinstance(a, (list, tuple)):
                a = as_sarr(a)
            if isinstance(a, SArr) and a.ndim == 0:
                a = a.item()
            return _out(unop(op, a), out)
        return f
    sqrt, sin, cos, tan = _u("sqrt"), _u("sin"), _u("cos"), _u("tan")
    arcsin, arccos, arctan = _u("arcsin"), _u("arccos"), _u("arctan")
    exp, log, log2, log10 = _u("exp"), _u("log"), _u("log2"), _u("log10")
    abs = absolute = fabs = _u("abs")
    negative, sign, floor, ceil, square = _u("neg"), _u("sign"), _u("floor"), _u("ceil"), _u("square")
    logical_not, isnan, isfinite, invert, spacing = _u("lnot"), _u("isnan"), _u("isfinite"), _u("inv"), _u("spacing")
    nan_to_num = _u("nan_to_num")
    sinh, cosh, tanh = _u("sinh"), _u("cosh"), _u("tanh")

    def radians(self, x):
        return binop("div", binop("mul", x, self.pi), 180)

    deg2rad = radians

    def degrees(self, x):
        return binop("div", binop("mul", x, 180), self.pi)

    rad2deg = degrees

    def round(self, x, decimals=0, out=None):
        if not isinstance(decimals, int):
            raise Unsupported("numpy.round")
        x = as_sarr(x) if isinstance(x, (list, tuple)) else x
        if getattr(x, "kind", getattr(x, "k", None)) == "i" and decimals >= 0:
            return _out(x, out)
        sc = 10 ** abs(decimals)
        a, b = ("mul", "div") if decimals >= 0 else ("div", "mul")
        return _out(binop(b, unop("rint", binop(a, x, sc)), sc), out)

    around = round_ = round
    rint = _u("rint")

    def clip(self, x, lo, hi, **k):
        if lo is not None:
            x = self.maximum(x, lo)
        if hi is not None:
            x = self.minimum(x, hi)
        return x

    def where(self, c, *ab):
        if not ab:
            return self.nonzero(c)
        a, b = ab
        if is_c(a) or is_c(b):
            a, b = as_c(a), as_c(b)
            return CVal(self.where(c, a.re, b.re), self.where(c, a.im, b.im))
        k = kmax(as_sarr(a).kind, as_sarr(b).kind)

        def f(cv, av, bv):
            ct = truth(cv)
            ka, ta, na = lift(av)
            kb, tb, nb = lift(bv)
            t, n = _ite2(ct, castp(ka, ta, na, k), castp(kb, tb, nb, k))
            return SV(k, t, n)
        return ewn(f, [c, a, b], k)

    def nonzero(self, c):
        C = as_sarr(c)
        if C.ndim == 0:
            raise Unsupported("nonzero of scalar")
        rd, k = C.reader(), C.kind
        dims = [d for a in C.axes for d in a.dims]
        lens = [len(a.dims) for a in C.axes]

        def split(cc):
            out, p = [], 0
            for L in lens:
                out.append(tuple(cc[p:p + L]))
                p += L
            return tuple(out)
        caxes = C.axes

        def pred(cc):
            s = split(cc)
            g = zand(*[a.pred(x) for a, x in zip(caxes, s) if a.pred is not None])
            return zand(g, truth(SV(k, *rd(s))))
        if any(a.pred is not None for a in caxes):
            raise Unsupported("nonzero over a selection")
        ax = Ax(dims, pred)
        outs = []
        for p, a in enumerate(caxes):
            def fn(idx, p=p, a=a):
                s = split(idx[0])
                return (zi(flatten(s[p], a.dims)), None)
            outs.append(SArr([ax], Storage(fn, "i")))
        return tuple(outs)

    def argwhere(self, c):
        raise Unsupported("argwhere")

    def count_nonzero(self, c):
        return reduce_("sum", self.logical_not(self.logical_not(c)))

    def diff(self, x, n=1, axis=-1):
        A = as_sarr(x)
        axis = axis % A.ndim
        lo = tuple(slice(None, -1) if p == axis else slice(None) for p in range(A.ndim))
        hi = tuple(slice(1, None) if p == axis else slice(None) for p in range(A.ndim))
        return ew("ne" if A.kind == "b" else "sub", A[hi], A[lo])

    def diag(self, x, k=0):
        A = as_sarr(x)
        k = k if isinstance(k, int) else SV("i", zi(k))
        if A.ndim == 2:
            r, c = A.axes[0].size, A.axes[1].size
            kt = zi(k)
            n1 = zite(kt >= 0, zi(r), zi(r) + kt)
            n2 = zite(kt >= 0, zi(c) - kt, zi(c))
            n = zite(n1 <= n2, n1, n2)
            n = z3.simplify(zite(n >= 0, n, z3.IntVal(0)))
            rd = A.reader()

            def fn(idx):
                i = idx[0][0]
                return rd(((zite(kt >= 0, i, i - kt),), (zite(kt >= 0, i + kt, i),)))
            return SArr([Ax((dim(n),))], Storage(fn, A.kind))
        if cint(zi(k)) != 0:
            raise Unsupported("diag k")
        rd, kd = A.reader(), A.kind
        z = castp("i", z3.IntVal(0), None, kd)
        ax = A.axes[0]
        return SArr([ax, ax], Storage(lambda idx: _ite2(zand(*[p == q for p, q in zip(idx[0], idx[1])]), rd((idx[0],)), z), kd))

    def tril(self, x, k=0):
        A = as_sarr(x)
        rd, kd = A.reader(), A.kind
        z = castp("i", z3.IntVal(0), None, kd)
        return SArr(A.axes, Storage(lambda idx: _ite2(idx[1][0] <= idx[0][0] + zi(k), rd(idx), z), kd))

    def triu(self, x, k=0):
        A = as_sarr(x)
        rd, kd = A.reader(), A.kind
        z = castp("i", z3.IntVal(0), None, kd)
        return SArr(A.axes, Storage(lambda idx: _ite2(idx[1][0] >= idx[0][0] + zi(k), rd(idx), z), kd))

    # ------------------------------------------------------------ reductions
    def sum(self, x, axis=None, dtype=None, keepdims=False, **k):
        if isinstance(x, CVal):
            return x.sum(axis)
        return reduce_("sum", x, axis, keepdims)

    def mean(self, x, axis=None, keepdims=False, **k):
        return reduce_("mean", x, axis, keepdims)

    def average(self, x, axis=None, weights=None, **k):
        if weights is not None:
            return binop("div", reduce_("sum", binop("mul", x, weights), axis), reduce_("sum", weights, axis))
        return reduce_("mean", x, axis)

    def std(self, x, axis=None, keepdims=False, **k):
        return reduce_("std", x, axis, keepdims)

    def var(self, x, axis=None, keepdims=False, **k):
        return reduce_("var", x, axis, keepdims)

    def max(self, x, axis=None, **k):
        return reduce_("max", x, axis)

    def min(self, x, axis=None, **k):
        return reduce_("min", x, axis)

    amax, amin = max, min

    def ptp(self, x, axis=None):
        return binop("sub", reduce_("max", x, axis), reduce_("min", x, axis))

    def any(self, x, axis=None, **k):
        return reduce_("any", x, axis)

    def all(self, x, axis=None, **k):
        return reduce_("all", x, axis)

    def isin(self, x, vals, **k):
        V = as_sarr(vals)
        V = V.ravel() if V.ndim != 1 else V
        rd, ax, kv = V.reader(), V.axes[0], V.kind

        def f(v):
            return SV("b", make_any(ax.dims, ax.pred, lambda c: truth(binop("eq", v, SV(kv, *rd((c,)))))))
        return ewn(f, [x], "b")

    in1d = isin

    def nanmean(self, x, axis=None):
        return self._nanred("mean", x, axis)

    def nanstd(self, x, axis=None):
        return self._nanred("std", x, axis)

    def nansum(self, x, axis=None):
        return self._nanred("sum", x, axis)

    def nanmax(self, x, axis=None):
        return self._nanred("max", x, axis)

    def nanmin(self, x, axis=None):
        return self._nanred("min", x, axis)

    def _nanred(self, op, x, axis):
        A = as_sarr(x)
        if A.kind != "f":
            return reduce_(op, A, axis)
        if axis is not None and A.ndim > 1:
            raise Unsupported("nan-reduction along an axis")
        return reduce_(op, A[self.logical_not(self.isnan(A))], None)

    def cumsum(self, x, axis=None, **k):
        A = as_sarr(x)
        if axis is None:
            A = A.ravel() if A.ndim != 1 else A
            axis = 0
        axis = axis % A.ndim
        ax = A.axes[axis]
        if ax.pred is not None:
            raise Unsupported("cumsum of selection")
        rd, kd = A.reader(), A.kind
        ko = "i" if kd == "b" else kd

        probe = tuple(x.fresh("cs") for x in A.axes)
        body0 = to_kind(rd(probe)[0], kd, ko)
        pf = [c for x in probe for c in x]
        from .loops import const_terms
        own = {str(c) for c in pf}
        ext = [c for c in const_terms([body0]) if "!" in c.decl().name() and str(c) not in own]
        CS = z3.Function(fresh_name("cumsum"), *([I] * len(pf) + [c.sort() for c in ext] + [sort_of(ko)]))
        off = sum(len(x.dims) for x in A.axes[:axis])
        nd = len(ax.dims)

        def axiom(app, others):
            args = [app.arg(i) for i in range(app.num_args())]
            here = z3.substitute(body0, *list(zip(pf + ext, args)))
            me = args[off:off + nd]
            # lexicographic predecessor
            prev = list(me)
            borrow = TRUE
            for p in range(nd - 1, -1, -1):
                last = zi(ax.dims[p]) - 1 if p else me[p] - 1
                nb = zand(borrow, z3.simplify(me[p] == 0)) if p else borrow
                if p:
                    prev[p] = zite(borrow, zite(z3.simplify(me[p] == 0), last, me[p] - 1), me[p])
                else:
                    prev[p] = zite(borrow, me[p] - 1, me[p])
                borrow = nb
            first = zand(*[z3.simplify(m == 0) for m in me])
            pa = list(args)
            pa[off:off + nd] = [z3.simplify(x) for x in prev]
            if z3.is_true(first):
                return [app == here]
            if z3.is_false(first):
                return [app == CS(*pa) + here]
            return [app == zite(first, here, CS(*pa) + here)]
        DYN_AX[CS.name()] = axiom

        def fn(idx):
            return (CS(*([c for x in idx for c in x] + ext)), None)
        return SArr(A.axes, Storage(fn, ko))

    def prod(self, x, axis=None, **k):
        if isinstance(x, (tuple, list)):
            r = 1
            for v in x:
                r = binop("mul", r, v) if isinstance(r, SV) or isinstance(v, SV) else r * v
            return r
        A = as_sarr(x)
        if A.ndim == 1 and isinstance(A.axes[0].size, int):
            r = SV(A.kind if A.kind != "b" else "i", to_kind(z3.IntVal(1), "i", A.kind if A.kind != "b" else "i"))
            for v in list(A):
                r = binop("mul", r, v)
            return r
        raise Unsupported("prod")

    def argmax(self, x, axis=None):
        return self._argext(x, axis, "MAX")

    def argmin(self, x, axis=None):
        return self._argext(x, axis, "MIN")

    def _argext(self, x, axis, which):
        A = as_sarr(x)
        if axis is not None and A.ndim > 1:
            raise Unsupported("argmax axis")
        A = A.ravel() if A.ndim != 1 else A
        ax = A.axes[0]
        if not ax.plain():
            raise Unsupported("argmax of compound axis")
        n = ax.size
        if not (isinstance(n, int) and n > 0) and not CTX().decide(zi(n) > 0):
            raise ValueError("attempt to get argmax of an empty sequence")
        rd = A.reader()
        j = FInt("arg")
        q = FInt("q")
        v, w = rd(((j,),))[0], rd(((q,),))[0]
        CTX().assume(zand(j >= 0, j < zi(n)))
        better = (w <= v) if which == "MAX" else (w >= v)
        strict = (w < v) if which == "MAX" else (w > v)
        CTX().assume(z3.ForAll([q], zimp(zand(q >= 0, q < zi(n)), zand(better, zimp(q < j, strict)))))
        used("numpy.argmax/argmin: first extremal index")
        return SV("i", j)

    # ------------------------------------------------------------ search / binning
    def digitize(self, x, bins, right=False):
        Bn = as_sarr(bins)
        X = as_sarr(x)
        D = bin_fn(Bn, right)
        kx = X.kind
        return ewn(lambda v: SV("i", D(to_kind(v.t, kx, "f"))), [X], "i")

    def searchsorted(self, a, v, side="left", **k):
        Bn = as_sarr(a)
        # searchsorted(left): a[i-1] < v <= a[i]  == digitize(right=True)
        D = bin_fn(Bn, side == "left", name="searchsorted")
        V = as_sarr(v)
        kv = V.kind
        return ewn(lambda x: SV("i", D(to_kind(x.t, kv, "f"))), [V], "i")

    def histogram(self, a, bins=10, range=None, weights=None, density=None):
        if range is not None:
            raise Unsupported("histogram range")
        if density:
            n, E = self.histogram(a, bins, None, weights)
            tot = n.sum()
            r = n / (E[1:] - E[:-1]) / tot
            rd, empty = r.reader(), lift(tot)[1] == 0       # no sample in any bin: 0/0 everywhere

            def fn(idx):
                t, nan = rd(idx)
                return t, empty if nan is None else zor(nan, empty)
            return SArr(r.axes, Storage(fn, "f")), E
        used("numpy.histogram: count/weight sum per half-open bin, last bin closed")
        A = as_sarr(a)
        A = A.ravel() if A.ndim != 1 else A
        E = as_sarr(bins)
        if E.ndim == 0:
            raise Unsupported("histogram with bin count")
        W = None
        if weights is not None:
            W = as_sarr(weights)
            W = W.ravel() if W.ndim != 1 else W
            ax, ma, mw = broadcast_axes(A.axes, W.axes)
            ax = ax[0]
        else:
            ax, ma, mw = A.axes[0], [None], None
        nb = dim(zi(E.axes[0].size) - 1)
        need_sorted(E)
        er, ke = E.reader(), E.kind
        rd, ka = A.reader(), A.kind
        wr, kw = (W.reader(), W.kind) if W is not None else (None, None)
        ko = "i" if W is None else ("i" if kw in "bi" else "f")

        def inbin(x, b):
            lo = to_kind(er(((b,),))[0], ke, "f")
            hi = to_kind(er(((z3.simplify(b + 1),),))[0], ke, "f")
            last = b == zi(nb) - 1
            return zand(lo <= x, zor(x < hi, zand(last, x <= hi)))

        def fn(idx):
            b = idx[0][0]

            def body(c):
                xt, xn = rd(mapidx((c,), ma, 1))
                g = inbin(to_kind(xt, ka, "f"), b)
                if xn is not None:
                    g = zand(znot(xn), g)
                if wr is None:
                    return zite(g, z3.IntVal(1), z3.IntVal(0))
                wv = to_kind(wr(mapidx((c,), mw, 1))[0], kw, ko)
                return zite(g, wv, to_kind(z3.IntVal(0), "i", ko))
            nan = None
            if wr is not None:
                pr = wr(mapidx((ax.fresh("pr"),), mw, 1))[1]
                if pr is not None:
                    nan = make_any(ax.dims, ax.pred, lambda c: zand(
                        inbin(to_kind(rd(mapidx((c,), ma, 1))[0], ka, "f"), b), wr(mapidx((c,), mw, 1))[1]))
            return (make_sum(ko, ax.dims, ax.pred, body), nan)
        return SArr([Ax((nb,))], Storage(fn, ko)), E

    def bincount(self, x, weights=None, minlength=0):
        A = as_sarr(x)
        if A.ndim != 1:
            raise ValueError("object too deep for desired array")
        if A.kind == "f":
            raise TypeError("Cannot cast array data from dtype('float64') to dtype('int64') according to the rule 'safe'")
        used("numpy.bincount")
        ax = A.axes[0]
        rd, ka = A.reader(), A.kind
        c0 = ax.fresh("bc")
        t0 = to_kind(rd((c0,))[0], ka, "i")
        if not CTX().valid(zimp(ax.inrange(c0), t0 >= 0)):
            if not CTX().decide(make_any(ax.dims, ax.pred, lambda c: to_kind(rd((c,))[0], ka, "i") >= 0, every=True)):
                raise ValueError("'list' argument must have no negative elements")
        m = make_ext("MAX", "i", ax.dims, ax.pred, lambda c: to_kind(rd((c,))[0], ka, "i"))
        nonempty = make_any(ax.dims, ax.pred, lambda c: TRUE)
        CTX().assume(zimp(nonempty, m >= 0))
        n = zite(nonempty, m + 1, z3.IntVal(0))
        ml = zi(minlength)
        n = zite(n >= ml, n, ml) if cint(ml) != 0 else n
        if CTX().valid(nonempty) and cint(ml) == 0:
            n = m + 1
        wr = mw = kw = None
        if weights is not None:
            W = as_sarr(weights)
            if W.ndim != 1:
                raise ValueError("object too deep for desired array")
            axs, ma, mw = broadcast_axes(A.axes, W.axes)
            wr, kw = W.reader(), W.kind

        def fn(idx):
            b = idx[0][0]

            def body(c):
                g = flat_eq(to_kind(rd((c,))[0], ka, "i"), b, ax.inrange(c))
                if wr is None:
                    return zite(g, z3.IntVal(1), z3.IntVal(0))
                return zite(g, to_kind(wr(mapidx((c,), mw, 1))[0], kw, "f"), z3.RealVal(0))
            nan = None
            if wr is not None:
                pr = wr(mapidx((ax.fresh("pr"),), mw, 1))[1]
                if pr is not None:
                    nan = make_any(ax.dims, ax.pred, lambda c: zand(to_kind(rd((c,))[0], ka, "i") == b, wr(mapidx((c,), mw, 1))[1]))
            return (make_sum("i" if wr is None else "f", ax.dims, ax.pred, body), nan)
        return SArr([Ax((dim(n),))], Storage(fn, "i" if wr is None else "f"))

    def unique(self, x, **k):
        if any(k.values()):
            raise Unsupported("unique options")
        A = as_sarr(x)
        used("numpy.unique: strictly increasing list of exactly the occurring values")
        for B, fn, U in CTX().ghost.get("unique", ()):
            if A.st is B.st and A.st.fn is fn and A.axes == B.axes and A.vmap is B.vmap:
                return U.copy()
        dims = [d for a in A.axes for d in a.dims]
        lens = [len(a.dims) for a in A.axes]
        preds = [(i, a) for i, a in enumerate(A.axes) if a.pred is not None]

        def split(cc):
            out, p = [], 0
            for L in lens:
                out.append(tuple(cc[p:p + L]))
                p += L
            return tuple(out)

        def pred(cc):
            s = split(cc)
            return zand(*[a.pred(s[i]) for i, a in preds])
        rd, kd = A.reader(), A.kind
        s = sort_of(kd)
        U = z3.Function(fresh_name("uniq"), I, s)
        n = FInt("nuniq")
        ctx = CTX()
        ctx.assume(n >= 0)
        # positions of witnesses and inverse
        wit = [z3.Function(fresh_name("uwit"), I, I) for _ in dims]
        inv = z3.Function(fresh_name("uinv"), s, I)
        i = FInt("u")
        j = FInt("u")
        w = tuple(f(i) for f in wit)
        ctx.assume(z3.ForAll([i], zimp(zand(i >= 0, i < n), zand(rng(w, dims), pred(w), rd(split(w))[0] == U(i)))))
        ctx.assume(z3.ForAll([i, j], zimp(zand(i >= 0, i < j, j < n), U(i) < U(j))))
        vs = [FInt("u") for _ in dims]
        val = rd(split(tuple(vs)))[0]
        ctx.assume(z3.ForAll(vs, zimp(zand(rng(vs, dims), pred(tuple(vs))),
                                      zand(inv(val) >= 0, inv(val) < n, U(inv(val)) == val))))
        return SArr([Ax((n,))], Storage(lambda idx: (U(idx[0][0]), None), kd))

    def interp(self, x, xp, fp, left=None, right=None):
        used("numpy.interp")
        X, XP, FP = as_sarr(x), as_sarr(xp), as_sarr(fp)
        need_sorted(XP)
        n = XP.axes[0].size
        xr, kx = XP.reader(), XP.kind
        fr, kf = FP.reader(), FP.kind
        D = bin_fn(XP, False)

        def at(rd, k, i):
            return to_kind(rd(((i,),))[0], k, "f")
        zn = zi(n)

        def f(v):
            t = to_kind(v.t, X.kind, "f")
            d = D(t)
            lo, hi = d - 1, d
            x0, x1, y0, y1 = at(xr, kx, lo), at(xr, kx, hi), at(fr, kf, lo), at(fr, kf, hi)
            mid = y0 + (t - x0) * ((y1 - y0) / (x1 - x0))
            L = at(fr, kf, z3.IntVal(0)) if left is None else to_kind(lift(left)[1], lift(left)[0], "f")
            Rr = at(fr, kf, z3.simplify(zn - 1)) if right is None else to_kind(lift(right)[1], lift(right)[0], "f")
            last = at(xr, kx, z3.simplify(zn - 1))
            r = zite(t < at(xr, kx, z3.IntVal(0)), L, zite(t > last, Rr, zite(t == last, at(fr, kf, z3.simplify(zn - 1)), mid)))
            return SV("f", r)
        return ewn(f, [X], "f")

    def gradient(self, *a, **k):
        raise Unsupported("gradient")

    # ------------------------------------------------------------ linear algebra
    def dot(self, a, b):
        A, Bv = as_sarr(a), as_sarr(b)
        if A.ndim == 0 or Bv.ndim == 0:
            return ew("mul", A, Bv)
        la, lb = A.axes[-1], Bv.axes[-2] if Bv.ndim >= 2 else Bv.axes[-1]
        if not same_axis(la, lb):
            if not CTX().decide(zi(la.size) == zi(lb.size)):
                raise ValueError("shapes not aligned")
        ra, rb, ka, kb = A.reader(), Bv.reader(), A.kind, Bv.kind
        k = kmax(ka, kb)
        na = A.ndim - 1
        baxes = list(Bv.axes[:-2]) + ([Bv.axes[-1]] if Bv.ndim >= 2 else [])

        def fn(idx):
            ia, ib = tuple(idx[:na]), tuple(idx[na:])

            def body(c):
                x = to_kind(ra(ia + (c,))[0], ka, k)
                cb = conv_index(c, la, lb)
                y = to_kind(rb(ib[:-1] + (cb,) + ib[-1:] if Bv.ndim >= 2 else (cb,))[0], kb, k)
                return x * y
            return (make_sum(k, la.dims, la.pred, body), None)
        axes = list(A.axes[:-1]) + baxes
        if not axes:
            return SV(k, fn(())[0])
        return SArr(axes, Storage(fn, k))

    matmul = dot

    def correlate(self, *a, **k):
        raise Unsupported("correlate")

    def isclose(self, *a, **k):
        raise Unsupported("isclose")

    allclose = isclose

    def iscomplexobj(self, x):
        return False

    def isscalar(self, x):
        return isinstance(x, (SV, int, float))

    def dtype(self, x):
        return DTYPES[kind_of_dtype(x)]

    def deg(self, x):
        return x

    def argsort(self, x, axis=-1, kind=None):
        """assumed contract: a permutation (with inverse) along which the values ascend"""
        used("numpy.argsort: permutation putting the values in ascending order")
        if isinstance(x, (list, tuple)) and not hasattr(x, "_seq") and all(isinstance(v, (int, float)) for v in x):
            if kind not in ("mergesort", "stable") and len(set(x)) != len(x):
                raise Unsupported("argsort of equal values")
            return self.array(sorted(range(len(x)), key=lambda k: x[k]))
        A = as_sarr(x)
        if A.ndim != 1 or not A.axes[0].plain():
            raise Unsupported("argsort of this array")
        if isinstance(A.axes[0].size, int) and A.axes[0].size <= 4:
            return self.array(self._order(A))
        n, rd = zi(A.axes[0].size), A.reader()
        perm, inv = z3.Function(fresh_name("perm"), I, I), z3.Function(fresh_name("iperm"), I, I)
        q, q2 = FInt("q"), FInt("q")
        c = CTX()
        inr = lambda t: zand(t >= 0, t < n)  # noqa
        c.assume(z3.ForAll([q], zimp(inr(q), zand(inr(perm(q)), inv(perm(q)) == q))))
        c.assume(z3.ForAll([q], zimp(inr(q), zand(inr(inv(q)), perm(inv(q)) == q))))
        c.assume(z3.ForAll([q, q2], zimp(zand(q >= 0, q <= q2, q2 < n), rd(((perm(q),),))[0] <= rd(((perm(q2),),))[0])))
        c.ghost["iperm"] = inv
        return SArr([Ax((A.axes[0].dims[0],))], Storage(lambda idx: (perm(idx[0][0]), None), "i"))

    def _order(self, A, ties=True):
        """sorting permutation of a short array, by case distinction (equal values in either order)"""
        vals = [A[k] for k in range(A.axes[0].size)]
        out = []
        for k, v in enumerate(vals):
            q = len(out)
            while q > 0:
                w = vals[out[q - 1]]
                if CTX().decide(truth(binop("lt", w, v))):
                    break
                if not CTX().decide(truth(binop("lt", v, w))) and not (ties and CTX().decide(z3.Bool(fresh_name("tie")))):
                    break
                q -= 1
            out.insert(q, k)
        return out

    def sort(self, x, axis=-1, **k):
        A = as_sarr(x)
        if A.ndim != 1 or not A.axes[0].plain() or not isinstance(A.axes[0].size, int) or A.axes[0].size > 4:
            raise Unsupported("sort of this array")
        return self.array([A[k] for k in self._order(A, False)])

    def polyval(self, p, x):
        r = SV("f", z3.RealVal(0))
        P = as_sarr(p)
        n = P.axes[0].size
        if P.ndim != 1 or not isinstance(n, int):
            raise Unsupported("polyval of symbolic degree")
        for k in range(n):
            r = binop("add", binop("mul", r, x), P[k])
        return r

    class linalg(metaclass=_Partial):
        @staticmethod
        def lstsq(a, b, rcond=None):
            """assumed contract: the solution satisfies the normal equations"""
            used("numpy.linalg.lstsq: solution of the normal equations")
            A, B_ = as_sarr(a), as_sarr(b)
            m = A.axes[1].size
            if A.ndim != 2 or B_.ndim != 1 or not isinstance(m, int):
                raise Unsupported("lstsq of this shape")
            beta = [z3.Real(fresh_name("beta")) for _ in range(m)]
            ra, rb, ka, kb, ax = A.reader(), B_.reader(), A.kind, B_.kind, A.axes[0]
            bx = B_.axes[0]

            def el(c, k):
                return to_kind(ra((c, (z3.IntVal(k),)))[0], ka, "f")
            for k in range(m):
                def body(c, k=k):
                    e = -to_kind(rb((conv_index(c, ax, bx),))[0], kb, "f")
                    for d in range(m):
                        e = e + el(c, d) * beta[d]
                    return el(c, k) * e
                CTX().assume(make_sum("f", ax.dims, ax.pred, body) == 0)
            CTX().ghost["lstsq"] = [SV("f", b_) for b_ in beta]
            sol = SArr([Ax((m,))], Storage(lambda idx: (const_sel(beta, idx[0][0]), None), "f"))
            return sol, NotModelled("lstsq residuals"), m, NotModelled("lstsq singular values")

        @staticmethod
        def norm(x, axis=None, ord=None, keepdims=False):
            if ord is not None:
                raise Unsupported("norm ord")
            if isinstance(x, CVal):
                return unop("sqrt", reduce_("sum", binop("add", binop("mul", x.re, x.re), binop("mul", x.im, x.im)), axis))
            A = as_sarr(x)
            A = A._cast("f") if A.kind != "f" else A
            return unop("sqrt", reduce_("sum", ew("mul", A, A), axis))

        @staticmethod
        def inv(x):
            used("numpy.linalg.inv: uninterpreted inverse")
            A = as_sarr(x)
            rd = A.reader()
            n = A.axes[0].size
            if not isinstance(n, int):
                raise Unsupported("inv of symbolic size")
            args = [to_kind(rd(((z3.IntVal(i),), (z3.IntVal(j),)))[0], A.kind, "f") for i in range(n) for j in range(n)]
            fs = z3.Function("inv%d" % n, *([R] * (n * n) + [I, I, R]))
            return SArr(A.axes, Storage(lambda idx: (fs(*(args + [idx[0][0], idx[1][0]])), None), "f"))


del NP._b, NP._u
np = NP()


def kind_or(k, dtype):
    return {"b": bool, "i": int, "f": float}[k] if dtype is None else dtype


def refine_axis(A, p, ax):
    """give plain axis p the component structure of ax (same size)"""
    if not deq(A.axes[p].size, ax.size):
        if not CTX().decide(zi(A.axes[p].size) == zi(ax.size)):
            raise ValueError("could not broadcast")
    axes = list(A.axes)
    old = axes[p]
    axes[p] = ax

    def fwd(v):
        v = list(v)
        v[p] = conv_index(v[p], ax, old)
        return tuple(v)
    return A._view(axes, fwd, None)


def _out(r, out):
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
        if out is None:
            return r
    R_ = as_sarr(r)
    check_same_axes(out.axes, R_.axes)
    f = value_reader(R_, out.axes, out.kind)
    if out.kind == "i" and R_.kind == "f" or out.kind == "b" and R_.kind != "b":
        raise TypeError("Cannot cast ufunc output with casting rule 'same_kind'")
    out.write(f)
    return out


def sorted_fact(E, strict=False):
    rd, k = E.reader(), E.kind
    n = E.axes[0].size
    i, j = FInt("so"), FInt("so")
    a, b = rd(((i,),))[0], rd(((j,),))[0]
    return i, j, zimp(zand(i >= 0, i <= j, j < zi(n)), a <= b)


def need_sorted(E, strict_exc=True):
    """bins must be monotonically increasing (numpy raises ValueError otherwise).
    Adjacent order implies global order (induction lemma)."""
    ax = E.axes[0]
    if not ax.plain():
        raise Unsupported("bin edges on a compound axis")
    i, j, f = sorted_fact(E)
    if CTX().valid(f):
        return True
    rd, k, n = E.reader(), E.kind, ax.size
    u = FInt("so")
    adj = zimp(zand(u >= 0, u + 1 < zi(n)), rd(((u,),))[0] <= rd(((u + 1,),))[0])
    if CTX().valid(adj):
        CTX().assume(z3.ForAll([i, j], f))
        return True
    if not strict_exc:
        raise Unsupported("data not known to be sorted")
    if not CTX().decide(z3.ForAll([u], adj)):
        raise ValueError("bins must increase monotonically")
    CTX().assume(z3.ForAll([i, j], f))
    return True


_BINFN = {}


def _addends(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ADD:
        return [y for x in t.children() for y in _addends(x)]
    return [t]


def _factors(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL:
        return [y for x in t.children() for y in _factors(x)]
    return [t]


def _quot(t, n):
    """(q, r) with t == q*n + r read off the products with the factor n; None without such a product"""
    q, r = [], []
    for a in _addends(t):
        fs = _factors(a)
        hit = [k for k, f in enumerate(fs) if f.eq(n)]
        if hit:
            p = z3.IntVal(1)
            for k, f in enumerate(fs):
                if k != hit[0]:
                    p = p * f
            q.append(p)
        else:
            r.append(a)
    if not q:
        return None
    return z3.simplify(z3.Sum(q)), z3.simplify(z3.Sum(r)) if r else z3.IntVal(0)


def flat_eq(x, y, hyp):
    """x == y for two flattened indices q*n + r with remainders in range: equal component by component"""
    x1, y1 = z3.simplify(x), z3.simplify(y)
    cand = [f for a in _addends(y1) for f in _factors(a) if not z3.is_int_value(f)]
    for n in cand:
        if len(_factors(n)) > 1:
            continue
        a, b = _quot(x1, n), _quot(y1, n)
        if a is None or b is None:
            continue
        c = CTX()
        if c.valid(zimp(hyp, zand(a[1] >= 0, a[1] < n, b[1] >= 0, b[1] < n)), 2000):
            return zand(a[0] == b[0], a[1] == b[1])
    return x == y


def bin_fn(E, right, name="digitize"):
    """index function of digitize: D(x) with E[D-1] <= x < E[D]
    (right: E[D-1] < x <= E[D])"""
    used("numpy.%s" % name)
    ax = E.axes[0]
    if not ax.plain():
        if ax.pred is not None:
            raise Unsupported("digitize on selection")
        E = __import__("pyvc.indexing", fromlist=["plainify"]).plainify(E, 0)
        ax = E.axes[0]
    if name == "digitize":
        need_sorted(E)
    else:
        need_sorted(E, False)
    rd, k, n = E.reader(), E.kind, ax.size
    probe = z3.Int("binprobe")
    sig = (rd(((probe,),))[0].get_id(), str(n), right)
    if sig in _BINFN:
        return _BINFN[sig][0]
    D = z3.Function(fresh_name("digitize"), R, I)
    zn = zi(n)

    def e(i):
        return to_kind(rd(((i,),))[0], k, "f")

    def axiom(app, others):
        x = app.arg(0)
        d = app
        lo = (e(z3.simplify(d - 1)) < x) if right else (e(z3.simplify(d - 1)) <= x)
        hi = (x <= e(d)) if right else (x < e(d))
        out = [d >= 0, d <= zn, z3.Implies(d > 0, lo), z3.Implies(d < zn, hi)]
        return out
    DYN_AX[D.name()] = axiom
    _BINFN[sig] = (D, rd(((probe,),))[0])
    return D
