"""Symbolic n-d arrays (the assumed numpy container semantics).

An axis is a tuple of component dimensions plus an optional filter predicate:
  plain axis      dims=(n,)          index (i,)
  raveled axes    dims=(r, c)        index (i, j)   (flat index i*c+j)
  mask selection  dims=(r, c), pred  index (i, j) restricted to pred(i, j)
so that flattening and boolean selection never need div/mod reasoning.
"""
import z3

from .core import (CTX, FALSE, SV, TRUE, FInt, I, Unsupported, cast, is_py, kmax, lift, real_of, scalar_op,
                   scalar_un, sort_of, sort_zero, to_kind, truth, uf, unop, zand, zimp, zite, znot, zor, _oid, zb,
                   nan_or, fresh_name, trunc, binop)
from .solve import extfun, sumfun


# ---------------------------------------------------------------- dims
def zi(x):
    """index-like -> z3 Int"""
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SV):
        if x.k == "i":
            return x.t
        if x.k == "b":
            return to_kind(x.t, "b", "i")
        raise TypeError("only integer scalars can be used as an index")
    if isinstance(x, z3.ExprRef):
        return x
    if hasattr(x, "item"):
        return zi(x.item())
    raise TypeError("bad index %r" % (x,))


def cint(t):
    """z3 Int / int -> python int if constant else None"""
    if isinstance(t, int):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return None


def dim(x):
    """normalise dimension to python int or z3 term"""
    if isinstance(x, SV):
        if x.k == "f":
            raise TypeError("'float' object cannot be interpreted as an integer")
        x = zi(x)
    c = cint(x) if isinstance(x, (int, z3.ExprRef)) else int(x)
    return c if c is not None else z3.simplify(x) if z3.is_app(x) and x.num_args() else x


def dimv(d):
    return d if isinstance(d, int) else SV("i", d, py=True)


def deq(a, b):
    """provable equality of two dims"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    a, b = zi(a), zi(b)
    if a.eq(b):
        return True
    d = z3.simplify(a - b)
    if z3.is_int_value(d):
        return d.as_long() == 0
    return CTX().valid(a == b)


def dmul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    return dim(zi(a) * zi(b))


class Ax:
    __slots__ = ("dims", "pred", "_size")

    def __init__(self, dims, pred=None):
        self.dims = tuple(dims)
        self.pred = pred
        self._size = None

    @property
    def size(self):
        if self._size is None:
            if self.pred is None:
                s = 1
                for d in self.dims:
                    s = dmul(s, d)
                self._size = s
            else:
                p = self.pred
                self._size = dim(make_sum("i", self.dims, None, lambda c: zite(p(c), z3.IntVal(1), z3.IntVal(0))))
        return self._size

    def plain(self):
        return self.pred is None and len(self.dims) == 1

    def fresh(self, p="i"):
        return tuple(FInt(p) for _ in self.dims)

    def inrange(self, c):
        r = []
        for x, d in zip(c, self.dims):
            r += [zi(x) >= 0, zi(x) < zi(d)]
        if self.pred is not None:
            r.append(self.pred(c))
        return zand(*r)


def rng(c, dims):
    r = []
    for x, d in zip(c, dims):
        r += [x >= 0, x < zi(d)]
    return zand(*r)


def flatten(comp, dims):
    r = comp[0]
    for c, d in zip(comp[1:], dims[1:]):
        r = zi(r) * zi(d) + zi(c)
    return r


def prod_dims(ds):
    s = 1
    for d in ds:
        s = dmul(s, d)
    return s


def unflatten(k, dims):
    """flat z3 index -> components, 0<=k<prod assumed"""
    if len(dims) == 1:
        return (k,)
    out = []
    rest = k
    for d in reversed(dims[1:]):
        dd = cint(d)
        if dd == 1:
            out.append(z3.IntVal(0))
            continue
        if dd is not None:
            out.append(rest % zi(d))
            rest = rest / zi(d)
            continue
        m = _linear_split(rest, d)
        if m is not None:
            q, r = m
        else:
            q, r = rest / zi(d), rest % zi(d)
        out.append(r)
        rest = q
    out.append(rest)
    return tuple(reversed(out))


def _linear_split(k, d):
    """k == q*d + r syntactically with provable 0<=r<d"""
    kt = z3.simplify(k, som=True)
    terms = kt.children() if z3.is_app(kt) and kt.decl().kind() == z3.Z3_OP_ADD else [kt]
    q, r = [], []
    for t in terms:
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL:
            fs = list(t.children())
            hit = [i for i, f in enumerate(fs) if f.eq(zi(d))]
            if hit:
                fs.pop(hit[0])
                x = fs[0] if fs else z3.IntVal(1)
                for f in fs[1:]:
                    x = x * f
                q.append(x)
                continue
        if t.eq(zi(d)):
            q.append(z3.IntVal(1))
            continue
        r.append(t)
    if not q:
        return None
    qq = q[0]
    for x in q[1:]:
        qq = qq + x
    rr = z3.IntVal(0) if not r else r[0]
    for x in r[1:]:
        rr = rr + x
    if CTX().valid(zand(rr >= 0, rr < zi(d))):
        return qq, rr
    return None


# ---------------------------------------------------------------- sums
EXPAND = 40


def make_sum(kind, dims, pred, body):
    """sum over component box dims of body(comps) (z3 term of kind i/f)"""
    zero = sort_zero(kind)
    cd = [cint(d) for d in dims]
    if all(c is not None for c in cd):
        tot = 1
        for c in cd:
            tot *= c
        if tot <= EXPAND:
            import itertools
            r = zero
            first = True
            for ix in itertools.product(*[range(c) for c in cd]):
                ix = tuple(z3.IntVal(i) for i in ix)
                v = body(ix)
                if pred is not None:
                    v = zite(pred(ix), v, zero)
                r = v if first else r + v
                first = False
            return r
    vs = [FInt("v") for _ in dims]
    g = rng(vs, dims)
    if pred is not None:
        g = zand(g, pred(tuple(vs)))
    b = body(tuple(vs))
    if (z3.is_int_value(b) or z3.is_rational_value(b)) and str(b) == "0":
        return zero
    if pred is None and not _mentions(b, vs):
        n = zi(prod_dims([zite(zi(d) > 0, zi(d), z3.IntVal(0)) if cint(d) is None else d for d in dims]))
        return (z3.ToReal(n) if kind == "f" else n) * b
    return sumfun(kind, len(vs))(z3.Lambda(vs, z3.If(g, b, zero)))


def _mentions(e, vs):
    ids = {v.get_id() for v in vs}
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() in ids:
            return True
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st += x.children()
    return False


def make_ext(which, kind, dims, pred, body):
    cd = [cint(d) for d in dims]
    if pred is None and all(c is not None for c in cd):
        import itertools
        tot = 1
        for c in cd:
            tot *= c
        if 0 < tot <= EXPAND:
            r = None
            for ix in itertools.product(*[range(c) for c in cd]):
                v = body(tuple(z3.IntVal(i) for i in ix))
                r = v if r is None else zite(r >= v if which == "MAX" else r <= v, r, v)
            return r
    vs = [FInt("v") for _ in dims]
    g = rng(vs, dims)
    if pred is not None:
        g = zand(g, pred(tuple(vs)))
    return extfun(which, kind, len(vs))(z3.Lambda(vs, g), z3.Lambda(vs, body(tuple(vs))))


def make_any(dims, pred, body, every=False):
    cd = [cint(d) for d in dims]
    if all(c is not None for c in cd):
        import itertools
        tot = 1
        for c in cd:
            tot *= c
        if tot <= EXPAND:
            rs = []
            for ix in itertools.product(*[range(c) for c in cd]):
                ix = tuple(z3.IntVal(i) for i in ix)
                v = body(ix)
                if pred is not None:
                    v = zimp(pred(ix), v) if every else zand(pred(ix), v)
                rs.append(v)
            return zand(*rs) if every else zor(*rs)
    vs = [FInt("v") for _ in dims]
    g = rng(vs, dims)
    if pred is not None:
        g = zand(g, pred(tuple(vs)))
    b = body(tuple(vs))
    if z3.is_false(b) and not every:
        return FALSE
    if z3.is_true(b) and every:
        return TRUE
    if z3.is_true(b) and pred is None:
        return zand(*[zi(d) >= 1 for d in dims])
    return z3.ForAll(vs, zimp(g, b)) if every else z3.Exists(vs, zand(g, b))


ROOT = {}   # storage oid -> axes of the array that owns it


# ---------------------------------------------------------------- storage
class Storage:
    __slots__ = ("fn", "kind", "memo", "oid", "name", "__weakref__")

    def __init__(self, fn, kind, name=None):
        self.fn, self.kind = fn, kind
        self.memo = {}
        self.oid = next(_oid)
        self.name = name

    def reader(self):
        fn, memo = self.fn, self.memo

        def rd(idx):
            key = tuple(c.get_id() for comp in idx for c in comp)
            hit = memo.get(key)
            if hit is not None:
                return hit[0]
            r = fn(idx)
            memo[key] = (r, idx)
            return r
        return rd

    def write(self, fn):
        c = CTX()
        if c is not None:
            c.log_write(self)
        self.fn = fn
        self.memo = {}

    def snapshot(self):
        return (self.fn, self.memo)

    def restore(self, s):
        self.fn, self.memo = s


def zidx(idx):
    return tuple(tuple(zi(c) for c in comp) for comp in idx)


class _ArrMeta(type):
    def __instancecheck__(cls, x):
        return type.__instancecheck__(cls, x)


class SArr(metaclass=_ArrMeta):
    __array_ufunc__ = None
    __slots__ = ("axes", "st", "vmap", "inv", "order_tag", "wrole", "__weakref__", "_flags", "contig")

    def __init__(self, axes, st, vmap=None, inv=None):
        self.axes = tuple(axes)
        self.st = st
        self.vmap = vmap
        self.inv = inv
        self.order_tag = None
        self.wrole = None
        self.contig = False

    def __getattr__(self, n):
        import numpy
        if n.startswith("__") or not hasattr(numpy.ndarray, n):
            raise AttributeError("'numpy.ndarray' object has no attribute %r" % n)
        raise Unsupported("ndarray." + n)

    @property
    def data(self):
        from .ptr import data
        return data(self)

    @property
    def strides(self):
        from .ptr import strides
        return strides(self)

    @property
    def itemsize(self):
        return 1 if self.kind == "b" else 8

    # ------------------------------------------------------------ basics
    @property
    def kind(self):
        return self.st.kind

    @property
    def shape(self):
        return tuple(dimv(a.size) for a in self.axes)

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def size(self):
        s = 1
        for a in self.axes:
            s = dmul(s, a.size)
        return dimv(s)

    @property
    def dtype(self):
        from .npshim import DTYPES
        return DTYPES[self.kind]

    @property
    def T(self):
        return self.transpose()

    @property
    def flat(self):
        return self.ravel()

    def __len__(self):
        if not self.axes:
            raise TypeError("len() of unsized object")
        n = self.axes[0].size
        if isinstance(n, int):
            return n
        raise Unsupported("len() of symbolic array reached C level")

    def slen(self):
        if not self.axes:
            raise TypeError("len() of unsized object")
        return dimv(self.axes[0].size)

    def __bool__(self):
        n = self.size
        if isinstance(n, int) and n == 1:
            return bool(self.item())
        if CTX().decide(truth(binop("eq", n, 1))):
            return bool(self.item())
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "SArr(%s,%s)" % (self.kind, self.shape)

    def __iter__(self):
        n = self.axes[0].size
        if isinstance(n, int):
            return iter([self[i] for i in range(n)])
        raise Unsupported("iteration over symbolic array outside an instrumented loop")

    def __contains__(self, x):
        return bool((self == x).any())

    def reader(self):
        rd = self.st.reader()
        vm = self.vmap
        if vm is None:
            return lambda idx: rd(zidx(idx))
        return lambda idx: rd(vm(zidx(idx)))

    def at(self, *idx):
        """spec access: element at component/int indices -> SV"""
        ix = []
        for a, i in zip(self.axes, idx):
            ix.append(axis_index(a, i))
        t, n = self.reader()(tuple(ix))
        return SV(self.kind, t, n)

    def item(self, *a):
        if a:
            raise Unsupported("item(args)")
        return self.at(*[tuple(z3.IntVal(0) for _ in ax.dims) for ax in self.axes])

    def write(self, val, cond=None):
        """write val(vidx)->(term,nan) at all view positions with cond(vidx)"""
        old = self.st.fn
        oldrd = self.st.reader()
        inv = self.inv
        k = self.st.kind
        if self.vmap is None:
            def fn(sidx):
                c = cond(sidx) if cond is not None else TRUE
                if z3.is_false(c):
                    return oldrd(sidx)
                v = val(sidx)
                if z3.is_true(c):
                    return v
                o = oldrd(sidx)
                return _ite2(c, v, o)
        else:
            if inv is None:
                raise Unsupported("write through a non-invertible view")

            def fn(sidx):
                c, vidx = inv(sidx)
                if z3.is_false(c):
                    return oldrd(sidx)
                if cond is not None:
                    c = zand(c, cond(vidx))
                    if z3.is_false(c):
                        return oldrd(sidx)
                v = val(vidx)
                if z3.is_true(c):
                    return v
                return _ite2(c, v, oldrd(sidx))
        self.st.write(fn)

    # ------------------------------------------------------------ views
    def transpose(self, *axes):
        n = self.ndim
        if n < 2:
            return self
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes or axes == (None,):
            axes = tuple(reversed(range(n)))
        axes = tuple(a % n for a in axes)

        def fwd(v):
            s = [None] * n
            for p, a in enumerate(axes):
                s[a] = v[p]
            return tuple(s)

        def bwd(s):
            return TRUE, tuple(s[a] for a in axes)
        return self._view([self.axes[a] for a in axes], fwd, bwd)

    def swapaxes(self, a, b):
        p = list(range(self.ndim))
        p[a], p[b] = p[b], p[a]
        return self.transpose(*p)

    def _view(self, axes, fwd, bwd):
        vm, inv = self.vmap, self.inv
        nv = (lambda v: vm(fwd(v))) if vm is not None else fwd
        if bwd is None:
            ni = None
        elif vm is None:
            ni = bwd
        elif inv is None:
            ni = None
        else:
            def ni(s):
                c, v = inv(s)
                if z3.is_false(c):
                    return c, None
                c2, w = bwd(v)
                return zand(c, c2), w
        return SArr(axes, self.st, nv, ni)

    def ravel(self, order="C"):
        if order != "C":
            raise Unsupported("ravel order")
        return self._ravel()

    def flatten(self, order="C"):
        return self.ravel(order).copy()

    def _ravel(self):
        if self.ndim == 1:
            return self
        if self.ndim == 0:
            return self.reshape((1,))
        if any(a.pred is not None for a in self.axes):
            raise Unsupported("ravel with filtered axis")
        lens = [len(a.dims) for a in self.axes]
        dims = [d for a in self.axes for d in a.dims]
        # drop unit dims so that the component structure stays minimal
        keep = [i for i, d in enumerate(dims) if not isinstance(d, int) or d != 1]
        if not keep:
            keep = [len(dims) - 1]
        nd = [dims[i] for i in keep]
        tot = len(dims)

        def fwd(v):
            full = [z3.IntVal(0)] * tot
            for i, c in zip(keep, v[0]):
                full[i] = c
            out, p = [], 0
            for L in lens:
                out.append(tuple(full[p:p + L]))
                p += L
            return tuple(out)

        def bwd(s):
            full = [c for comp in s for c in comp]
            cond = zand(*[full[i] == 0 for i in range(tot) if i not in keep and not z3.is_int_value(full[i])])
            return cond, (tuple(full[i] for i in keep),)
        return self._view([Ax(nd)], fwd, bwd)

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        elif len(shape) == 1 and isinstance(shape[0], SArr):
            shape = tuple(shape[0])
        shape = [dim(s) for s in shape]
        if len(shape) == 1 and shape[0] == -1 and isinstance(shape[0], int):
            return self._ravel() if self.ndim != 1 else self
        if len(shape) == self.ndim and all(not (isinstance(s, int) and s == -1) for s in shape) and \
                all(a.pred is None and deq(a.size, s) for a, s in zip(self.axes, shape)):
            if all(a.plain() for a in self.axes):
                return self._view(self.axes, lambda v: v, lambda s: (TRUE, s))
        if any(a.pred is not None for a in self.axes):
            if len(shape) == 1 and self.ndim == 1:
                return self
            raise Unsupported("reshape of filtered axis")
        dims = [d for a in self.axes for d in a.dims]
        lens = [len(a.dims) for a in self.axes]
        total = prod_dims(dims) if dims else 1
        # resolve -1
        neg = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1]
        if len(neg) > 1:
            raise ValueError("can only specify one unknown dimension")
        if neg:
            rest = prod_dims([s for i, s in enumerate(shape) if i != neg[0]])
            q = self._divide(dims, rest)
            shape[neg[0]] = q
        else:
            tp = prod_dims(shape) if shape else 1
            if not deq(tp, total):
                if not CTX().decide(zi(tp) == zi(total)):
                    raise ValueError("cannot reshape array")
        # match source components to target dims by greedy refinement
        src = [(i, d) for i, d in enumerate(dims) if not (isinstance(d, int) and d == 1)]
        tgt = [(i, d) for i, d in enumerate(shape) if not (isinstance(d, int) and d == 1)]
        plan = []   # groups: (src list, tgt list)
        si = ti = 0
        while si < len(src) or ti < len(tgt):
            gs, gt = [], []
            if si < len(src):
                gs.append(src[si]); si += 1
            if ti < len(tgt):
                gt.append(tgt[ti]); ti += 1
            guard = 0
            while True:
                ps, pt = prod_dims([d for _, d in gs]), prod_dims([d for _, d in gt])
                if deq(ps, pt):
                    break
                guard += 1
                if guard > 12:
                    raise Unsupported("reshape: cannot match dims")
                # extend the side which remains
                ext = None
                if si < len(src) and (ti >= len(tgt) or len(gs) <= len(gt)):
                    gs.append(src[si]); si += 1
                elif ti < len(tgt):
                    gt.append(tgt[ti]); ti += 1
                elif si < len(src):
                    gs.append(src[si]); si += 1
                else:
                    raise Unsupported("reshape: cannot match dims")
            plan.append((gs, gt))
        naxes = [None] * len(shape)
        for i, d in enumerate(shape):
            naxes[i] = Ax((d,))
        for gs, gt in plan:
            if len(gt) == 1 and len(gs) > 1:
                naxes[gt[0][0]] = Ax(tuple(d for _, d in gs))
        ns = len(dims)

        def fwd(v):
            full = [z3.IntVal(0)] * ns
            for gs, gt in plan:
                if len(gt) == 1:
                    comp = v[gt[0][0]]
                    for (i, _), c in zip(gs, comp):
                        full[i] = c
                elif len(gs) == 1:
                    full[gs[0][0]] = flatten([v[i][0] for i, _ in gt], [d for _, d in gt])
                else:
                    if len(gs) == len(gt) and all(deq(a[1], b[1]) for a, b in zip(gs, gt)):
                        for (i, _), (j, _) in zip(gs, gt):
                            full[i] = v[j][0]
                    else:
                        k = flatten([v[i][0] for i, _ in gt], [d for _, d in gt])
                        for (i, _), c in zip(gs, unflatten(k, [d for _, d in gs])):
                            full[i] = c
            out, p = [], 0
            for L in lens:
                out.append(tuple(full[p:p + L]))
                p += L
            return tuple(out)

        def bwd(s):
            full = [c for comp in s for c in comp]
            out = [(z3.IntVal(0),)] * len(shape)
            for gs, gt in plan:
                if len(gt) == 1:
                    out[gt[0][0]] = tuple(full[i] for i, _ in gs)
                elif len(gs) == 1:
                    comps = unflatten(full[gs[0][0]], [d for _, d in gt])
                    for (j, _), c in zip(gt, comps):
                        out[j] = (c,)
                else:
                    k = flatten([full[i] for i, _ in gs], [d for _, d in gs])
                    for (j, _), c in zip(gt, unflatten(k, [d for _, d in gt])):
                        out[j] = (c,)
            return TRUE, tuple(out)
        return self._view(naxes, fwd, bwd)

    def _divide(self, dims, rest):
        if isinstance(rest, int) and rest == 1:
            return prod_dims(dims) if dims else 1
        total = prod_dims(dims)
        if isinstance(total, int) and isinstance(rest, int):
            if total % rest:
                raise ValueError("cannot reshape array")
            return total // rest
        # symbolic: try prefix/suffix products
        for p in range(len(dims) + 1):
            if deq(prod_dims(dims[p:]) if dims[p:] else 1, rest):
                return prod_dims(dims[:p]) if dims[:p] else 1
            if deq(prod_dims(dims[:p]) if dims[:p] else 1, rest):
                return prod_dims(dims[p:]) if dims[p:] else 1
        if isinstance(rest, int):
            t = zi(total)
            if not CTX().decide(t % rest == 0):
                raise ValueError("cannot reshape array")
            q = dim(z3.simplify(t / rest))
            return q
        raise Unsupported("reshape -1 with symbolic divisor")

    def squeeze(self, axis=None):
        idx = tuple(0 if (isinstance(a.size, int) and a.size == 1) else slice(None) for a in self.axes)
        return self[idx]

    def copy(self, order="C"):
        rd = self.reader()
        return SArr(self.axes, Storage(rd, self.kind))

    def astype(self, dt, copy=True, **kw):
        from .npshim import kind_of_dtype
        if dt is complex or dt in ("complex", "complex128", "c16") if isinstance(dt, (str, type)) else False:
            from .carr import as_c
            return as_c(self).copy()
        k2 = kind_of_dtype(dt)
        if k2 is None:
            return self.copy()
        return self._cast(k2).copy()

    def _cast(self, k2):
        k = self.kind
        if k == k2:
            return self
        rd = self.reader()

        def fn(idx):
            t, n = rd(idx)
            return castp(k, t, n, k2)
        return SArr(self.axes, Storage(fn, k2))

    def prod(self, axis=None):
        from .npshim import np
        return np.prod(self, axis)

    def argsort(self, axis=-1, kind=None):
        from .npshim import np
        return np.argsort(self, axis, kind)

    def fill(self, v):
        self[...] = v

    # ------------------------------------------------------------ indexing
    def __getitem__(self, key):
        from .indexing import getitem
        return getitem(self, key)

    def __setitem__(self, key, val):
        from .indexing import setitem
        setitem(self, key, val)

    # ------------------------------------------------------------ operators
    def __add__(self, o): return ew("add", self, o)
    def __radd__(self, o): return ew("add", o, self)
    def __sub__(self, o): return ew("sub", self, o)
    def __rsub__(self, o): return ew("sub", o, self)
    def __mul__(self, o): return ew("mul", self, o)
    def __rmul__(self, o): return ew("mul", o, self)
    def __truediv__(self, o): return ew("div", self, o)
    def __rtruediv__(self, o): return ew("div", o, self)
    def __floordiv__(self, o): return ew("fdiv", self, o)
    def __rfloordiv__(self, o): return ew("fdiv", o, self)
    def __mod__(self, o): return ew("mod", self, o)
    def __rmod__(self, o): return ew("mod", o, self)
    def __pow__(self, o): return ew("pow", self, o)
    def __rpow__(self, o): return ew("pow", o, self)
    def __and__(self, o): return ew("and", self, o)
    def __rand__(self, o): return ew("and", o, self)
    def __or__(self, o): return ew("or", self, o)
    def __ror__(self, o): return ew("or", o, self)
    def __xor__(self, o): return ew("xor", self, o)
    def __lt__(self, o): return ew("lt", self, o)
    def __le__(self, o): return ew("le", self, o)
    def __gt__(self, o): return ew("gt", self, o)
    def __ge__(self, o): return ew("ge", self, o)

    def __eq__(self, o):
        if o is None:
            return ew1c(self, FALSE)
        if isinstance(o, str):
            return False
        return ew("eq", self, o)

    def __ne__(self, o):
        if o is None:
            return ew1c(self, TRUE)
        if isinstance(o, str):
            return True
        return ew("ne", self, o)

    def __neg__(self): return ew1("neg", self)
    def __pos__(self): return self
    def __abs__(self): return ew1("abs", self)
    def __invert__(self): return ew1("inv", self)

    def _inplace(self, op, o):
        r = ew(op, self, o)
        if len(r.axes) != len(self.axes):
            raise ValueError("non-broadcastable output operand")
        if r.kind != self.kind and not (r.kind == "b" and self.kind in "if") and not (self.kind == "f"):
            if not (self.kind == "b" and r.kind == "b"):
                raise TypeError("Cannot cast ufunc output from '%s' to '%s' with casting rule 'same_kind'"
                                % (r.kind, self.kind))
        check_same_axes(self.axes, r.axes)
        rd = r.reader()
        k, k2 = r.kind, self.kind
        self.write(lambda v: castp(k, *rd(v), k2))
        return self

    def __iadd__(self, o): return self._inplace("add", o)
    def __isub__(self, o): return self._inplace("sub", o)
    def __imul__(self, o): return self._inplace("mul", o)
    def __itruediv__(self, o): return self._inplace("div", o)
    def __ifloordiv__(self, o): return self._inplace("fdiv", o)
    def __imod__(self, o): return self._inplace("mod", o)
    def __ipow__(self, o): return self._inplace("pow", o)
    def __iand__(self, o): return self._inplace("and", o)
    def __ior__(self, o): return self._inplace("or", o)

    # ------------------------------------------------------------ reductions
    def sum(self, axis=None, dtype=None, keepdims=False, out=None): return reduce_("sum", self, axis, keepdims)
    def mean(self, axis=None, dtype=None, keepdims=False, out=None): return reduce_("mean", self, axis, keepdims)
    def max(self, axis=None, keepdims=False, out=None): return reduce_("max", self, axis, keepdims)
    def min(self, axis=None, keepdims=False, out=None): return reduce_("min", self, axis, keepdims)
    def any(self, axis=None, keepdims=False, out=None): return reduce_("any", self, axis, keepdims)
    def all(self, axis=None, keepdims=False, out=None): return reduce_("all", self, axis, keepdims)
    def std(self, axis=None, keepdims=False, **k): return reduce_("std", self, axis, keepdims)
    def var(self, axis=None, keepdims=False, **k): return reduce_("var", self, axis, keepdims)

    def searchsorted(self, v, side="left"):
        from . import npshim
        return npshim.np.searchsorted(self, v, side=side)

    def nonzero(self):
        from . import npshim
        return npshim.np.nonzero(self)

    def cumsum(self, axis=None, **k):
        from . import npshim
        return npshim.np.cumsum(self, axis)

    def argmax(self, axis=None):
        from . import npshim
        return npshim.np.argmax(self, axis)

    def argmin(self, axis=None):
        from . import npshim
        return npshim.np.argmin(self, axis)

    def tolist(self):
        from .seq import SSeq
        return SSeq(self.slen(), lambda i: self[i])

    def dot(self, o):
        from . import npshim
        return npshim.np.dot(self, o)

    __matmul__ = dot

    def clip(self, lo=None, hi=None):
        from . import npshim
        return npshim.np.clip(self, lo, hi)

    def repeat(self, n, axis=None):
        from . import npshim
        return npshim.np.repeat(self, n, axis)


def _ite2(c, v, o):
    t = zite(c, v[0], o[0])
    if v[1] is None and o[1] is None:
        return (t, None)
    return (t, zite(c, v[1] if v[1] is not None else FALSE, o[1] if o[1] is not None else FALSE))


def castp(k, t, n, k2):
    if k == k2:
        return (t, n)
    if k2 == "b":
        return (truth(SV(k, t, n)), None)
    if k2 == "i":
        return (to_kind(t, k, "i"), None)
    return (to_kind(t, k, k2), n)


# ---------------------------------------------------------------- creation
def const_arr(shape, v, kind):
    k, t, n = lift(v)
    t, n = castp(k, t, n, kind)
    return SArr([Ax((dim(s),)) for s in shape], Storage(lambda idx: (t, n), kind))


def from_fn(shape, kind, f):
    """f(*ints)->SV/number; plain axes"""
    def fn(idx):
        r = f(*[c[0] for c in idx])
        k, t, n = lift(r)
        return castp(k, t, n, kind)
    return SArr([Ax((dim(s),)) for s in shape], Storage(fn, kind))


def from_axes(axes, kind, f):
    """f(idx comps tuple)->(term,nan)"""
    return SArr(axes, Storage(f, kind))


def sym_arr(name, shape, kind, nan=False):
    """input array: an uninterpreted function of its indices"""
    f = z3.Function(name, *([I] * len(shape) + [sort_of(kind)])) if shape else z3.Const(name, sort_of(kind))
    g = z3.Function(name + "#nan", *([I] * len(shape) + [z3.BoolSort()])) if (nan and kind == "f") else None

    def fn(idx):
        a = [c[0] for c in idx]
        return (f(*a) if a else f, g(*a) if g is not None else None)
    return SArr([Ax((dim(s),)) for s in shape], Storage(fn, kind, name))


def const_sel(vals, i):
    """select from python list of z3 terms by z3 int index"""
    c = cint(i)
    if c is not None:
        if 0 <= c < len(vals):
            return vals[c]
        return vals[0]
    r = vals[-1]
    for j in range(len(vals) - 2, -1, -1):
        r = zite(i == j, vals[j], r)
    return r


def as_sarr(x, dtype=None):
    from .npshim import kind_of_dtype
    from .seq import SSeq
    if isinstance(x, SArr):
        r = x
    elif isinstance(x, SSeq):
        r = x.to_array()
    elif isinstance(x, (list, tuple)):
        if hasattr(x, "_seq"):
            return as_sarr(x._seq, dtype)
        r = stack_list(list(x))
    elif type(x).__name__ == "ndarray":
        r = from_numpy(x)
    elif type(x).__name__ in ("range", "deque", "SRange"):
        if type(x).__name__ == "SRange":
            r = x.to_array()
        else:
            r = stack_list(list(x))
    elif x is None or isinstance(x, str):
        raise Unsupported("array of %r" % (x,))
    else:
        k, t, n = lift(x)
        r = SArr([], Storage(lambda idx: (t, n), k))
    if dtype is not None:
        k2 = kind_of_dtype(dtype)
        if k2 is not None:
            r = r._cast(k2)
    return r


def from_numpy(a):
    import numpy
    k = {"b": "b", "i": "i", "u": "i", "f": "f"}.get(a.dtype.kind)
    if k is None:
        raise Unsupported("ndarray dtype %s" % a.dtype)
    flat = [lift(v) for v in a.ravel().tolist()]
    flat = [castp(*v, k) for v in flat]
    shp = a.shape

    def fn(idx):
        fi = flatten([c[0] for c in idx], shp) if idx else z3.IntVal(0)
        t = const_sel([v[0] for v in flat], fi)
        if all(v[1] is None for v in flat):
            return (t, None)
        return (t, const_sel([v[1] if v[1] is not None else FALSE for v in flat], fi))
    return SArr([Ax((int(s),)) for s in shp], Storage(fn, k))


def stack_list(xs):
    """np.array([...]) of scalars / arrays"""
    if not xs:
        return const_arr((0,), 0.0, "f")
    els = [as_sarr(x) for x in xs]
    nd = els[0].ndim
    if any(e.ndim != nd for e in els):
        raise ValueError("setting an array element with a sequence. inhomogeneous shape")
    kind = kmax(*[e.kind for e in els])
    axes = els[0].axes
    for e in els[1:]:
        for a, b in zip(axes, e.axes):
            if not same_axis(a, b):
                raise ValueError("inhomogeneous shape")
    rds = [(e.kind, e.reader()) for e in els]

    def fn(idx):
        vals = [castp(k, *rd(idx[1:]), kind) for k, rd in rds]
        t = const_sel([v[0] for v in vals], idx[0][0])
        if all(v[1] is None for v in vals):
            return (t, None)
        return (t, const_sel([v[1] if v[1] is not None else FALSE for v in vals], idx[0][0]))
    return SArr((Ax((len(xs),)),) + tuple(axes), Storage(fn, kind))


# ---------------------------------------------------------------- axes / broadcasting
def same_pred(a, b):
    if a.pred is b.pred:
        return True
    if (a.pred is None) != (b.pred is None):
        return False
    if len(a.dims) != len(b.dims):
        return False
    c = a.fresh("p")
    pa, pb = a.pred(c), b.pred(c)
    if pa.eq(pb):
        return True
    return CTX().valid(zimp(rng(c, a.dims), pa == pb))


def same_axis(a, b):
    if a is b:
        return True
    if a.pred is None and b.pred is None:
        return deq(a.size, b.size)
    if a.pred is not None and b.pred is not None and len(a.dims) == len(b.dims):
        return all(deq(x, y) for x, y in zip(a.dims, b.dims)) and same_pred(a, b)
    return False


def axis_index(ax, i):
    """spec/program index -> component tuple"""
    if isinstance(i, tuple):
        return tuple(zi(c) for c in i)
    if ax.plain():
        return (zi(i),)
    if ax.pred is None:
        return unflatten(zi(i), ax.dims)
    return nth(ax, zi(i))


def nth(ax, k):
    """k-th selected element of a filtered axis (C order): skolem components"""
    c = ax.fresh("nth")
    CTX().assume(ax.inrange(c))
    kk = cint(k)
    if kk == 0:
        o = tuple(FInt("v") for _ in ax.dims)
        CTX().assume(z3.ForAll(list(o), zimp(ax.inrange(o), lexle(c, o))))
    return c


def lexle(a, b):
    r = TRUE
    for x, y in reversed(list(zip(a, b))):
        r = zor(x < y, zand(x == y, r))
    return r


def conv_index(idx, ax_from, ax_to):
    """component index on ax_from -> component index on ax_to (same size)"""
    if len(ax_from.dims) == len(ax_to.dims):
        return idx
    if len(ax_to.dims) == 1:
        return (flatten(idx, ax_from.dims),)
    k = flatten(idx, ax_from.dims)
    return unflatten(k, ax_to.dims)


def broadcast_axes(A, Bx):
    """returns result axes and per-operand index maps"""
    n = max(len(A), len(Bx))
    out, ma, mb = [], [], []
    for p in range(n):
        a = A[p - (n - len(A))] if p >= n - len(A) else None
        b = Bx[p - (n - len(Bx))] if p >= n - len(Bx) else None
        if a is None:
            out.append(b); mb.append(None); continue
        if b is None:
            out.append(a); ma.append(None); continue
        ax, fa, fb = unify_axis(a, b)
        out.append(ax); ma.append(fa); mb.append(fb)
    return out, ma, mb


ZERO1 = (z3.IntVal(0),)


def unify_axis(a, b):
    if a is b:
        return a, None, None
    a1 = isinstance(a.size, int) and a.size == 1
    b1 = isinstance(b.size, int) and b.size == 1
    if a1 and b1:
        za, zb_ = tuple(z3.IntVal(0) for _ in a.dims), tuple(z3.IntVal(0) for _ in b.dims)
        return Ax((1,)), (lambda i: za), (lambda i: zb_)
    if b1:
        z = tuple(z3.IntVal(0) for _ in b.dims)
        return a, None, (lambda i: z)
    if a1:
        z = tuple(z3.IntVal(0) for _ in a.dims)
        return b, (lambda i: z), None
    if a.pred is None and b.pred is None:
        if len(a.dims) == len(b.dims) and all(deq(x, y) for x, y in zip(a.dims, b.dims)):
            return a, None, None
        if not deq(a.size, b.size):
            if not CTX().decide(zi(a.size) == zi(b.size)):
                if CTX().decide(zi(a.size) == 1):
                    z = tuple(z3.IntVal(0) for _ in a.dims)
                    return b, (lambda i: z), None
                if CTX().decide(zi(b.size) == 1):
                    z = tuple(z3.IntVal(0) for _ in b.dims)
                    return a, None, (lambda i: z)
                raise ValueError("operands could not be broadcast together")
        if len(a.dims) >= len(b.dims):
            return a, None, (lambda i: conv_index(i, a, b))
        return b, (lambda i: conv_index(i, b, a)), None
    if a.pred is not None and b.pred is not None:
        if len(a.dims) == len(b.dims) and all(deq(x, y) for x, y in zip(a.dims, b.dims)) and same_pred(a, b):
            return a, None, None
        raise Unsupported("combining two different mask selections")
    raise Unsupported("combining a mask selection with a plain axis")


def check_same_axes(A, Bx):
    for a, b in zip(A, Bx):
        if not same_axis(a, b):
            if a.pred is None and b.pred is None:
                if CTX().decide(zi(a.size) == zi(b.size)):
                    continue
                raise ValueError("non-broadcastable output operand")
            raise Unsupported("in-place op on mismatched selections")


def mapidx(idx, maps, ndim):
    sub = idx[len(idx) - ndim:] if ndim else ()
    return tuple(c if m is None else m(c) for c, m in zip(sub, maps))


def ew(op, a, b):
    """elementwise binary"""
    from .carr import cop, is_c
    if is_c(a) or is_c(b):
        return cop(op, a, b)
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        raise TypeError("unsupported operand type(s)")
    A, Bv = as_sarr(a), as_sarr(b)
    axes, ma, mb = broadcast_axes(A.axes, Bv.axes)
    ra, rb = A.reader(), Bv.reader()
    ka, kb = A.kind, Bv.kind
    na, nb = A.ndim, Bv.ndim
    if op in ("and", "or", "xor") and (ka == "f" or kb == "f"):
        raise TypeError("ufunc 'bitwise_%s' not supported for the input types" % op)
    # result kind probe
    pa = (ka, sort_probe(ka), None)
    pb = (kb, sort_probe(kb), None)
    if op == "pow":
        kb_t = rb(tuple(tuple(z3.IntVal(0) for _ in x.dims) for x in Bv.axes))[0] if nb == 0 else sort_probe(kb)
        pb = (kb, kb_t, None)
    kind = scalar_op(op, pa, pb)[0]
    uniform_exp = None

    def fn(idx):
        x = ra(mapidx(idx, ma, na))
        y = rb(mapidx(idx, mb, nb))
        r = scalar_op(op, (ka,) + x, (kb,) + y)
        return (r[1], r[2])
    if not axes:
        t, n = fn(())
        return SV(kind, t, n)
    return SArr(axes, Storage(fn, kind))


def sort_probe(k):
    return z3.Const("probe#" + k, sort_of(k))


def ew1(op, a):
    A = as_sarr(a)
    ra, k = A.reader(), A.kind
    kind = scalar_un(op, (k, sort_probe(k), None))[0]

    def fn(idx):
        r = scalar_un(op, (k,) + ra(idx))
        return (r[1], r[2])
    if not A.axes:
        t, n = fn(())
        return SV(kind, t, n)
    return SArr(A.axes, Storage(fn, kind))


def ew1c(a, t):
    return SArr(a.axes, Storage(lambda idx: (t, None), "b"))


def ewn(f, args, kind):
    """general elementwise f(list of SV)->SV on broadcast args"""
    As = [as_sarr(a) for a in args]
    axes = []
    for A in As:
        axes, _, _ = broadcast_axes(axes, A.axes)
    maps = []
    for A in As:
        ax2, m1, m2 = broadcast_axes(axes, A.axes)
        maps.append(m2)
    rds = [A.reader() for A in As]

    def fn(idx):
        vs = []
        for A, m, rd in zip(As, maps, rds):
            t, n = rd(mapidx(idx, m, A.ndim))
            vs.append(SV(A.kind, t, n))
        k, t, n = lift(f(*vs))
        return castp(k, t, n, kind)
    if not axes:
        t, n = fn(())
        return SV(kind, t, n)
    return SArr(axes, Storage(fn, kind))


# ---------------------------------------------------------------- reductions
def norm_axis(axis, nd):
    if axis is None:
        return list(range(nd))
    if isinstance(axis, (tuple, list)):
        return sorted(a % nd for a in axis)
    axis = int(axis)
    if not -nd <= axis < nd:
        raise ValueError("axis out of bounds")
    return [axis % nd]


def reduce_(op, a, axis=None, keepdims=False):
    A = as_sarr(a)
    nd = A.ndim
    if nd == 0:
        v = A.item()
        if op in ("any", "all"):
            return SV("b", truth(v))
        if op in ("std", "var"):
            return SV("f", z3.RealVal(0))
        if op == "mean":
            return cast(v, "f")
        return v
    red = norm_axis(axis, nd)
    keep = [p for p in range(nd) if p not in red]
    if not keep and A.vmap is not None and A.inv is not None and A.st.oid in ROOT and not keepdims \
            and op in ("sum", "any", "all", "mean") and not all(isinstance(x.size, int) for x in A.axes):
        # reduce over the coordinates of the owning array (canonical form)
        inv, root = A.inv, ROOT[A.st.oid]
        lens0 = [len(x.dims) for x in root]
        pr0 = [x.pred for x in root]

        def bigpred(c):
            s, p = [], 0
            for L in lens0:
                s.append(tuple(c[p:p + L]))
                p += L
            cond, _ = inv(tuple(s))
            return zand(cond, *[q(x) for q, x in zip(pr0, s) if q is not None])
        rdst = A.st.reader()

        def big(idx):
            s, p = [], 0
            for L in lens0:
                s.append(tuple(idx[0][p:p + L]))
                p += L
            return rdst(tuple(s))
        bax = Ax([d for x in root for d in x.dims], bigpred)
        bax._size = prod_dims([x.size for x in A.axes])
        return reduce_(op, SArr([bax], Storage(big, A.kind)), None)
    rd, k = A.reader(), A.kind
    raxes = [A.axes[p] for p in red]
    dims = [d for x in raxes for d in x.dims]
    lens = [len(x.dims) for x in raxes]
    preds = [(p, x) for p, x in enumerate(raxes) if x.pred is not None]

    def split(c):
        out, p = [], 0
        for L in lens:
            out.append(tuple(c[p:p + L]))
            p += L
        return out
    pred = None
    if preds:
        def pred(c):
            s = split(c)
            return zand(*[x.pred(s[p]) for p, x in preds])

    def mk(idx):
        full = [None] * nd
        for p, c in zip(keep, idx):
            full[p] = c

        def elem(c):
            f = list(full)
            for p, cc in zip(red, split(c)):
                f[p] = cc
            return rd(tuple(f))
        return elem
    if op in ("max", "min"):
        # empty reduction raises
        for x in raxes:
            s = x.size
            if isinstance(s, int):
                if s == 0:
                    raise ValueError("zero-size array to reduction operation which has no identity")
            elif not CTX().decide(zi(s) > 0 if x.pred is None else make_any(x.dims, x.pred, lambda c: TRUE)):
                raise ValueError("zero-size array to reduction operation which has no identity")
    kind = {"sum": "i" if k == "b" else k, "mean": "f", "max": k, "min": k, "any": "b", "all": "b",
            "std": "f", "var": "f"}[op]
    if op in ("max", "min") and k == "b":
        op = "any" if op == "max" else "all"
    size = 1
    for x in raxes:
        size = dmul(size, x.size)

    def fn(idx):
        el = mk(idx)

        def nanany():
            probe = el(tuple(FInt("pr") for _ in dims))
            if probe[1] is None:
                return None
            return make_any(dims, pred, lambda c: el(c)[1] if el(c)[1] is not None else FALSE)
        if op in ("any", "all"):
            return (make_any(dims, pred, lambda c: truth(SV(k, *el(c))), every=(op == "all")), None)
        if op == "sum":
            return (make_sum(kind, dims, pred, lambda c: to_kind(el(c)[0], k, kind)), nanany())
        if op == "mean":
            s = make_sum("f", dims, pred, lambda c: to_kind(el(c)[0], k, "f"))
            return (s / z3.ToReal(zi(size)), nanany())
        if op in ("max", "min"):
            return (make_ext("MAX" if op == "max" else "MIN", kind, dims, pred, lambda c: el(c)[0]), nanany())
        if op in ("std", "var"):
            n = z3.ToReal(zi(size))
            m = make_sum("f", dims, pred, lambda c: to_kind(el(c)[0], k, "f")) / n

            def dev(c):
                d = to_kind(el(c)[0], k, "f") - m
                return d * d
            v = make_sum("f", dims, pred, dev) / n
            return (v if op == "var" else uf("sqrt")(v), nanany())
    if not keep:
        t, n = fn(())
        r = SV(kind, t, n)
        if keepdims:
            return SArr([Ax((1,)) for _ in range(nd)], Storage(lambda idx: (t, n), kind))
        return r
    res = SArr([A.axes[p] for p in keep], Storage(fn, kind))
    if keepdims:
        key = tuple(slice(None) if p in keep else None for p in range(nd))
        return res[key]
    return res
