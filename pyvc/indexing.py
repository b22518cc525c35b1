"""Assumed numpy indexing semantics (basic views, masks, gathers, stores)."""
import z3

from .arr import (Ax, SArr, Storage, as_sarr, axis_index, broadcast_axes, castp, cint, conv_index, deq, dim, dimv,
                  flatten, make_any, mapidx, nth, rng, same_axis, same_pred, unflatten, zi, zidx)
from .core import CTX, FALSE, SV, TRUE, FInt, Unsupported, lift, zand, zimp, zite, znot, zor


def is_boolmask(k):
    return isinstance(k, SArr) and k.kind == "b" and k.ndim > 0


def norm_int(i, n):
    """python index -> nonnegative z3 term; IndexError path when out of range"""
    n_c = n if isinstance(n, int) else None
    if isinstance(i, SV):
        c = i.concrete()
        if isinstance(c, int) and not isinstance(c, bool):
            i = c
    if isinstance(i, int):
        if n_c is not None:
            if not -n_c <= i < n_c:
                raise IndexError("index %d is out of bounds for axis with size %d" % (i, n_c))
            return z3.IntVal(i % n_c if i < 0 else i)
        if i >= 0:
            if not CTX().decide(zi(n) > i):
                raise IndexError("index out of bounds")
            return z3.IntVal(i)
        if not CTX().decide(zi(n) >= -i):
            raise IndexError("index out of bounds")
        return z3.simplify(zi(n) + i)
    t = zi(i)
    if CTX().decide(t >= 0):
        if not CTX().decide(t < zi(n)):
            raise IndexError("index out of bounds")
        return t
    if not CTX().decide(t >= -zi(n)):
        raise IndexError("index out of bounds")
    return z3.simplify(t + zi(n))


def _sl(x):
    if x is None:
        return None
    if isinstance(x, SV):
        if x.k == "f":
            raise TypeError("slice indices must be integers")
        c = x.concrete()
        return int(c) if isinstance(c, (int, bool)) else zi(x)
    if isinstance(x, float):
        raise TypeError("slice indices must be integers")
    if isinstance(x, SArr):
        if x.ndim == 0:
            return _sl(x.item())
        raise TypeError("only integer scalar arrays can be converted to a scalar index")
    return int(x)


def clamp(x, n):
    """python slice bound clamp to [0, n] (positive step)"""
    if isinstance(x, int) and isinstance(n, int):
        return max(x + n, 0) if x < 0 else min(x, n)
    v = CTX().valid
    zn = zi(n)
    if isinstance(x, int):
        if x == 0:
            return 0
        if x > 0:
            return x if v(zn >= x) else dim(zite(zn >= x, z3.IntVal(x), zn))
        return dim(zn + x) if v(zn >= -x) else dim(zite(zn >= -x, zn + x, z3.IntVal(0)))
    if v(zand(x >= 0, x <= zn)):
        return dim(x)
    if v(x >= 0):
        return dim(zite(x <= zn, x, zn))
    if v(zand(x < 0, x >= -zn)):
        return dim(zn + x)
    return dim(zite(x < 0, zite(x + zn >= 0, x + zn, z3.IntVal(0)), zite(x <= zn, x, zn)))


def slice_params(s, n):
    """-> (start, step, length)"""
    step = _sl(s.step)
    if step is None:
        step = 1
    if not isinstance(step, int):
        c = cint(step)
        if c is None:
            raise Unsupported("symbolic slice step")
        step = c
    a, b = _sl(s.start), _sl(s.stop)
    if step > 0:
        st = 0 if a is None else clamp(a, n)
        en = n if b is None else clamp(b, n)
        if isinstance(st, int) and isinstance(en, int):
            return st, step, max(0, -(-(en - st) // step))
        d = z3.simplify(zi(en) - zi(st))
        if step != 1:
            d = (d + (step - 1)) / step
        if not CTX().valid(d >= 0):
            d = zite(d >= 0, d, z3.IntVal(0))
        return st, step, dim(d)
    if a is None and b is None and step == -1:
        return dim(zi(n) - 1) if not isinstance(n, int) else n - 1, -1, n
    if isinstance(n, int) and (a is None or isinstance(a, int)) and (b is None or isinstance(b, int)):
        st, en, _ = slice(a, b, step).indices(n)
        return st, step, max(0, -(-(en - st) // step))
    if step == -1:
        zn = zi(n)
        v = CTX().valid

        def c2(x):
            x = zi(x)
            return z3.simplify(zite(x < 0, zite(x + zn >= -1, x + zn, z3.IntVal(-1)), zite(x < zn, x, zn - 1)))
        st = zn - 1 if a is None else c2(a)
        en = z3.IntVal(-1) if b is None else c2(b)
        d = z3.simplify(st - en)
        if not v(d >= 0):
            d = zite(d >= 0, d, z3.IntVal(0))
        return dim(st), -1, dim(d)
    raise Unsupported("negative-step slice")


def plainify(A, p):
    """turn compound axis p into a plain one (view)"""
    ax = A.axes[p]
    if ax.plain():
        return A
    if ax.pred is not None:
        raise Unsupported("slicing a mask selection")
    axes = list(A.axes)
    axes[p] = Ax((ax.size,))

    def fwd(v):
        v = list(v)
        v[p] = unflatten(v[p][0], ax.dims)
        return tuple(v)

    def bwd(s):
        s = list(s)
        s[p] = (flatten(s[p], ax.dims),)
        return TRUE, tuple(s)
    return A._view(axes, fwd, bwd)


def full_slice(s, n):
    if s.start is None and s.stop is None and (s.step is None or s.step == 1):
        return True
    return False


def basic_view(A, items):
    """items: list of ('int',term)|('sl',slice)|('new',) in order"""
    src = 0
    axes, spec = [], []
    for it in items:
        if it[0] == "new":
            axes.append(Ax((1,)))
            spec.append(None)
            continue
        ax = A.axes[src]
        if it[0] == "int":
            if ax.plain():
                t = (norm_int(it[1], ax.size),)
            elif ax.pred is None:
                t = unflatten(norm_int(it[1], ax.size), ax.dims)
            else:
                i = it[1]
                if CTX().decide(_filt_has(ax, i)):
                    t = nth(ax, zi(i))
                else:
                    raise IndexError("index out of bounds for axis")
            spec.append(("fix", src, t))
        else:
            s = it[1]
            if full_slice(s, ax.size):
                spec.append(("all", src))
                axes.append(ax)
            else:
                if not ax.plain():
                    A = plainify(A, src)
                    ax = A.axes[src]
                st, step, ln = slice_params(s, ax.size)
                if isinstance(st, int) and st == 0 and step == 1 and (ln is ax.size or (
                        isinstance(ln, int) and ln == ax.size)):
                    spec.append(("all", src))
                    axes.append(ax)
                else:
                    spec.append(("sl", src, zi(st), step, ln))
                    axes.append(Ax((ln,)))
        src += 1
    nsrc = len(A.axes)

    def fwd(v):
        s = [None] * nsrc
        p = 0
        for sp in spec:
            if sp is None:
                p += 1
            elif sp[0] == "fix":
                s[sp[1]] = sp[2]
            elif sp[0] == "all":
                s[sp[1]] = v[p]
                p += 1
            else:
                k = v[p][0]
                s[sp[1]] = (_lin(sp[2], sp[3], k),)
                p += 1
        return tuple(s)

    def bwd(s):
        conds, v = [], []
        for sp in spec:
            if sp is None:
                v.append((z3.IntVal(0),))
            elif sp[0] == "fix":
                for a, b in zip(s[sp[1]], sp[2]):
                    if z3.is_int_value(a) and z3.is_int_value(b):
                        if a.as_long() != b.as_long():
                            return FALSE, None
                    elif not a.eq(b):
                        conds.append(a == b)
            elif sp[0] == "all":
                v.append(s[sp[1]])
            else:
                x = s[sp[1]][0]
                st, step, ln = sp[2], sp[3], sp[4]
                if step == 1:
                    k = z3.simplify(x - st)
                elif step == -1:
                    k = z3.simplify(st - x)
                elif step > 0:
                    conds.append((x - st) % step == 0)
                    k = (x - st) / step
                else:
                    conds.append((st - x) % (-step) == 0)
                    k = (st - x) / (-step)
                c1 = z3.simplify(k >= 0)
                c2 = z3.simplify(k < zi(ln))
                if z3.is_false(c1) or z3.is_false(c2):
                    return FALSE, None
                if not z3.is_true(c1):
                    conds.append(k >= 0)
                if not z3.is_true(c2):
                    conds.append(k < zi(ln))
                v.append((k,))
        return zand(*conds), tuple(v)
    return A._view(axes, fwd, bwd)


def _filt_has(ax, i):
    c = cint(i) if not isinstance(i, SV) else i.concrete()
    if c == 0:
        return make_any(ax.dims, ax.pred, lambda c: TRUE)
    raise Unsupported("indexing a mask selection")


def _lin(st, step, k):
    if step == 1:
        if z3.is_int_value(st) and st.as_long() == 0:
            return k
        return z3.simplify(st + k) if (z3.is_int_value(st) or z3.is_int_value(k)) else st + k
    if step == -1:
        return st - k
    return st + step * k


def parse_key(A, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    out = []
    used = 0
    for k in key:
        if k is Ellipsis or k is None:
            continue
        used += k.ndim if is_boolmask(k) else 1
    nd = A.ndim
    if used > nd:
        raise IndexError("too many indices for array: array is %d-dimensional" % nd)
    if not any(k is Ellipsis for k in key):
        key.append(Ellipsis)
    adv = False
    seen_e = False
    for k in key:
        if k is Ellipsis:
            if seen_e:
                raise IndexError("an index can only have a single ellipsis")
            seen_e = True
            out += [("sl", slice(None))] * (nd - used)
        elif k is None:
            out.append(("new",))
        elif isinstance(k, slice):
            out.append(("sl", k))
        elif isinstance(k, SArr):
            if k.ndim == 0:
                out.append(("int", k.item()))
            elif k.kind == "b":
                out.append(("mask", k))
                adv = True
            else:
                if k.kind == "f":
                    raise IndexError("arrays used as indices must be of integer (or boolean) type")
                out.append(("arr", k))
                adv = True
        elif isinstance(k, (list,)) or type(k).__name__ in ("ndarray", "SSeq", "tuple"):
            k = as_sarr(k)
            if k.kind == "b":
                out.append(("mask", k))
            else:
                if k.kind == "f":
                    if isinstance(k.size, int) and k.size == 0:
                        k = k._cast("i")
                    else:
                        raise IndexError("arrays used as indices must be of integer (or boolean) type")
                out.append(("arr", k))
            adv = True
        elif isinstance(k, SV):
            if k.k == "f":
                raise IndexError("only integers, slices... are valid indices")
            if k.k == "b":
                raise Unsupported("boolean scalar index")
            out.append(("int", k))
        elif isinstance(k, bool):
            raise Unsupported("boolean scalar index")
        elif isinstance(k, float):
            raise IndexError("only integers, slices (`:`), ellipsis (`...`) are valid indices")
        elif isinstance(k, str):
            raise IndexError("only integers, slices are valid indices")
        else:
            out.append(("int", k))
    return out, adv


def getitem(A, key):
    items, adv = parse_key(A, key)
    if not adv:
        v = basic_view(A, items)
        if not v.axes and all(i[0] == "int" for i in items):
            t, n = v.reader()(())
            return SV(A.kind, t, n)
        return v
    if any(i[0] == "mask" for i in items):
        return mask_get(A, items)
    return gather(A, items)


def _mask_prepare(A, items):
    """apply the basic part; returns (B, position, mask)"""
    if sum(1 for i in items if i[0] in ("mask", "arr")) > 1:
        raise Unsupported("several advanced indices with a mask")
    pre, pos, mask = [], None, None
    outpos = 0
    for it in items:
        if it[0] == "mask":
            mask = it[1]
            pos = outpos
            pre += [("sl", slice(None))] * mask.ndim
            outpos += mask.ndim
        else:
            pre.append(it)
            if it[0] != "int":
                outpos += 1
    return basic_view(A, pre), pos, mask


def _mask_axis(Bv, pos, mask):
    m = mask.ndim
    baxes = Bv.axes[pos:pos + m]
    for a, b in zip(baxes, mask.axes):
        if a is b:
            continue
        if a.pred is None and b.pred is None:
            if not deq(a.size, b.size):
                if not CTX().decide(zi(a.size) == zi(b.size)):
                    raise IndexError("boolean index did not match indexed array")
        elif not same_axis(a, b):
            raise Unsupported("mask over different selection")
    dims = [d for a in baxes for d in a.dims]
    lens = [len(a.dims) for a in baxes]
    mr = mask.reader()

    def split(c):
        out, p = [], 0
        for L in lens:
            out.append(tuple(c[p:p + L]))
            p += L
        return tuple(out)

    def pred(c):
        s = split(c)
        mi = tuple(conv_index(x, a, b) for x, a, b in zip(s, baxes, mask.axes))
        g = zand(*[a.pred(x) for x, a in zip(s, baxes) if a.pred is not None])
        return zand(g, mr(mi)[0])
    return Ax(dims, pred), split, mr


def mask_get(A, items):
    Bv, pos, mask = _mask_prepare(A, items)
    ax, split, _ = _mask_axis(Bv, pos, mask)
    rd = Bv.reader()
    m = mask.ndim
    axes = list(Bv.axes[:pos]) + [ax] + list(Bv.axes[pos + m:])

    def fn(idx):
        return rd(tuple(idx[:pos]) + split(idx[pos]) + tuple(idx[pos + 1:]))
    return SArr(axes, Storage(fn, A.kind))


def _index_val(I, n):
    """bounds-check an index array against axis size n, return reader of z3 ints"""
    rd = I.reader()
    c = tuple(a.fresh("g") for a in I.axes)
    t = rd(c)[0]
    inr = zand(*[a.inrange(x) for a, x in zip(I.axes, c)])
    zn = zi(n)
    if CTX().valid(zimp(inr, zand(t >= 0, t < zn))):
        return lambda idx: rd(idx)[0]
    ok = _forall_axes(I.axes, lambda idx: zand(rd(idx)[0] >= -zn, rd(idx)[0] < zn))
    if not CTX().decide(ok):
        raise IndexError("index out of bounds")
    if CTX().valid(zimp(inr, t >= 0)):
        return lambda idx: rd(idx)[0]
    return lambda idx: zite(rd(idx)[0] < 0, rd(idx)[0] + zn, rd(idx)[0])


def _forall_axes(axes, f):
    dims = [d for a in axes for d in a.dims]
    lens = [len(a.dims) for a in axes]

    def split(c):
        out, p = [], 0
        for L in lens:
            out.append(tuple(c[p:p + L]))
            p += L
        return tuple(out)
    pr = [(i, a) for i, a in enumerate(axes) if a.pred is not None]

    def pred(c):
        s = split(c)
        return zand(*[a.pred(s[i]) for i, a in pr])
    return make_any(dims, pred if pr else None, lambda c: f(split(c)), every=True)


def _adv_layout(A, items):
    pre = []
    for it in items:
        pre.append(("sl", slice(None)) if it[0] in ("arr", "int") else it)
    Bv = basic_view(A, [p for p in pre])
    # positions in Bv
    advpos, p = [], 0
    for it in items:
        if it[0] in ("arr", "int"):
            advpos.append((p, it))
        p += 1
    R = []
    for _, it in advpos:
        if it[0] == "arr":
            R, _, _ = broadcast_axes(R, it[1].axes)
    vals = []
    for pos, it in advpos:
        ax = Bv.axes[pos]
        if it[0] == "int":
            t = axis_index(ax, norm_int(it[1], ax.size)) if ax.pred is None else None
            if t is None:
                raise Unsupported("int index into selection")
            vals.append((pos, lambda ridx, t=t: t))
        else:
            Iarr = it[1]
            ax2, _, m2 = broadcast_axes(R, Iarr.axes)
            rv = None
            if ax.pred is not None:
                raise Unsupported("gather from selection")
            rv = _index_val(Iarr, ax.size)
            nd = Iarr.ndim

            def f(ridx, rv=rv, m2=m2, nd=nd, ax=ax):
                t = rv(mapidx(ridx, m2, nd))
                return (t,) if ax.plain() else unflatten(t, ax.dims)
            # where-role shortcut: index array that is the flat/component index of a selection
            vals.append((pos, f))
    positions = [p for p, _ in advpos]
    contiguous = positions == list(range(positions[0], positions[0] + len(positions)))
    ins = positions[0] if contiguous else 0
    return Bv, R, vals, positions, ins


def gather(A, items):
    Bv, R, vals, positions, ins = _adv_layout(A, items)
    rest = [p for p in range(Bv.ndim) if p not in positions]
    axes = [Bv.axes[p] for p in rest]
    axes = axes[:ins] + list(R) + axes[ins:]
    rd = Bv.reader()
    nr = len(R)

    def fn(idx):
        ridx = tuple(idx[ins:ins + nr])
        others = list(idx[:ins]) + list(idx[ins + nr:])
        full = [None] * Bv.ndim
        for p, c in zip(rest, others):
            full[p] = c
        for p, f in vals:
            full[p] = f(ridx)
        return rd(tuple(full))
    if not axes:
        t, n = fn(())
        return SV(A.kind, t, n)
    return SArr(axes, Storage(fn, A.kind))


def value_reader(val, axes, kind):
    """broadcast val to axes; returns idx->(term,nan) in kind"""
    V = as_sarr(val)
    while V.ndim > len(axes):
        a = V.axes[0]
        if isinstance(a.size, int) and a.size == 1:
            V = V[0] if V.ndim > 1 else as_sarr(V[0])
        else:
            raise ValueError("could not broadcast input array")
    out, ma, mb = broadcast_axes(axes, V.axes)
    # result must not be larger than the target
    for a, o in zip(axes[len(axes) - len(out):], out):
        if o is not a and not same_axis(a, o):
            raise ValueError("could not broadcast input array into shape")
    rd, k, nd = V.reader(), V.kind, V.ndim
    conv = []
    for p in range(nd):
        pass

    def f(idx):
        sub = list(idx[len(idx) - nd:]) if nd else []
        r = []
        for q in range(nd):
            m = mb[len(mb) - nd + q] if mb else None
            a, v = axes[len(axes) - nd + q], V.axes[q]
            c = sub[q]
            if m is not None:
                c = m(c)
            elif len(a.dims) != len(v.dims):
                c = conv_index(c, a, v)
            r.append(c)
        t, n = rd(tuple(r))
        return castp(k, t, n, kind)
    return f


def setitem(A, key, val):
    items, adv = parse_key(A, key)
    if not adv:
        v = basic_view(A, items)
        f = value_reader(val, v.axes, A.kind)
        v.write(f)
        return
    if any(i[0] == "mask" for i in items):
        Bv, pos, mask = _mask_prepare(A, items)
        ax, split, _ = _mask_axis(Bv, pos, mask)
        m = mask.ndim
        axes = list(Bv.axes[:pos]) + [ax] + list(Bv.axes[pos + m:])
        f = value_reader(val, axes, A.kind)

        def toidx(v):
            comp = tuple(c for x in v[pos:pos + m] for c in x)
            return tuple(v[:pos]) + (comp,) + tuple(v[pos + m:])
        Bv.write(lambda v: f(toidx(v)), lambda v: ax.pred(toidx(v)[pos]))
        return
    scatter(A, items, val)


def scatter(A, items, val):
    Bv, R, vals, positions, ins = _adv_layout(A, items)
    rest = [p for p in range(Bv.ndim) if p not in positions]
    axes = [Bv.axes[p] for p in rest]
    axes = axes[:ins] + list(R) + axes[ins:]
    f = value_reader(val, axes, A.kind)
    nr = len(R)
    arrs = [it[1] for it in items if it[0] == "arr"]
    # (1) concrete small index arrays: sequential stores
    tot = 1
    for a in R:
        tot = tot * a.size if isinstance(tot, int) and isinstance(a.size, int) and a.pred is None else None
    if isinstance(tot, int) and tot <= 64 and all(a.plain() for a in R):
        import itertools
        for combo in itertools.product(*[range(a.size) for a in R]):
            ridx = tuple((z3.IntVal(c),) for c in combo)
            loc = {p: g(ridx) for p, g in vals}

            def cond(v, loc=loc):
                return zand(*[x == y for p, t in loc.items() for x, y in zip(v[p], t)])

            def value(v, ridx=ridx):
                o = [v[p] for p in rest]
                return f(tuple(o[:ins]) + ridx + tuple(o[ins:]))
            Bv.write(value, cond)
        return
    # (2) index arrays that invert syntactically (np.where components)
    if len(R) == 1:
        ax = R[0]
        c = ax.fresh("w")
        got = [t for p, g in vals for t in g((c,))]
        inv = invert_components(got, c, ax)
        if inv is not None:
            def toidx(v):
                tgt = [x for p, g in vals for x in v[p]]
                comp = inv(tgt)
                o = [v[p] for p in rest]
                return tuple(o[:ins]) + (comp,) + tuple(o[ins:]), comp, tgt

            def cond(v):
                _, comp, tgt = toidx(v)
                cc = [ax.inrange(comp)]
                for a, b in zip([t for p, g in vals for t in g((comp,))], tgt):
                    if not a.eq(b):
                        cc.append(a == b)
                return zand(*cc)
            Bv.write(lambda v: f(toidx(v)[0]), cond)
            return
    # (3) constant value: membership
    V = as_sarr(val)
    if V.ndim == 0:
        t = f(tuple(tuple(z3.IntVal(0) for _ in a.dims) for a in axes))
        rax = R
        dims = [d for a in rax for d in a.dims]
        lens = [len(a.dims) for a in rax]

        def split(cc):
            out, p = [], 0
            for L in lens:
                out.append(tuple(cc[p:p + L]))
                p += L
            return tuple(out)
        pr = [(i, a) for i, a in enumerate(rax) if a.pred is not None]

        def cond(v):
            def body(cc):
                r = split(cc)
                return zand(*[x == y for p, g in vals for x, y in zip(g(r), v[p])])

            def pred(cc):
                s = split(cc)
                return zand(*[a.pred(s[i]) for i, a in pr])
            return make_any(dims, pred if pr else None, body)
        Bv.write(lambda v: t, cond)
        return
    # (4) general: the last position writing an element wins
    if len(R) == 1 and R[0].plain() and len(R[0].dims) == 1:
        from .core import fresh_name
        from .loops import const_terms
        I = z3.IntSort()
        from .solve import DYN_AX
        ax = R[0]
        n = zi(ax.dims[0])
        kv, q = FInt("sk"), FInt("sq")
        tg = [FInt("st") for p, g in vals for _ in Bv.axes[p].dims]

        def wr(k, t):
            return zand(k >= 0, k < n, *[x == y for x, y in zip([x for p, g in vals for x in g(((k,),))], t)])
        W = wr(kv, tg)
        own = {str(x) for x in [kv] + tg}
        ext = [c for c in const_terms([W]) if "!" in c.decl().name() and str(c) not in own]
        lw = z3.Function(fresh_name("lastw"), *([I] * len(tg) + [c.sort() for c in ext] + [I]))
        formals = tg + ext

        def axiom(app, others):
            sub = list(zip(formals, [app.arg(i) for i in range(app.num_args())]))
            w = z3.substitute(W, *sub)
            wq = z3.substitute(w, (kv, q))
            return [zimp(z3.Exists([q], wq), z3.substitute(w, (kv, app))), z3.ForAll([q], zimp(wq, q <= app))]
        DYN_AX[lw.name()] = axiom

        def flat(v):
            return [x for p, g in vals for x in v[p]]

        def cond(v):
            t = flat(v)
            return make_any([ax.dims[0]], None, lambda cc: zand(*[x == y for x, y in zip([x for p, g in vals for x in g(((cc[0],),))], t)]))

        def value(v):
            o = [v[p] for p in rest]
            return f(tuple(o[:ins]) + ((lw(*(flat(v) + ext)),),) + tuple(o[ins:]))
        Bv.write(value, cond)
        return
    raise Unsupported("scatter store with computed indices")


def invert_components(got, c, ax):
    """got: index terms as function of selection comps c.  Return inverse
    function targets->comps when each comp is determined affinely."""
    from .arr import _mentions
    sol = {}
    for pos, t in enumerate(got):
        for j, cj in enumerate(c):
            if j in sol:
                continue
            d = z3.simplify(t - cj)
            if not _mentions(d, list(c)):
                sol[j] = (pos, d)
    if len(sol) == len(c):
        def inv(tgt):
            return tuple(z3.simplify(tgt[sol[j][0]] - sol[j][1]) for j in range(len(c)))
        return inv
    # flat index into compound dims
    if len(got) == 1 and len(ax.dims) > 1:
        if z3.simplify(got[0] - flatten(c, ax.dims), som=True).eq(z3.IntVal(0)):
            return lambda tgt: unflatten(tgt[0], ax.dims)
    return None
