"""Loop rule: inductive summarisation of loops over symbolic sequences.

A loop body (turned into a closure by loader.py) is executed once, for an
arbitrary iteration index k, from an arbitrary ("havocked") loop state.  The
resulting transition relation is matched against closed-form templates; each
match is discharged as an obligation over the havocked state, so the closed
form follows by induction for every iteration count.
"""
import z3

from .arr import (Ax, SArr, Storage, _ite2, as_sarr, castp, cint, deq, dim, dimv, flatten, lexle, make_any, make_ext,
                  make_sum, rng, zi, _mentions)
from .core import (CTX, FALSE, SV, TRUE, FBool, FInt, I, PathAbort, Unsupported, binop, fresh_name, is_py, kmax, lift,
                   sort_of, to_kind, truth, zand, zimp, zite, znot, zor, _oid)
from .seq import Chunk, Rest, SList, SSeq, conc_iter, symiter


class _Unb:
    def __repr__(self):
        return "<unbound>"


UNB = _Unb()


class Poison:
    """value whose closed form is unknown; any use is unsupported"""

    def __init__(self, why):
        object.__setattr__(self, "why", why)

    def __getattr__(self, n):
        raise Unsupported("use of loop-dependent value: " + object.__getattribute__(self, "why"))

    def __bool__(self):
        raise Unsupported("use of loop-dependent value")

    __hash__ = object.__hash__


def _poisoned(self, *a, **k):
    raise Unsupported("use of loop-dependent value: " + object.__getattribute__(self, "why"))


for _n in ("add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow rpow neg pos abs lt le gt ge and rand or ror xor rxor "
           "eq ne invert len iter getitem setitem call int float index contains matmul rmatmul next enter").split():
    setattr(Poison, "__%s__" % _n, _poisoned)


# ------------------------------------------------------------------ values
def merge_values(c, a, b):
    if a is b:
        return a
    if isinstance(a, (SV, int, float, bool)) and isinstance(b, (SV, int, float, bool)):
        if not isinstance(a, SV) and not isinstance(b, SV) and type(a) is type(b) and a == b:
            return a
        ka, ta, na = lift(a)
        kb, tb, nb = lift(b)
        k = kmax(ka, kb)
        t = zite(c, to_kind(ta, ka, k), to_kind(tb, kb, k))
        nan = None
        if na is not None or nb is not None:
            nan = zite(c, na if na is not None else FALSE, nb if nb is not None else FALSE)
        return SV(k, t, nan, is_py(a) and is_py(b))
    if isinstance(a, SArr) and isinstance(b, SArr) and a.ndim == b.ndim:
        k = kmax(a.kind, b.kind)
        ra, rb, ka, kb = a.reader(), b.reader(), a.kind, b.kind
        axes = []
        for x, y in zip(a.axes, b.axes):
            if x is y:
                axes.append(x)
            elif x.pred is None and y.pred is None and len(x.dims) == len(y.dims):
                axes.append(Ax([p if (isinstance(p, int) and isinstance(q, int) and p == q) or
                                (not isinstance(p, int) and not isinstance(q, int) and zi(p).eq(zi(q)))
                                else dim(zite(c, zi(p), zi(q))) for p, q in zip(x.dims, y.dims)]))
            elif x.pred is not None and y.pred is not None and len(x.dims) == len(y.dims):
                axes.append(Ax([p if p is q else dim(zite(c, zi(p), zi(q))) for p, q in zip(x.dims, y.dims)],
                               lambda i, x=x, y=y: zite(c, x.pred(i), y.pred(i))))
            else:
                raise Unsupported("merge of differently structured arrays")
        return SArr(axes, Storage(lambda i: _ite2(c, castp(ka, *ra(i), k), castp(kb, *rb(i), k)), k))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and type(a) is type(b):
        v = [merge_values(c, x, y) for x, y in zip(a, b)]
        return type(a)(*v) if hasattr(a, "_fields") else tuple(v)
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return SList([merge_values(c, x, y) for x, y in zip(a, b)])
    if isinstance(a, SSeq) and isinstance(b, SSeq):
        if a.ax.pred is None and b.ax.pred is None and len(a.ax.dims) == len(b.ax.dims) == 1:
            return SSeq(None, lambda i: merge_values(c, a.fn(i), b.fn(i)),
                        ax=Ax([dim(zite(c, zi(a.ax.dims[0]), zi(b.ax.dims[0])))]))
    if a is None and b is None:
        return None
    if type(a) is type(b) and isinstance(a, str) and a == b:
        return a
    if isinstance(a, (Poison, _Unb)) or isinstance(b, (Poison, _Unb)):
        return Poison("merged")
    raise Unsupported("cannot merge %s and %s at a join" % (type(a).__name__, type(b).__name__))


def subst_value(v, pairs):
    """substitute z3 constants inside a value (arrays/sequences lazily)"""
    if isinstance(v, SV):
        return SV(v.k, z3.substitute(v.t, *pairs), None if v.nan is None else z3.substitute(v.nan, *pairs), v.py)
    if isinstance(v, SArr):
        rd = v.reader()

        def fn(idx):
            js = [tuple(FInt("sj") for _ in c) for c in idx]
            t, n = rd(tuple(js))
            p2 = [(j, i) for a, b in zip(js, idx) for j, i in zip(a, b)]
            t = z3.substitute(z3.substitute(t, *pairs), *p2)
            n = None if n is None else z3.substitute(z3.substitute(n, *pairs), *p2)
            return (t, n)
        return SArr([subst_ax(a, pairs) for a in v.axes], Storage(fn, v.kind))
    if isinstance(v, tuple):
        w = [subst_value(x, pairs) for x in v]
        return type(v)(*w) if hasattr(v, "_fields") else tuple(w)
    if isinstance(v, list):
        return SList([subst_value(x, pairs) for x in v])
    if isinstance(v, SSeq):
        fn = v.fn

        def g(c):
            js = tuple(FInt("sj") for _ in c)
            return subst_value(subst_value(fn(js), pairs), list(zip(js, c)))
        return SSeq(None, g, ax=subst_ax(v.ax, pairs))
    return v


def subst_ax(a, pairs):
    dims = [d if isinstance(d, int) else dim(z3.substitute(zi(d), *pairs)) for d in a.dims]
    pred = None
    if a.pred is not None:
        p0 = a.pred

        def pred(c):
            js = tuple(FInt("sj") for _ in c)
            return z3.substitute(z3.substitute(p0(js), *pairs), *list(zip(js, c)))
    return Ax(dims, pred)


def consts_of(t):
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st += x.children()
    return out


def const_terms(ts):
    out, seen = {}, set()
    st = list(ts)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[str(x)] = x
            st += x.children()
    return [out[n] for n in sorted(out)]


def fresh_funcs(t, mark):
    """fresh uninterpreted functions (not constants) created after mark"""
    out, seen = set(), set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and fresh_no(x.decl().name()) >= mark:
                out.add(x.decl().name())
            st += x.children()
    return out


def fresh_no(name):
    if "!" in name:
        try:
            return int(name.rsplit("!", 1)[1].split("#")[0])
        except ValueError:
            return -1
    return -1


def value_terms(v):
    if isinstance(v, SV):
        yield v.t
        if v.nan is not None:
            yield v.nan
    elif isinstance(v, SArr):
        c = tuple(a.fresh("vt") for a in v.axes)
        t, n = v.reader()(c)
        yield t
        if n is not None:
            yield n
        for a in v.axes:
            for d in a.dims:
                if not isinstance(d, int):
                    yield zi(d)
            if a.pred is not None:
                yield a.pred(a.fresh("vt"))
    elif isinstance(v, (tuple, list)):
        for x in v:
            yield from value_terms(x)
    elif isinstance(v, SSeq):
        yield from value_terms(v.fn(v.ax.fresh("vt")))


# ------------------------------------------------------------------ comprehension
def sub_eval(fn):
    """evaluate fn() under all paths, merge results; exceptions re-raised as
    a path of the caller.  No heap writes to outer objects allowed."""
    ctx = CTX()
    outs = ctx.explore(fn)
    rets = [o for o in outs if o[1] == "ret"]
    if any(o[3] for o in outs):
        raise Unsupported("side effect inside a comprehension over a symbolic sequence")
    if len(rets) != len(outs):
        raise Unsupported("exception inside comprehension over symbolic sequence: %r" % (
            [o[2] for o in outs if o[1] != "ret"][:1],))
    if not rets:
        raise PathAbort()
    v = rets[-1][2]
    for conds, _, w, _ in reversed(rets[:-1]):
        v = merge_values(zand(*conds), w, v)
    return v


def comp(it, elt, conds, kind):
    s = symiter(it)
    if s is None:
        out = []
        for x in conc_iter(it):
            if all(c(x) for c in conds):
                out.append(elt(x))
        if kind == "list" or kind == "gen":
            return SList(out)
        if kind == "set":
            return set(out)
        return dict(out)
    if kind in ("set", "dict"):
        raise Unsupported("set/dict comprehension over a symbolic sequence")
    ax, item = s
    k = ax.fresh("ck")
    ctx = CTX()
    base = len(ctx.pc)
    mark = next_fresh()
    ctx.pc.append(ax.inrange(k))
    try:
        pred = ax.pred
        if conds:
            pc_ = sub_eval(lambda: SV("b", zand(*[truth(c(item(k))) for c in conds])))
            pt = pc_.t
        v = sub_eval(lambda: elt(item(k)))
    finally:
        del ctx.pc[base:]
    check_fresh(v, mark, k)
    if conds:
        p0 = ax.pred
        ax = Ax(ax.dims, lambda c: zand(p0(c) if p0 else TRUE, z3.substitute(pt, *list(zip(k, c)))))
    return SSeq(None, lambda c: subst_value(v, list(zip(k, c))), ax=ax)


def next_fresh():
    return int(fresh_name("m").split("!")[1])


def check_fresh(v, mark, k, extra=()):
    ok = {str(x) for x in k} | set(extra)
    for t in value_terms(v):
        m2 = None
        for n in consts_of(t):
            f = fresh_no(n)
            if f >= mark and n not in ok and not n.startswith(("vt!", "sj!")):
                raise Unsupported("loop value depends on per-iteration choice %s" % n)


# ------------------------------------------------------------------ for
class LoopOut:
    __slots__ = ("status", "vals", "rv")

    def __init__(self, status, vals, rv=None):
        self.status, self.vals, self.rv = status, vals, rv


def do_for(it, body, vals, names, lid):
    s = symiter(it)
    if s is None:
        vals = tuple(vals)
        for x in conc_iter(it):
            st, vals, rv = body(x, vals)
            if st == "break":
                return LoopOut("break", vals)
            if st == "return":
                return LoopOut("return", vals, rv)
        return LoopOut("done", vals)
    ax, item = s
    hook = getattr(CTX(), "loop_hook", None)
    if hook is not None:
        r = hook(ax, item, body, vals, names, lid)
        if r is not None:
            return r
    return sym_for(ax, item, body, list(vals), names, lid)


def inv_for(ax, item, body, vals, names, lid, inv):
    """Hoare rule for a loop with an invariant the contract supplies.  inv.check(env, k, what) states the invariant after k
    iterations as obligations, inv.assume(env, k, after) puts the state (before another iteration, or after the loop) into an arbitrary one that satisfies it and returns the objects
    it havocked; env maps the names the loop body uses to their values."""
    ctx = CTX()
    if ax.pred is not None or len(ax.dims) != 1:
        raise Unsupported("invariant loop over a selection")

    def environment(vs):
        env = {}
        if body.__closure__:
            for nm, cell in zip(body.__code__.co_freevars, body.__closure__):
                try:
                    env[nm] = cell.cell_contents
                except ValueError:
                    pass
        for nm, v in zip(names, vs):
            if v is not UNB:
                env[nm] = v
        return env
    vals = list(vals)
    env = environment(vals)
    inv.check(env, SV("i", z3.IntVal(0)), "entry")
    head = [v if nm in inv.carried else Poison("value of %s in an earlier iteration" % nm) for nm, v in zip(names, vals)]
    step = ctx.decide(z3.Const(fresh_name("step"), z3.BoolSort()))
    if step:
        k = FInt("k")
        ctx.assume(zand(k >= 0, k < zi(ax.dims[0])))
        K = SV("i", k)
        ok = {id(o) for o in inv.assume(env, K)}
        born = next(_oid)
        log = {}
        ctx.wlogs.append(log)
        try:
            st, out, rv = body(item((k,)), tuple(head))
        finally:
            ctx.wlogs.pop()
        if st != "next":
            raise Unsupported("loop with an invariant leaves early")
        for o in log:
            if o.oid < born and id(o) not in ok:
                raise Unsupported("loop body writes an object its invariant does not mention")
        for nm, old, new in zip(names, head, out):
            if nm in inv.carried and new is not old:
                raise Unsupported("loop body rebinds %s" % nm)
        inv.check(environment(out), SV("i", k + 1), "step")
        raise PathAbort()
    inv.assume(env, SV("i", zi(ax.dims[0])), True)
    return LoopOut("done", head)


def do_while(cond, body, vals, names, lid):
    """while loop: executed natively while the condition is determined; otherwise summarised as an unknown number N of
    iterations during all of which the condition holds, and after which it does not (partial correctness)"""
    ctx = CTX()
    vals = tuple(vals)
    for _ in range(2000):
        c = cond(vals)
        if isinstance(c, SArr):
            c = c.item()
        if not isinstance(c, SV):
            if not c:
                return LoopOut("done", vals)
        else:
            t = truth(c)
            st = z3.simplify(t)
            if z3.is_false(st) or (not z3.is_true(st) and ctx.valid(znot(t))):
                return LoopOut("done", vals)
            if not z3.is_true(st) and not ctx.valid(t):
                break
        st, vals, rv = body(None, vals)
        if st in ("break", "return"):
            return LoopOut(st, vals, rv)
    else:
        raise Unsupported("while loop without a bound the verifier can see")
    N = FInt("niter")
    ctx.assume(N >= 0)

    def body2(item, st_):
        if not ctx.decide(truth(cond(st_))):
            raise PathAbort()
        return body(item, st_)
    out = sym_for(Ax((dim(N),)), lambda c_: None, body2, list(vals), names, lid, each=lambda st_: truth(cond(st_)))
    if out.status == "done":
        ctx.assume(znot(truth(cond(out.vals))))
    return out


def lexlt(a, b):
    r = FALSE
    for x, y in reversed(list(zip(a, b))):
        r = zor(x < y, zand(x == y, r))
    return r


class HavocArr:
    def __init__(self, st, axes_hint, name, fn, nanf):
        self.st, self.name, self.fn, self.nanf = st, name, fn, nanf


def sym_for(ax, item, body, vals, names, lid, peeled=0, each=None):
    ctx = CTX()
    k = ax.fresh("k")
    C, M = set(), {}
    OPT = {}                       # index -> (flag, cached value): None until some iteration creates the value
    body0 = body

    def body(it_, st_):
        if OPT:
            st_ = list(st_)
            for i, (flag, val) in OPT.items():
                if isinstance(st_[i], _Opt):
                    st_[i] = None if ctx.decide(flag) else val
        return body0(it_, tuple(st_))
    for _round in range(6):
        # build havocked state
        hv, st = {}, list(vals)
        mark = next_fresh()
        for i in C:
            st[i], hv[i] = havoc(vals[i], C_kind.get(i) if _round else None)
        for i in OPT:
            st[i] = _OPT
        hobj = {}
        saved = {}
        for o in M:
            saved[o] = o.snapshot()
        try:
            for o in M:
                hobj[o] = havoc_obj(o, M[o])
            base = len(ctx.pc)
            ctx.pc.append(ax.inrange(k))
            ctx.probing += 1
            try:
                outs = ctx.explore(lambda: body(item(k), tuple(st)))
            finally:
                ctx.probing -= 1
                del ctx.pc[base:]
        finally:
            for o in M:
                o.restore(saved[o])
        nexts = [o for o in outs if o[1] == "ret" and o[2][0] == "next"]
        exits = [o for o in outs if not (o[1] == "ret" and o[2][0] == "next")]
        newC, newM = set(C), dict(M)
        C_kind = {}
        needpeel = newopt = False
        for conds, _, (stt, nv, _r), writes in nexts:
            for i, v in enumerate(nv):
                if v is not st[i]:
                    if not same_value(v, st[i]):
                        if vals[i] is UNB or isinstance(vals[i], Poison):
                            continue
                        if i in OPT:
                            if v is None or v is OPT[i][1] or same_contents(ctx, conds, v, OPT[i][1]):
                                continue
                            raise Unsupported("loop variable %s alternates" % names[i])
                        if vals[i] is None:
                            if isinstance(v, SArr) and iter_free(v, mark, k):
                                OPT[i] = (z3.Bool(fresh_name("hvO")), v)
                                newopt = True
                                continue
                            needpeel = True
                        newC.add(i)
                        if isinstance(v, (SV, int, float)) and isinstance(vals[i], (SV, int, float)):
                            k0 = C_kind.get(i, lift(vals[i])[0])
                            C_kind[i] = kmax(k0, lift(v)[0])
            for o in writes:
                newM.setdefault(o, writes[o])
        if needpeel and peeled == 0 and ax.plain():
            return peel(ax, item, body, vals, names, lid)
        stable = newC == C and set(newM) == set(M) and all(
            C_kind.get(i) in (None, hv_kind(hv.get(i))) for i in newC)
        if any(OPT[i][1].st in newM for i in OPT):
            raise Unsupported("lazily created array is modified in the loop")
        if stable and not newopt:
            break
        C, M = newC, newM
    else:
        raise Unsupported("loop state does not stabilise")
    if not nexts:
        # every iteration leaves the loop
        if ctx.decide(make_any(ax.dims, ax.pred, lambda c: TRUE)):
            raise_exit(ctx, ax, item, body, vals, names, None, None, k)
        return LoopOut("done", tuple(vals))

    # merged transition
    mv, mw = merge_outs(nexts, st, M, hobj)
    # closed forms
    cf = {}
    hnames = set()
    for i in C:
        hnames |= set(consts_in(hv[i]))
    for o in M:
        hnames |= hobj[o].names
    env = LoopEnv(ctx, ax, k, mark, hnames, lid)
    order = list(C)
    for i in OPT:
        hnames.add(str(OPT[i][0]))
    for i in OPT:
        cf[("v", i)] = opt_rule(env, names[i], i, OPT[i], nexts)
    for i in order:
        cf[("v", i)] = env.infer_var(names[i], vals[i], st[i], mv[i])
    env.rerun = lambda o, comps: rerun(ctx, ax, item, body0, state, apply_objs, M, o, comps)
    env.hobj = hobj
    env.writers(M, mw)
    for o in M:
        cf[("o", o)] = env.infer_obj(o, hobj[o], mw.get(o))

    def state(before, last, count):
        out = list(vals)
        for i in range(len(vals)):
            if ("v", i) in cf:
                try:
                    out[i] = cf[("v", i)](before, last, count)
                except Unsupported as e:
                    if last is not None:
                        raise
                    out[i] = Poison(str(e))
            elif mv[i] is not st[i] and not same_value(mv[i], st[i]):
                # per-iteration temporary: value of the last iteration
                out[i] = Poison("loop temporary %s" % names[i])
                if last is not None and ctx.valid(make_any(ax.dims, ax.pred, lambda c: TRUE)) and ax.pred is None:
                    try:
                        env.nohav(mv[i], names[i])
                        check_fresh(mv[i], mark, k)
                        out[i] = subst_value(mv[i], list(zip(k, last)))
                    except Unsupported:
                        pass
        return out

    def apply_objs(before, last, count, skip=None):
        for o in M:
            if o is not skip:
                cf[("o", o)](before, last, count)

    if exits:
        ex = ctx.decide(FBool("exits"))
        if ex:
            return raise_exit(ctx, ax, item, body, vals, names, state, apply_objs, k,
                              lambda kk: noexit_fact(ctx, ax, item, body, exits, k, mark, hnames, state, apply_objs, M, kk))
        # remember that no iteration exits (when expressible)
        noexit_fact(ctx, ax, item, body, exits, k, mark, hnames, state, apply_objs, M, None)
    if each is not None:
        # the loop condition holds before every iteration
        q = FInt("e")
        saved = {o: o.snapshot() for o in M}
        base = len(ctx.pc)
        fact = None
        try:
            ctx.pc.append(ax.inrange((q,)))
            ctx.probing += 1
            try:
                apply_objs(lambda j: lexlt(j, (q,)), (z3.simplify(q - 1),), q)
                fact = each(tuple(state(lambda j: lexlt(j, (q,)), (z3.simplify(q - 1),), q)))
            finally:
                ctx.probing -= 1
        except Unsupported:
            pass
        finally:
            del ctx.pc[base:]
            for o in M:
                o.restore(saved[o])
        if fact is not None:
            ctx.assume(z3.ForAll([q], zimp(ax.inrange((q,)), fact)))
    lastidx = tuple(z3.simplify(zi(d) - 1) for d in ax.dims)
    before = (lambda j: TRUE)
    final = state(before, lastidx, zi(ax.size) if ax.pred is None else None)
    apply_objs(before, lastidx, zi(ax.size) if ax.pred is None else None)
    return LoopOut("done", tuple(final))


class _Opt:
    pass


_OPT = _Opt()


def iter_free(v, mark, k):
    """value does not depend on the iteration that creates it"""
    ks = {str(x) for x in k}
    for t in value_terms(v):
        for n in consts_of(t):
            if n in ks or n.startswith("hv") or (fresh_no(n) >= mark and not n.startswith("vt!")):
                return False
    return True


def same_contents(ctx, conds, a, b):
    if not (isinstance(a, SArr) and isinstance(b, SArr) and a.ndim == b.ndim and a.kind == b.kind):
        return False
    if any(x.pred is not None or y.pred is not None or len(x.dims) != len(y.dims) for x, y in zip(a.axes, b.axes)):
        return False
    J = tuple(x.fresh("vt") for x in a.axes)
    ta, na = a.reader()(J)
    tb, nb = b.reader()(J)
    na, nb = (x if x is not None else FALSE for x in (na, nb))
    g = zand(na == nb, zor(na, ta == tb), *[zi(p) == zi(q) for x, y in zip(a.axes, b.axes) for p, q in zip(x.dims, y.dims)])
    base = len(ctx.pc)
    ctx.pc += conds
    try:
        return ctx.valid(g)
    finally:
        del ctx.pc[base:]


def opt_rule(env, name, i, opt, nexts):
    """None until the first iteration satisfying S, afterwards the cached value"""
    flag, val = opt
    S = []
    for conds, _, (stt, nv, _r), w in nexts:
        c = zand(*conds)
        if nv[i] is None or isinstance(nv[i], _Opt):
            continue
        S.append(z3.simplify(z3.substitute(c, (flag, TRUE))))
    S = zor(*S)
    if not env.clean(S):
        raise Unsupported("creation of %s depends on loop state" % name)
    env.step_obl(name, TRUE)
    ax = env.ax

    def cf(b, l, c):
        made = make_any(ax.dims, conj(ax.pred, b), lambda j: env.sub(S, j))
        return val if env.ctx.decide(made) else None
    return cf


def rerun(ctx, ax, item, body, state, apply_objs, M, lst, comps):
    """element appended to lst by iteration comps, from the closed-form state before it"""
    if not ax.plain():
        raise Unsupported("state-dependent list element on a compound axis")
    q = comps[0]
    saved = {o: o.snapshot() for o in M}
    rest = Rest(fresh_name("rr"))

    def go():
        v = state(lambda j: lexlt(j, (q,)), None, q)
        for o in M:
            if o is not lst:
                o.restore(saved[o])
        apply_objs(lambda j: lexlt(j, (q,)), None, q, lst)
        lst.__class__ = SList
        lst.__dict__.pop("_seq", None)
        list.__init__(lst, [rest])
        st, nv, rv = body(item((q,)), tuple(v))
        if st != "next":
            raise PathAbort()
        got = list(lst)
        if len(got) == 1 and got[0] is rest:
            raise PathAbort()      # the element exists only if the iteration appends
        if len(got) != 2 or got[0] is not rest:
            raise Unsupported("conditional state-dependent append")
        return got[1]
    pre = lst.snapshot()
    cls = lst.__class__
    ctx.probing += 1
    try:
        base = len(ctx.pc)
        ctx.pc.append(ax.inrange((q,)))
        try:
            outs = ctx.explore(go)
        finally:
            del ctx.pc[base:]
    finally:
        ctx.probing -= 1
        for o in M:
            if o is not lst:
                o.restore(saved[o])
        lst.__class__ = cls
        lst.restore(pre)
        if isinstance(pre, tuple) and pre and pre[0] == "seq":
            lst._seq = pre[1]
    rets = [o for o in outs if o[1] == "ret"]
    if len(rets) != len(outs) or not rets:
        raise Unsupported("exception in state-dependent append: %r" % ([o[2] for o in outs if o[1] != "ret"][:1],))
    v = rets[-1][2]
    for conds, _, w, _ in reversed(rets[:-1]):
        v = merge_values(zand(*conds), w, v)
    return v


def exit_cond(exits, k, mark, hnames):
    alts = []
    ks = {str(x) for x in k}
    for conds, kind, val, w in exits:
        E = zand(*conds)
        for n in consts_of(E):
            if n in hnames:
                return None
            if fresh_no(n) >= mark and n not in ks:
                return None
        alts.append(E)
    return zor(*alts)


def noexit_fact(ctx, ax, item, body, exits, k, mark, hnames, state, apply_objs, M, upto):
    """assume that no iteration (before upto) leaves the loop"""
    E = exit_cond(exits, k, mark, hnames)
    if E is not None:
        q = [FInt("e") for _ in k]
        g = ax.inrange(tuple(q)) if upto is None else zand(ax.inrange(tuple(q)), lexlt(tuple(q), upto))
        ctx.assume(z3.ForAll(q, zimp(g, znot(z3.substitute(E, *list(zip(k, q)))))))
        return
    if not ax.plain():
        return
    # state dependent: run the body once more from the closed-form state of an arbitrary iteration q
    q = FInt("e")
    mark2 = next_fresh()
    saved = {o: o.snapshot() for o in M}
    base = len(ctx.pc)
    try:
        ctx.pc.append(ax.inrange((q,)))
        v = state(lambda j: lexlt(j, (q,)), None, q)
        ctx.probing += 1
        try:
            apply_objs(lambda j: lexlt(j, (q,)), None, q)
            outs = ctx.explore(lambda: body(item((q,)), tuple(v)))
        finally:
            ctx.probing -= 1
    except Unsupported:
        return
    finally:
        del ctx.pc[base:]
        for o in M:
            o.restore(saved[o])
    for conds, kind, val, w in outs:
        if kind == "ret" and val[0] == "next":
            continue
        E = zand(*conds)
        if any(fresh_no(n) >= mark2 for n in consts_of(E)):
            continue
        if any(not n.startswith("lastw!") for n in fresh_funcs(E, mark2)):
            continue
        g = ax.inrange((q,)) if upto is None else zand(ax.inrange((q,)), q < upto[0])
        ctx.assume(z3.ForAll([q], zimp(g, znot(E))))


def raise_exit(ctx, ax, item, body, vals, names, state, apply_objs, k, pre=None):
    """run the iteration that leaves the loop for real"""
    kk = ax.fresh("kx")
    ctx.assume(ax.inrange(kk))
    before = lambda j: lexlt(j, kk)  # noqa
    if pre is not None:
        pre(kk)
    if state is not None:
        prev = tuple(list(kk[:-1]) + [z3.simplify(kk[-1] - 1)])
        v = state(before, None, flatten(kk, ax.dims) if ax.pred is None else None)
        apply_objs(before, None, flatten(kk, ax.dims) if ax.pred is None else None)
    else:
        v = list(vals)
        if not ax.plain():
            raise Unsupported("loop exits at first iteration of compound axis")
        ctx.assume(kk[0] == 0)
    st, nv, rv = body(item(kk), tuple(v))
    if st == "next":
        raise PathAbort()
    if st == "break":
        return LoopOut("break", nv)
    return LoopOut("return", nv, rv)


def peel(ax, item, body, vals, names, lid):
    ctx = CTX()
    n = ax.dims[0]
    if not ctx.decide(zi(n) > 0):
        return LoopOut("done", tuple(vals))
    st, nv, rv = body(item((z3.IntVal(0),)), tuple(vals))
    if st in ("break", "return"):
        return LoopOut(st, nv, rv)
    ax2 = Ax((dim(zi(n) - 1),))
    return sym_for(ax2, lambda c: item((z3.simplify(c[0] + 1),)), body, list(nv), names, lid, peeled=1)


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, SV) and isinstance(b, SV):
        return a.k == b.k and a.t.eq(b.t)
    if isinstance(a, (int, float, bool, str)) and isinstance(b, (int, float, bool, str)):
        return type(a) is type(b) and a == b
    if isinstance(a, SArr) and isinstance(b, SArr):
        return a.st is b.st and a.vmap is b.vmap
    return False


def hv_kind(h):
    return h.k if isinstance(h, SV) else None


def consts_in(h):
    if h is None:
        return []
    out = set()
    for t in value_terms(h):
        out |= {n for n in consts_of(t) if n.startswith("hv")}
    return out


def havoc(v, kind=None):
    if isinstance(v, (SV, int, float, bool)):
        k, t, n = lift(v)
        k = kind or k
        h = SV(k, z3.Const(fresh_name("hv"), sort_of(k)), py=is_py(v))
        return h, h
    if isinstance(v, SArr):
        a = havoc_like(v.axes, v.kind)
        return a, a
    if isinstance(v, tuple) and all(isinstance(x, (SV, int, float)) for x in v):
        hs = tuple(havoc(x)[0] for x in v)
        return hs, hs
    if v is None:
        raise Unsupported("loop variable changes from None")
    raise Unsupported("cannot generalise loop variable of type %s" % type(v).__name__)


def havoc_like(axes, kind, nan=False):
    n = sum(len(a.dims) for a in axes)
    f = z3.Function(fresh_name("hvA"), *([I] * n + [sort_of(kind)])) if n else z3.Const(fresh_name("hvA"), sort_of(kind))
    g = None
    if kind == "f":
        g = z3.Function(fresh_name("hvN"), *([I] * n + [z3.BoolSort()])) if n else None

    def fn(idx):
        a = [c for x in idx for c in x]
        return (f(*a) if a else f, g(*a) if g is not None and a else None)
    r = SArr(axes, Storage(fn, kind))
    return r


class HObj:
    pass


def havoc_obj(o, sample):
    h = HObj()
    h.names = set()
    if isinstance(o, Storage):
        h.kind = "st"
        h.init = o.reader()
        name = fresh_name("hvS")
        nname = fresh_name("hvT")
        h.fname, h.nname = name, nname
        cache = {}
        k = o.kind
        h.nan_used = False

        def fn(idx):
            a = [c for x in idx for c in x]
            if not a:
                return (z3.Const(name, sort_of(k)), None)
            key = len(a)
            if key not in cache:
                cache[key] = (z3.Function(name, *([I] * key + [sort_of(k)])),
                              z3.Function(nname, *([I] * key + [z3.BoolSort()])))
            f, g = cache[key]
            return (f(*a), g(*a) if (k == "f" and h.with_nan) else None)
        h.with_nan = False
        if k == "f":
            J = h_arity(o, h)["J"]
            h.with_nan = h.init(J)[1] is not None or (isinstance(sample, tuple) and sample[0](J)[1] is not None)
        h.fn = fn
        h.names = {name, nname}
        o.fn = fn
        o.memo = {}
        # nan-ness: keep flag only if the initial contents or writes can be nan
    elif isinstance(o, CArray):
        h.kind = "vec"
        list.__init__(o, [Poison("C array element not yet written in this iteration")] * len(o))
    elif isinstance(o, SList):
        h.kind = "list"
        h.prefix = None
        if isinstance(o, SeqList):
            if not o._seq.ax.plain():
                raise Unsupported("append to a filtered list")
            h.prefix, h.init = o._seq, []
            o.__class__ = SList
            o.__dict__.pop("_seq", None)
        else:
            h.init = list(o)
        h.rest = Rest(fresh_name("hvL"))
        if h.init and all(isinstance(x, (SV, int, float)) for x in h.init):
            kk = h.init[-1].k if isinstance(h.init[-1], SV) else lift(h.init[-1])[0]
            h.rest.last = SV(kk, z3.Const(fresh_name("hvE"), sort_of(kk)), py=True)
            h.names.add(str(h.rest.last.t))
        list.__init__(o, [h.rest])
    else:
        raise Unsupported("mutated object of type %s in loop" % type(o).__name__)
    return h


def merge_outs(nexts, st, M, hobj):
    n = len(nexts[0][2][1])
    mv = []
    for i in range(n):
        vs = [(zand(*o[0]), o[2][1][i]) for o in nexts]
        if all(v is vs[0][1] for _, v in vs):
            mv.append(vs[0][1])
            continue
        try:
            r = vs[-1][1]
            for c, v in reversed(vs[:-1]):
                r = merge_values(c, v, r)
        except Unsupported as e:
            r = Poison(str(e))
        mv.append(r)
    mw = {}
    for o in M:
        alts = []
        for conds, _, _, writes in nexts:
            alts.append((zand(*conds), writes.get(o)))
        mw[o] = alts
    return mv, mw


class LoopEnv:
    def __init__(self, ctx, ax, k, mark, hnames, lid):
        self.ctx, self.ax, self.k, self.mark, self.hnames, self.lid = ctx, ax, k, mark, hnames, lid

    def nohav_term(self, t):
        return not (consts_of(t) & self.hnames)

    def nohav(self, v, name):
        for t in value_terms(v):
            if not self.nohav_term(t):
                raise Unsupported("loop variable %s has no closed form" % name)

    def clean(self, t):
        """no havoc and no per-iteration fresh symbols other than k"""
        ks = {str(x) for x in self.k}
        for n in consts_of(t):
            if n in self.hnames:
                return False
            if fresh_no(n) >= self.mark and n not in ks and not n.startswith(("J!",)):
                return False
        return True

    def sub(self, t, j):
        return z3.substitute(t, *list(zip(self.k, j)))

    def step_obl(self, what, goal):
        base = len(self.ctx.pc)
        self.ctx.pc.append(self.ax.inrange(self.k))
        try:
            if self.ctx.probing and not self.ctx.valid(goal):
                raise Unsupported("loop %s: inductive step of %s not established" % (self.lid, what))
            self.ctx.oblige("loop:%s: inductive step of %s" % (self.lid, what), goal, {"loop": self.lid})
        finally:
            del self.ctx.pc[base:]

    def valid_step(self, goal):
        base = len(self.ctx.pc)
        self.ctx.pc.append(self.ax.inrange(self.k))
        try:
            return self.ctx.valid(goal)
        finally:
            del self.ctx.pc[base:]

    # -- scalars ---------------------------------------------------------
    def scalar_rule(self, name, kind, h, t, init, hn=None):
        """h: havoc term, t: new term, init: term -> closed form(before,last,count)"""
        ax, k = self.ax, self.k
        if t.eq(h):
            return lambda b, l, c: init
        if kind in ("i", "f"):
            d = z3.simplify(t - h, som=True)
            if not self.clean(d):
                d = ite_delta(t, h, kind)
            if d is not None and self.clean(d):
                self.step_obl(name, t == h + d)
                zero = z3.IntVal(0) if kind == "i" else z3.RealVal(0)
                if not _mentions(d, list(k)):
                    def cf(b, l, c):
                        if c is None:
                            return init + make_sum(kind, ax.dims, conj(ax.pred, b), lambda j: d)
                        cc = c if kind == "i" else z3.ToReal(c)
                        return init + cc * d
                    return cf
                return lambda b, l, c: init + make_sum(kind, ax.dims, conj(ax.pred, b), lambda j: self.sub(d, j))
            # running extremum
            for which in ("MAX", "MIN"):
                e = ext_operand(t, h)
                if e is not None and self.clean(e):
                    g = t == (zite(h >= e, h, e) if which == "MAX" else zite(h <= e, h, e))
                    if self.ctx.valid(g):
                        self.step_obl(name, g)

                        def cf(b, l, c, which=which, e=e):
                            m = make_ext(which, kind, ax.dims, conj(ax.pred, b), lambda j: self.sub(e, j))
                            ne = make_any(ax.dims, conj(ax.pred, b), lambda j: TRUE)
                            best = zite(init >= m, init, m) if which == "MAX" else zite(init <= m, init, m)
                            return zite(ne, best, init)
                        return cf
        if kind == "b":
            # monotone flag: t == h or e
            e = z3.simplify(z3.substitute(t, (h, FALSE)))
            if self.clean(e):
                g = t == zor(h, e)
                if self.ctx.valid(g):
                    self.step_obl(name, g)
                    return lambda b, l, c: zor(init, make_any(ax.dims, conj(ax.pred, b), lambda j: self.sub(e, j)))
                e2 = z3.simplify(z3.substitute(t, (h, TRUE)))
                g = t == zand(h, e2)
                if self.clean(e2) and self.ctx.valid(g):
                    self.step_obl(name, g)
                    return lambda b, l, c: zand(init, make_any(ax.dims, conj(ax.pred, b), lambda j: self.sub(e2, j), every=True))
        if self.clean(t) and ax.pred is None:
            # overwritten each iteration
            def cf(b, l, c):
                if l is None:
                    raise Unsupported("overwritten loop variable %s at early exit" % name)
                nz = zand(*[zi(d) > 0 for d in ax.dims])
                return zite(nz, self.sub(t, l), init)
            self.step_obl(name, TRUE)
            return cf
        return None

    def infer_var(self, name, init, h, new):
        if isinstance(new, Poison):
            return lambda b, l, c: Poison(name)
        if isinstance(h, SV):
            if not isinstance(new, (SV, int, float, bool)):
                return lambda b, l, c: Poison(name)
            kn, tn, nn = lift(new)
            ki, ti, ni = lift(init)
            if nn is not None or ni is not None:
                if nn is not None and not self.clean(nn):
                    return lambda b, l, c: Poison(name + " (nan state)")
            tn, ti = to_kind(tn, kn, h.k), to_kind(ti, ki, h.k)
            r = self.scalar_rule(name, h.k, h.t, tn, ti)
            if r is None:
                return lambda b, l, c: Poison(name)
            nanr = None
            if nn is not None or ni is not None:
                n0 = ni if ni is not None else FALSE
                n1 = nn if nn is not None else FALSE
                # accumulation: nan sticks
                nanr = lambda b, l, c: zor(n0, make_any(self.ax.dims, conj(self.ax.pred, b), lambda j: self.sub(n1, j)))  # noqa
            py = is_py(init) and is_py(new)
            return lambda b, l, c: SV(h.k, r(b, l, c), nanr(b, l, c) if nanr else None, py)
        if isinstance(h, SArr) and isinstance(new, SArr):
            J = tuple(a.fresh("J") for a in h.axes)
            I0 = as_sarr(init).reader()
            ht, hn = h.reader()(J)
            nt, nn = new.reader()(J)
            if not all(deq(a.size, b.size) for a, b in zip(h.axes, new.axes)):
                return lambda b, l, c: Poison(name)
            kinit = as_sarr(init).kind
            f = self.elem_rule(name, h.kind, J, ht, hn, to_kind(nt, new.kind, h.kind), nn,
                               lambda idx: castp(kinit, *I0(idx), h.kind))
            if f is None:
                return lambda b, l, c: Poison(name)
            axes = h.axes
            return lambda b, l, c: SArr(axes, Storage(f(b, l, c), h.kind))
        return lambda b, l, c: Poison(name)

    def infer_obj(self, o, h, alts):
        if h.kind == "st":
            return self.infer_storage(o, h, alts)
        if h.kind == "vec":
            return lambda b, l, c: list.__init__(o, [Poison("C array after a loop")] * len(o))
        return self.infer_list(o, h, alts)

    def storage_step(self, o, h, alts):
        k = o.kind
        # learn index structure from the initial contents by probing arity
        arity = h_arity(o, h)
        J = arity["J"]
        ht, hn = h.fn(J)

        def read(snap):
            if snap is None:
                return (ht, hn)
            return snap[0](J)
        vals = [(c, read(s)) for c, s in alts]
        t, n = vals[-1][1]
        for c, v in reversed(vals[:-1]):
            t, n = _ite2(c, v, (t, n))
        return k, J, ht, hn, t, n

    def writers(self, M, mw):
        """for every array written in the loop: the condition under which iteration k writes element J"""
        self.wcond, self.rcache = {}, {}
        for o in M:
            h = self.hobj[o]
            if h.kind != "st" or mw.get(o) is None:
                continue
            k, J, ht, hn, t, n = self.storage_step(o, h, mw[o])
            leaves = []
            split_ite(t, ht, TRUE, leaves)
            W = zor(*[c for c, v in leaves if v is not None])
            if self.clean(W):
                self.wcond[h.fname] = self.wcond[h.nname] = (W, [c for x in J for c in x], J, h)

    def resolve(self, t, hyp):
        """reads of elements no earlier iteration has written are reads of the initial contents"""
        todo, seen, st = {}, set(), [t]
        while st:
            e = st.pop()
            if e.get_id() in seen or z3.is_quantifier(e):
                continue
            seen.add(e.get_id())
            if e.num_args() and e.decl().name() in self.wcond:
                todo[e.get_id()] = e
            st.extend(e.children())
        sub = []
        for e in todo.values():
            W, Jf, J, h = self.wcond[e.decl().name()]
            key = (tuple(a.get_id() for a in e.children()), e.decl().name(), hyp.get_id())
            if key not in self.rcache:
                k2 = tuple(FInt("kp") for _ in self.k)
                w2 = z3.substitute(self.sub(W, k2), *list(zip(Jf, e.children())))
                ok = self.clean(zand(*[a == a for a in e.children()])) if e.num_args() else True
                goal = znot(zand(hyp, self.ax.inrange(k2), lexlt(k2, self.k), w2))
                ok = ok and self.valid_step(goal)
                if ok:
                    self.step_obl("initial contents read", goal)
                self.rcache[key] = (ok, e, hyp)
            if self.rcache[key][0]:
                args = list(e.children())
                idx, q = [], 0
                for x in J:
                    idx.append(tuple(args[q:q + len(x)]))
                    q += len(x)
                it, inn = h.init(tuple(idx))
                if e.decl().name() == h.nname:
                    it = inn if inn is not None else FALSE
                sub.append((e, it))
        return z3.substitute(t, *sub) if sub else t

    def infer_storage(self, o, h, alts):
        k, J, ht, hn, t, n = self.storage_step(o, h, alts)
        f = self.elem_rule("array", k, J, ht, hn, t, n, h.init)
        if f is None:
            raise Unsupported("array written in loop %s has no closed form" % self.lid)

        def apply(b, l, c):
            o.write(f(b, l, c))
        return apply

    def elem_rule(self, name, kind, J, ht, hn, t, n, init):
        r = self.elem_rule1(name, kind, J, ht, hn, t, n, init, False)
        return r if r is not None else self.elem_rule1(name, kind, J, ht, hn, t, n, init, True)

    def elem_rule1(self, name, kind, J, ht, hn, t, n, init, own):
        """closed form for array contents; returns g(before,last,count)->fn"""
        Jf = [c for x in J for c in x]
        self.curJ = J

        def atJ(term, idx):
            return z3.substitute(term, *list(zip(Jf, [c for x in idx for c in x])))
        ax, k = self.ax, self.k
        n1 = n if n is not None else FALSE
        hn1 = hn if hn is not None else FALSE
        # strip the flag of an untouched element
        # (a) accumulation
        if kind in ("i", "f"):
            d = z3.simplify(t - ht, som=True)
            if not self.clean(d):
                d = ite_delta(t, ht, kind, own)
            if d is not None and self.clean(d):
                if own and hn is not None and n is not None:
                    n1 = own_flag(n1, hn1)
                dn = z3.simplify(z3.substitute(n1, (hn1, FALSE))) if hn is not None else n1
                if not z3.is_false(dn) and self.clean(dn) and self.valid_step(znot(dn)):
                    dn = FALSE
                if self.clean(dn) and (hn is None or n is None or self.ctx.valid(n1 == zor(hn1, dn))):
                    self.step_obl(name, t == ht + d)

                    def g(b, l, c):
                        def fn(idx):
                            it, inn = init(idx)
                            s = make_sum(kind, ax.dims, conj(ax.pred, b), lambda j: self.sub(atJ(d, idx), j))
                            nn = make_any(ax.dims, conj(ax.pred, b), lambda j: self.sub(atJ(dn, idx), j)) if not z3.is_false(dn) else FALSE
                            nn = zor(inn if inn is not None else FALSE, nn)
                            return (it + s, None if z3.is_false(nn) else nn)
                        return fn
                    return g
        # (b) stores: If-tree with leaves either the old element or clean values
        leaves = []
        if not split_ite(t, ht, TRUE, leaves):
            return None
        W = zor(*[c for c, v in leaves if v is not None])
        if z3.is_false(W):
            return lambda b, l, c: init
        rmw = False
        if getattr(self, "wcond", None) and self.clean(W) and not all(v is None or self.clean(v) for c, v in leaves):
            leaves = [(c, v if v is None else self.resolve(v, c)) for c, v in leaves]
            n1 = self.resolve(n1, W)
            rmw = True
        V = None
        for c, v in leaves:
            if v is None:
                continue
            V = v if V is None else zite(c, v, V)
        if not (self.clean(W) and self.clean(V)):
            return None
        # nan flag: value when written
        Vn = n1
        if hn is not None:
            Vn = z3.simplify(z3.substitute(n1, (hn1, FALSE)))
            # on written cells flag must not depend on the old flag
            Vn2 = z3.simplify(z3.substitute(n1, (hn1, TRUE)))
            if not Vn.eq(Vn2) and not self.ctx.valid(zimp(W, Vn == Vn2)):
                return None
        if not self.clean(Vn):
            return None
        if not rmw:
            self.step_obl(name, t == zite(W, V, ht))
        sol = None
        for cand in solve_index(W, k, Jf)[:4]:
            if self.valid_step(zimp(W, zand(*[a == b for a, b in zip(k, cand)]))):
                sol = cand
                break
        if sol is None and not own and kind in ("i", "f"):
            d = ite_delta(t, ht, kind, True)
            if d is not None and self.clean(d):      # a cell several iterations add to
                return None
        if sol is None:
            # same value every iteration?  membership only
            if not _mentions(V, list(k)) and not _mentions(Vn, list(k)):
                def g(b, l, c):
                    def fn(idx):
                        w = make_any(ax.dims, conj(ax.pred, b), lambda j: self.sub(atJ(W, idx), j))
                        return _ite2(w, (atJ(V, idx), atJ(Vn, idx)), init(idx))
                    return fn
                return g
            return self.last_write(name, kind, W, V, Vn, atJ, init)

        # uniqueness: W(j,J) => j == sol(J)
        self.step_obl(name + " (unique writer)", zimp(W, zand(*[a == b for a, b in zip(k, sol)])))

        def g(b, l, c):
            def fn(idx):
                js = tuple(z3.simplify(atJ(s, idx)) for s in sol)
                w = zand(ax.inrange(js), b(js), self.sub(atJ(W, idx), js))
                w = z3.simplify(w) if not z3.is_true(w) else w
                it, inn = init(idx)
                v = (self.sub(atJ(V, idx), js), self.sub(atJ(Vn, idx), js))
                r = _ite2(w, (v[0], None if z3.is_false(v[1]) else v[1]), (it, inn))
                return r
            return fn
        return g

    def last_write(self, name, kind, W, V, Vn, atJ, init):
        """general last-writer-wins: lastw(J, bound, outer...) is the last
        iteration before `bound` writing element J"""
        ax, k = self.ax, self.k
        if not ax.plain():
            return None
        from .solve import DYN_AX
        Jn = self.curJ
        Jf = [c for x in Jn for c in x]
        own = {str(x) for x in k} | {str(x) for x in Jf}
        ext = [c for c in const_terms([W]) if "!" in c.decl().name() and str(c) not in own]
        lw = z3.Function(fresh_name("lastw"), *([I] * len(Jf) + [I] + [c.sort() for c in ext] + [I]))
        bound = FInt("lb")
        kv = FInt("lk")
        wt = zand(kv >= 0, kv < zi(ax.dims[0]), kv < bound, self.sub(W, (kv,)))
        formals = Jf + [bound] + ext

        def axiom(app, others):
            sub = list(zip(formals, [app.arg(i) for i in range(app.num_args())]))
            q = FInt("lq")
            w = z3.substitute(wt, *sub)
            wq = z3.substitute(w, (kv, q))
            return [zimp(z3.Exists([q], wq), z3.substitute(w, (kv, app))), z3.ForAll([q], zimp(wq, q <= app))]
        DYN_AX[lw.name()] = axiom

        def g(b, l, c):
            if c is None:
                raise Unsupported("last-write without iteration bound")

            def fn(idx):
                flat = [x for cc in idx for x in cc]
                some = make_any(ax.dims, conj(ax.pred, b), lambda j: self.sub(atJ(W, idx), j))
                js = (lw(*(flat + [c] + ext)),)
                return _ite2(some, (self.sub(atJ(V, idx), js), self.sub(atJ(Vn, idx), js)), init(idx))
            return fn
        return g

    # -- lists -----------------------------------------------------------
    def infer_chunk(self, o, h, ch):
        """each iteration appends a run of elements whose length does not depend on the iteration"""
        ax, k = self.ax, self.k
        if h.init or not (ax.plain() and ch.ax.plain()):
            raise Unsupported("symbolic append to a non-empty list")
        probe = [z3.Int(fresh_name("cp")) for _ in ch.ax.dims]
        v = ch.fn(tuple(probe))
        for d in ch.ax.dims:
            if not self.clean(zi(d)):
                raise Unsupported("appended length depends on loop state")
            if any(z3.simplify(zi(d)).eq(x) for x in k) or not z3.substitute(zi(d), *[(x, z3.IntVal(0)) for x in k]).eq(zi(d)):
                raise Unsupported("appended length varies")
        self.nohav(v, "list element")
        self.step_obl("list append", TRUE)
        nax = Ax(tuple(ax.dims) + tuple(ch.ax.dims))
        nk = len(ax.dims)

        def apply(b, l, c):
            if l is None:
                raise Unsupported("early exit while appending")
            seq = SSeq(None, lambda comps: subst_value(v, list(zip(list(k) + probe, comps))), ax=nax)
            o._log()
            list.__init__(o, [])
            o.__class__ = make_proxy(o, seq)
        return apply

    def recurrence(self, h, last, v):
        """appended element is a function of the previous last element: e(0) = init[-1], e(q+1) = v(e(q))"""
        from .solve import DYN_AX
        only = {str(last.t)}
        for n in consts_of(v.t):
            if (n in self.hnames and n not in only) or (fresh_no(n) >= self.mark and n not in only and n not in {str(x) for x in self.k}):
                raise Unsupported("appended element depends on other loop state")
        if v.nan is not None or v.k != last.k:
            raise Unsupported("appended element changes type")
        self.step_obl("list append (recurrence)", TRUE)
        k0, t0, _ = lift(h.init[-1])
        e0 = to_kind(t0, k0, v.k)
        F = z3.Function(fresh_name("rec"), I, sort_of(v.k))
        kk = self.k[0]

        def axiom(app, others):
            a = app.arg(0)
            pa = z3.simplify(a - 1)
            return [zimp(a == 0, app == e0), zimp(a >= 1, app == z3.substitute(v.t, (last.t, F(pa)), (kk, pa)))]
        DYN_AX[F.name()] = axiom
        return lambda q: SV(v.k, F(q), py=v.py)

    def infer_list(self, o, h, alts):
        ax, k = self.ax, self.k
        apps = []
        for c, snap in alts:
            if snap is None:
                apps.append((c, []))
                continue
            if not snap or snap[0] is not h.rest or any(isinstance(x, Rest) for x in snap[1:]):
                raise Unsupported("list modified other than by append in loop %s" % self.lid)
            apps.append((c, snap[1:]))
        n = max(len(a) for _, a in apps)
        if n == 0:
            return lambda b, l, c: None
        if n == 1 and len(apps) == 1 and isinstance(apps[0][1][0], Chunk):
            return self.infer_chunk(o, h, apps[0][1][0])
        if any(isinstance(x, Chunk) for _, a in apps for x in a):
            raise Unsupported("conditional or mixed symbolic append")
        if n > 1:
            raise Unsupported("several appends per iteration")
        have = [(c, a[0]) for c, a in apps if a]
        v = have[-1][1]
        for c, w in reversed(have[:-1]):
            v = merge_values(c, w, v)
        pc = zor(*[c for c, _ in have]) if len(have) < len(apps) else TRUE
        if not self.clean(pc):
            raise Unsupported("conditional append depends on loop state")
        rec = None
        try:
            self.nohav(v, "list element")
            check_fresh(v, self.mark, k)
            hav = False
        except Unsupported:
            last = getattr(h.rest, "last", None)
            if last is not None and isinstance(v, SV) and ax.plain() and z3.is_true(pc):
                rec = self.recurrence(h, last, v)
                hav = False
            elif h.init or not ax.plain():
                raise
            else:
                hav = True
        self.step_obl("list append", TRUE)
        if h.init and not (n == 1 and z3.is_true(pc) and ax.plain()):
            raise Unsupported("conditional append to a non-empty list")
        init = h.init

        def apply(b, l, c):
            p0 = ax.pred
            if init and isinstance(init[0], Rest):
                if l is None or len(init) > 1:
                    raise Unsupported("early exit while appending")
                o._log()
                list.__init__(o, list(init) + [Chunk(ax, lambda comps: subst_value(v, list(zip(k, comps))))])
                return
            if init:
                m = len(init)
                if l is None:
                    raise Unsupported("early exit while appending")

                def fn(comps):
                    i = comps[0]
                    r = subst_value(v, [(k[0], z3.simplify(i - m))]) if rec is None else rec(z3.simplify(i - m + 1))
                    for q in range(m - 1, -1, -1):
                        ci = cint(i)
                        if ci is not None:
                            if ci == q:
                                return init[q]
                        else:
                            r = merge_values(i == q, init[q], r)
                    return r
                seq = SSeq(None, fn, ax=Ax((dim(zi(ax.dims[0]) + m),)))
            else:
                if ax.plain() and z3.is_true(pc) and l is None and c is not None:
                    nax = Ax((dim(c),))
                else:
                    def pred(comps):
                        return zand(p0(comps) if p0 else TRUE, b(comps), self.sub(pc, comps))
                    nax = ax if (z3.is_true(pc) and l is not None) else Ax(ax.dims, pred)
                if hav:
                    seq = SSeq(None, lambda comps: self.rerun(o, comps), ax=nax)
                else:
                    seq = SSeq(None, lambda comps: subst_value(v, list(zip(k, comps))), ax=nax)
                if h.prefix is not None:
                    seq = concat_seq(h.prefix, seq)
            o._log()
            list.__init__(o, [])
            o.__class__ = make_proxy(o, seq)
        return apply


def concat_seq(a, b):
    if not (a.ax.plain() and b.ax.plain()):
        raise Unsupported("concatenation of filtered sequences")
    na = zi(a.ax.dims[0])

    def fn(c):
        i = c[0]
        cond = z3.simplify(i < na)
        if z3.is_true(cond):
            return a.fn(c)
        if z3.is_false(cond):
            return b.fn((z3.simplify(i - na),))
        return merge_values(cond, a.fn(c), b.fn((z3.simplify(i - na),)))
    return SSeq(None, fn, ax=Ax((dim(na + zi(b.ax.dims[0])),)))


_PROXY = {}


def make_proxy(o, seq):
    """turn the list object into a symbolic sequence in place"""
    o._seq = seq
    return SeqList


class CArray(SList):
    """C array of fixed length; its contents are not followed from one iteration of a symbolic loop to the next"""


class SeqList(SList):
    """an SList whose contents became a symbolic sequence"""

    def slen(self):
        return self._seq.slen()

    def __len__(self):
        return len(self._seq)

    def __getitem__(self, k):
        return self._seq[k]

    def __iter__(self):
        return iter(self._seq)

    def append(self, x):
        self._log()
        self._seq = concat_seq(self._seq, SSeq(None, lambda c: x, ax=Ax((1,))))

    def extend(self, x):
        raise Unsupported("extend after symbolic loop")

    def snapshot(self):
        return ("seq", self._seq)

    def restore(self, s):
        if isinstance(s, tuple) and s[0] == "seq":
            self._seq = s[1]
        else:
            self.__class__ = SList
            self.__dict__.pop("_seq", None)
            list.__init__(self, s)


def conj(p, b):
    if p is None:
        return b if b is not None else None
    if b is None:
        return p
    return lambda j: zand(p(j), b(j))


def split_ite(t, ht, cond, leaves):
    """decompose If-tree into (cond, leaf) with leaf None when untouched"""
    if t.eq(ht):
        leaves.append((cond, None))
        return True
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = t.children()
        return split_ite(a, ht, zand(cond, c), leaves) and split_ite(b, ht, zand(cond, znot(c)), leaves)
    leaves.append((cond, t))
    return True


def ite_delta(t, h, kind, own=False):
    """t - h with If-branches pushed outwards"""
    if t.eq(h):
        return z3.IntVal(0) if kind == "i" else z3.RealVal(0)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = t.children()
        da, db = ite_delta(own_cell(c, a, h) if own else a, h, kind, own), ite_delta(b, h, kind, own)
        if da is None or db is None:
            return None
        return zite(c, da, db)
    return z3.simplify(t - h, som=True)


def own_flag(t, h):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = t.children()
        return z3.If(c, own_flag(own_cell(c, a, h), h), own_flag(b, h))
    return t


def own_cell(c, a, h):
    """reads of the cell that the branch condition says is the cell h, as h itself"""
    if not (z3.is_app(h) and h.num_args()):
        return a
    eqs = set()
    for q in conjuncts(c):
        if z3.is_eq(q):
            x, y = q.children()
            eqs |= {(x.get_id(), y.get_id()), (y.get_id(), x.get_id())}
    sub, seen, st = [], set(), [a]
    while st:
        e = st.pop()
        if e.get_id() in seen or z3.is_quantifier(e) or not z3.is_app(e):
            continue
        seen.add(e.get_id())
        if e.num_args() and e.decl().eq(h.decl()) and not e.eq(h) and \
                all(x.eq(y) or (x.get_id(), y.get_id()) in eqs for x, y in zip(e.children(), h.children())):
            sub.append((e, h))
        st.extend(e.children())
    return z3.substitute(a, *sub) if sub else a


def ext_operand(t, h):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = t.children()
        if a.eq(h):
            return b
        if b.eq(h):
            return a
    return None


def conjuncts(t):
    if z3.is_and(t):
        for c in t.children():
            yield from conjuncts(c)
    else:
        yield t


def solve_index(W, k, Jf):
    """candidate solutions of W for the loop index, each component a term over
    J read off the equalities in W; the caller proves which one (if any) is
    the unique writer"""
    W = z3.simplify(W)
    sol = [None] * len(k)
    cs = list(conjuncts(W))
    if z3.is_or(W):
        out = []
        for d in W.children():
            for s in solve_index(d, k, Jf):
                if not any(all(a.eq(b) for a, b in zip(s, o)) for o in out):
                    out.append(s)
        return out
    for n, c in enumerate(cs):
        if z3.is_eq(c) and c.arg(0).sort() == I and _mentions(c, list(k)):
            for a, b in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                if z3.is_app_of(b, z3.Z3_OP_ITE):
                    rest = cs[:n] + cs[n + 1:]
                    out = solve_index(z3.And(a == b.arg(1), *rest), k, Jf)
                    return out + [s for s in solve_index(z3.And(a == b.arg(2), *rest), k, Jf)]
    for c in cs:
        if z3.is_eq(c) and c.arg(0).sort() == I:
            a, b = c.arg(0), c.arg(1)
            for j, kj in enumerate(k):
                if sol[j] is not None:
                    continue
                d = z3.simplify(a - b, som=True)
                for sgn in (1, -1):
                    e = z3.simplify(kj - d if sgn == 1 else kj + d, som=True)
                    if not _mentions(e, list(k)):
                        sol[j] = e
                        break
                if sol[j] is None:
                    # m*k + c == J  ->  (J-c) div m for constant m
                    for m in (2, 3, 4, 5, 6):
                        for sgn in (1, -1):
                            e = z3.simplify(m * kj - d if sgn == 1 else m * kj + d, som=True)
                            if not _mentions(e, list(k)):
                                sol[j] = e / m
                                break
                        if sol[j] is not None:
                            break
    if all(s is not None for s in sol):
        return [sol]
    out = []
    for c in cs:
        if z3.is_or(c):
            out += solve_index(c, k, Jf)
    return out


def h_arity(o, h):
    """determine component structure of a storage index"""
    shp = getattr(o, "name", None)
    st = STRUCT.get(o.oid)
    if st is None:
        raise Unsupported("unknown storage structure")
    J = tuple(tuple(FInt("J") for _ in range(n)) for n in st)
    return {"J": J}


STRUCT = {}
from .arr import ROOT  # noqa
_orig_init = SArr.__init__


def _init(self, axes, st, vmap=None, inv=None):
    _orig_init(self, axes, st, vmap, inv)
    if vmap is None and st.oid not in STRUCT:
        STRUCT[st.oid] = tuple(len(a.dims) for a in self.axes)
        ROOT[st.oid] = self.axes


SArr.__init__ = _init
