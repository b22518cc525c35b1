"""Obligation discharge: lazy axiom instantiation + z3 (quantifier free)."""
import itertools
import time

import z3

from .core import (B, FALSE, I, R, TRUE, CTX, FInt, fresh_name, uf, zand, zimp, znot, zor)

STATS = {"queries": 0, "time": 0.0}


def children(e):
    return e.children()


def is_special(e):
    if z3.is_quantifier(e):
        return not e.is_lambda()
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
        n = e.decl().name()
        return n.startswith(("SUM", "MAX#", "MIN#"))
    return False


def sumfun(kind, arity):
    s = z3.ArraySort(*([I] * arity + [R if kind == "f" else I]))
    return z3.Function("SUM%s%d" % (kind, arity), s, R if kind == "f" else I)


def extfun(which, kind, arity):
    ds = z3.ArraySort(*([I] * arity + [B]))
    s = z3.ArraySort(*([I] * arity + [R if kind == "f" else I]))
    return z3.Function("%s#%s%d" % (which, kind, arity), ds, s, R if kind == "f" else I)


def lam_body(lam, args):
    """instantiate a lambda at args"""
    if z3.is_quantifier(lam) and lam.is_lambda():
        return z3.substitute_vars(lam.body(), *reversed(list(args)))
    return z3.Select(lam, *args)


PI = z3.Real("pi")


_NORM = {}


def norm_arg(t):
    """canonical form of a function argument (so that congruence is syntactic)"""
    if t.num_args() == 0 or z3.is_quantifier(t):
        return t
    k = t.get_id()
    r = _NORM.get(k)
    if r is None:
        r = (z3.simplify(t, som=True), t)
        _NORM[k] = r
        _NORM[r[0].get_id()] = (r[0], r[0])
    return r[0]


def ite_sum_conds(goal):
    """conditions of If-terms outside binders with a sum in a branch"""
    out, seen, st = [], set(), [goal]
    while st:
        e = st.pop(0)
        if e.get_id() in seen or z3.is_quantifier(e):
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and e.sort() != B and (mentions_special(e.arg(1)) or mentions_special(e.arg(2))):
            if not any(e.arg(0).eq(x) for x in out):
                out.append(e.arg(0))
        st.extend(e.children())
    return out


class Abs:
    """abstraction state for one query"""

    def __init__(self):
        self.cache = {}
        self.specials = []     # (term, const)
        self.apps = {}         # id -> ground app (UF)
        self.keep = []
        self.int_consts = {}
        self.has_pi = False
        self.gen = 0
        self.appgen = {}
        self.lean = False
        self.goal_ids = set()

    def rw(self, e):
        key = e.get_id()
        r = self.cache.get(key)
        if r is not None:
            return r
        r = self._rw(e)
        self.cache[key] = r
        self.keep.append(e)
        return r

    def _rw(self, e):
        if z3.is_quantifier(e):
            if e.is_lambda():
                return e
            c = z3.Const(fresh_name("q"), B)
            self.specials.append((e, c))
            return c
        if is_special(e):
            c = z3.Const(fresh_name("s"), e.sort())
            self.specials.append((e, c))
            return c
        if e.num_args() == 0:
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if e.sort() == I:
                    if e.get_id() not in self.int_consts:
                        self.int_consts[e.get_id()] = e
                        self.appgen[e.get_id()] = self.gen
                if e.eq(PI):
                    self.has_pi = True
            return e
        ch = e.children()
        nch = [self.rw(c) for c in ch]
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nch = [norm_arg(c) for c in nch]
        if any(not a.eq(b) for a, b in zip(ch, nch)):
            arr = (z3.Ast * len(nch))(*[c.as_ast() for c in nch])
            e = z3.z3._to_expr_ref(z3.Z3_update_term(e.ctx_ref(), e.as_ast(), len(nch), arr), e.ctx)
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if e.get_id() not in self.apps:
                self.apps[e.get_id()] = e
                self.appgen[e.get_id()] = self.gen
        return e


_AX_CACHE = {}


def register_axiom(name, fn):
    """fn(app, all_apps_of_same_name) -> list of facts"""
    _AX_CACHE[name] = fn


def _ax_sqrt(a, others):
    x = a.arg(0)
    return [z3.Implies(x >= 0, z3.And(a >= 0, a * a == x)), a >= 0]


def _ax_trig(a, others):
    x = a.arg(0)
    s, c = uf("sin")(x), uf("cos")(x)
    return [s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1]


def _ax_tan(a, others):
    x = a.arg(0)
    s, c = uf("sin")(x), uf("cos")(x)
    return [z3.Implies(c != 0, a * c == s)]


def _ax_arcsin(a, others):
    """arcsin, and its uniqueness: x == sin(y), |y| <= pi/2 => arcsin(x) == y for every sine met so far"""
    x = a.arg(0)
    out = []
    st, seen = [x], set()
    while st:
        e = st.pop()
        if e.get_id() in seen or z3.is_quantifier(e):
            continue
        seen.add(e.get_id())
        if e.num_args() == 1 and e.decl().name() == "sin":
            y = e.arg(0)
            out.append(z3.Implies(z3.And(x == e, y >= -PI / 2, y <= PI / 2), a == y))
        st.extend(e.children())
    return out + _ax_arcsin0(a, others)


def _ax_arcsin0(a, others):
    x = a.arg(0)
    return [z3.Implies(z3.And(x >= -1, x <= 1), z3.And(uf("sin")(a) == x, uf("cos")(a) >= 0, a >= -PI / 2, a <= PI / 2))]


def _ax_arctan(a, others):
    x = a.arg(0)
    return [uf("cos")(a) > 0, uf("sin")(a) == x * uf("cos")(a), a > -PI / 2, a < PI / 2]


def _ax_arctan2(a, others):
    y, x = a.arg(0), a.arg(1)
    r = uf("sqrt")(x * x + y * y)
    return [a > -PI, a <= PI, r * uf("cos")(a) == x, r * uf("sin")(a) == y,
            z3.Implies(z3.And(y == 0, x >= 0), a == 0), z3.Implies(z3.And(y == 0, x < 0), a == PI),
            z3.Implies(y > 0, a > 0), z3.Implies(y < 0, a < 0)]


def _ax_exp(a, others):
    x = a.arg(0)
    out = [a > 0, z3.Implies(x == 0, a == 1), z3.Implies(x > 0, a > 1), z3.Implies(x < 0, a < 1)]
    return out


def _ax_log(a, others):
    x = a.arg(0)
    return [z3.Implies(x > 0, uf("exp")(a) == x)]


def _ax_pow2(a, others):
    n = a.arg(0)
    out = [z3.Implies(n >= 0, a >= 1), z3.Implies(n >= 0, a >= n + 1), z3.Implies(n == 0, a == 1), z3.Implies(n == 1, a == 2),
           z3.Implies(n == 2, a == 4)]
    for o in others:
        if o.eq(a):
            continue
        m = o.arg(0)
        d = z3.simplify(n - m)
        if z3.is_int_value(d) and 0 < d.as_long() <= 4:
            out.append(z3.Implies(m >= 0, a == (2 ** d.as_long()) * o))
        else:
            out.append(z3.Implies(z3.And(m >= 0, n > m), a >= 2 * o))
    return out


for _n, _f in [("sqrt", _ax_sqrt), ("sin", _ax_trig), ("cos", _ax_trig), ("tan", _ax_tan), ("arcsin", _ax_arcsin),
               ("arctan", _ax_arctan), ("arctan2", _ax_arctan2), ("exp", _ax_exp), ("log", _ax_log),
               ("pow2", _ax_pow2)]:
    register_axiom(_n, _f)
register_axiom("spacing", lambda a, others: [z3.Implies(a.arg(0) >= 0, a > 0), z3.Implies(a.arg(0) < 0, a < 0)])

# axioms that contracts / shims attach to a particular uninterpreted function
# decl-name -> fn(app, others)->facts
DYN_AX = {}


def unify_affine(pat, ground, nv, off=0):
    """unify_affine0, with off = number of variables bound by binders nested between the quantifier and pat"""
    u = unify_affine0(pat, ground, nv)
    if off and u is not None and u is not True:
        if u[0] < off or has_var(u[1]):
            return None
        return (u[0] - off, u[1])
    return u


def unify_affine0(pat, ground, nv):
    """pat: term over de Bruijn Vars (index expression), ground: term.
    returns (var_index, term) if pat == Var(v) + c  -> v = ground - c ;
    True when pat is var-free and equal; None otherwise."""
    if z3.is_var(pat):
        return (z3.get_var_index(pat), ground)
    if z3.is_app(pat) and pat.decl().kind() == z3.Z3_OP_MUL and pat.num_args() == 2 and z3.is_int_value(pat.arg(0)) and z3.is_var(pat.arg(1)):
        t = int_div(ground, pat.arg(0).as_long())
        return None if t is None else (z3.get_var_index(pat.arg(1)), t)
    if z3.is_app(pat) and pat.decl().kind() == z3.Z3_OP_ADD:
        vs = [c for c in pat.children() if has_var(c)]
        if len(vs) == 1 and z3.is_var(vs[0]):
            rest = [c for c in pat.children() if not has_var(c)]
            s = rest[0]
            for r in rest[1:]:
                s = s + r
            return (z3.get_var_index(vs[0]), ground - s)
        if len(vs) == 1 and z3.is_app(vs[0]) and vs[0].decl().kind() == z3.Z3_OP_MUL and vs[0].num_args() == 2 \
                and z3.is_int_value(vs[0].arg(0)) and z3.is_var(vs[0].arg(1)):
            rest = [c for c in pat.children() if not has_var(c)]
            s = rest[0]
            for r in rest[1:]:
                s = s + r
            t = int_div(ground - s, vs[0].arg(0).as_long())
            return None if t is None else (z3.get_var_index(vs[0].arg(1)), t)
        return None
    if z3.is_app(pat) and pat.decl().kind() == z3.Z3_OP_SUB and pat.num_args() == 2:
        a, b = pat.arg(0), pat.arg(1)
        if z3.is_var(a) and not has_var(b):
            return (z3.get_var_index(a), ground + b)
        return None
    if not has_var(pat):
        return True
    return None


def int_div(t, k):
    """t / k when every coefficient of the linear term t is divisible by k"""
    t = z3.simplify(t, som=True)
    parts = t.children() if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ADD else [t]
    out = []
    for p in parts:
        if z3.is_int_value(p):
            if p.as_long() % k:
                return None
            out.append(z3.IntVal(p.as_long() // k))
        elif z3.is_app(p) and p.decl().kind() == z3.Z3_OP_MUL and z3.is_int_value(p.arg(0)) and p.num_args() == 2:
            if p.arg(0).as_long() % k:
                return None
            out.append(z3.IntVal(p.arg(0).as_long() // k) * p.arg(1))
        else:
            return None
    r = out[0]
    for o in out[1:]:
        r = r + o
    return z3.simplify(r)


def exact_div(a, n):
    """a / n when a is a product with a constant factor divisible by n"""
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_MUL:
        for k, f in enumerate(a.children()):
            if z3.is_int_value(f) and f.as_long() % n == 0:
                r = z3.IntVal(f.as_long() // n)
                for q, g in enumerate(a.children()):
                    if q != k:
                        r = r * g
                return z3.simplify(r)
    return None


_HV = {}


def has_var(e):
    k = e.get_id()
    r = _HV.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    if z3.is_var(e):
        v = True
    elif z3.is_quantifier(e):
        v = True
    else:
        v = any(has_var(c) for c in e.children())
    _HV[k] = (e, v)
    return v


def pat_apps(body):
    """UF apps containing Vars inside a quantifier body, with the number of variables bound in between"""
    hit = _PA.get(body.get_id())
    if hit is not None and hit[0].eq(body):
        return hit[1]
    out, seen = [], set()

    def go(e, off):
        if (e.get_id(), off) in seen:
            return
        seen.add((e.get_id(), off))
        if z3.is_quantifier(e):
            if not e.is_lambda():
                go(e.body(), off + e.num_vars())
            return
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0 and not is_special(e):
                if any(has_var(c) for c in e.children()):
                    out.append((e, off))
            for c in e.children():
                go(c, off)
    go(body, 0)
    _PA[body.get_id()] = (body, out)
    return out


_PA = {}


_MS = {}


def mentions_special(e):
    """a SUM/MAX/MIN application (whose meaning native z3 does not know) inside e"""
    k = e.get_id()
    r = _MS.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    if z3.is_quantifier(e):
        v = e.is_lambda() or mentions_special(e.body())
    else:
        v = (not z3.is_quantifier(e) and is_special(e)) or any(mentions_special(c) for c in e.children())
    _MS[k] = (e, v)
    return v


def linear_top(f):
    """f introduces neither products of terms nor further function applications"""
    def go(e, inside):
        if z3.is_quantifier(e):
            return False
        if e.num_args() == 0:
            return True
        k = e.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            return True
        if k == z3.Z3_OP_MUL and sum(not _num(c) for c in e.children()) > 1:
            return False
        if k in (z3.Z3_OP_DIV, z3.Z3_OP_POWER) and not _num(e.arg(1)):
            return False
        return all(go(c, inside) for c in e.children())
    return go(f, False)


def _num(e):
    return z3.is_rational_value(e) or z3.is_int_value(e) or (z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_TO_REAL, z3.Z3_OP_UMINUS) and _num(e.arg(0)))


def has_quant(e):
    return z3.is_quantifier(e) or any(has_quant(c) for c in e.children())


def _leaves(t):
    out, st = [], [t]
    while st:
        e = st.pop()
        if e.num_args() == 0:
            out.append(e)
        else:
            st.extend(e.children())
    return out


MBDBG = False


def _is01(b):
    if z3.is_int_value(b) or z3.is_rational_value(b):
        return str(b) in ("0", "1")
    return z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE and _is01(b.arg(1)) and _is01(b.arg(2))


def count_facts(assertions):
    """facts about counts (sums of a 0/1 body): S >= 0, S > 0 iff some index is counted"""
    out, seen, st = [], set(), list(assertions)
    while st:
        e = st.pop()
        if e.get_id() in seen or z3.is_quantifier(e):
            continue
        seen.add(e.get_id())
        st.extend(e.children())
        if z3.is_app(e) and e.num_args() == 1 and e.decl().name().startswith("SUM") and z3.is_quantifier(e.arg(0)):
            lam = e.arg(0)
            if not _is01(lam.body()):
                continue
            vs = [FInt("ct") for _ in range(lam.num_vars())]
            b = lam_body(lam, vs)
            out += [e >= 0, z3.Implies(e > 0, z3.Exists(vs, b > 0)), z3.ForAll(vs, z3.Implies(b > 0, e >= 1))]
    return out


def _count_atom(a):
    """(count term, bool) for atoms equivalent to count == 0 (False) / count > 0 (True)"""
    def cnt(e):
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL:
            e = e.arg(0)
        return e if z3.is_app(e) and e.num_args() == 1 and e.decl().name().startswith("SUM") and z3.is_quantifier(e.arg(0)) \
            and _is01(e.arg(0).body()) else None

    def num(e):
        return e.as_long() if z3.is_int_value(e) else (e.as_fraction() if z3.is_rational_value(e) else None)
    if not z3.is_app(a) or a.num_args() != 2:
        return None
    x, y, op = a.arg(0), a.arg(1), a.decl().kind()
    flip = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT}
    c, n = cnt(x), num(y)
    if c is None:
        c, n, op = cnt(y), num(x), flip.get(op, op)
    if c is None or n is None:
        return None
    if (op == z3.Z3_OP_EQ and n == 0) or (op == z3.Z3_OP_LE and n == 0) or (op == z3.Z3_OP_LT and n == 1):
        return c, False
    if (op in (z3.Z3_OP_GT, z3.Z3_OP_DISTINCT) and n == 0) or (op == z3.Z3_OP_GE and n == 1):
        return c, True
    return None


def count_to_exists(t):
    """rewrite `count == 0` / `count > 0` into (no) counted index exists"""
    subs, seen, st = [], set(), [t]
    while st:
        e = st.pop()
        if e.get_id() in seen or not z3.is_app(e):
            continue
        seen.add(e.get_id())
        if e.sort() == z3.BoolSort():
            r = _count_atom(e)
            if r is not None:
                lam = r[0].arg(0)
                vs = [FInt("ct") for _ in range(lam.num_vars())]
                ex = z3.Exists(vs, z3.simplify(lam_body(lam, vs) > 0))
                subs.append((e, ex if r[1] else z3.Not(ex)))
                continue
        st.extend(e.children())
    return z3.substitute(t, *subs) if subs else t


def sqrt_compare(assertions):
    """for every comparison of a square root with a term: sqrt(x) < t <=> x < t^2 where x, t >= 0 (an instance of a theorem)"""
    out, seen, st = [], set(), list(assertions)
    while st:
        e = st.pop()
        if e.get_id() in seen or z3.is_quantifier(e) or not z3.is_app(e):
            continue
        seen.add(e.get_id())
        if z3.is_bool(e) and e.num_args() == 2 and e.decl().kind() in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE):
            for a, b in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                if a.num_args() == 1 and a.decl().name() == "sqrt" and a.sort() == b.sort():
                    x = a.arg(0)
                    out.append(z3.Implies(z3.And(x >= 0, b >= 0), z3.And((a < b) == (x < b * b), (a <= b) == (x <= b * b))))
                    def terms(t):
                        if t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_TO_REAL):
                            return [y for c in t.children() for y in terms(c)]
                        return [t]
                    for t in terms(x):
                        if t.decl().kind() == z3.Z3_OP_MUL and t.num_args() == 2 and t.arg(0).eq(t.arg(1)):
                            out.append(t >= 0)
        st.extend(e.children())
    return out


class Prover:
    def __init__(self, timeout=8000):
        self.timeout = timeout
        self.seedctr = itertools.count()
        self.fcache = {}
        self.lemma_cache = {}

    # ------------------------------------------------------------------
    def feasible(self, pc, extra):
        key = (tuple(p.get_id() for p in pc), extra.get_id())
        if key in self.fcache:
            return self.fcache[key][0]
        r, _ = self.check_mb(list(pc) + [extra], timeout=1500, maxit=6)
        res = r != "unsat"
        self.fcache[key] = (res, list(pc), extra)
        return res

    def valid(self, pc, goal, timeout=None):
        key = ("v", tuple(p.get_id() for p in pc), goal.get_id())
        if key in self.fcache:
            return self.fcache[key][0]
        r, _ = self.check_mb(list(pc) + [znot(goal)], timeout or 3000)
        if r == "unknown" or (r == "sat" and self.mb_sums):
            r, _ = self.check(list(pc) + [znot(goal)], timeout=timeout or 3000, rounds=3)
        self.fcache[key] = (r == "unsat", list(pc), goal)
        return r == "unsat"

    # ------------------------------------------------------------------
    def check(self, assertions, timeout=None, rounds=4, sums=True, minst=400, depth=0, hints=(), want_model=False, native=False, lean=False):
        """returns (unsat|sat|unknown, model)"""
        t0 = time.time()
        STATS["queries"] += 1
        timeout = timeout or self.timeout
        mb = None
        sq = sqrt_compare(assertions)
        if sq:
            assertions = sq + list(assertions)
        if native:
            r, m = self.check_mb(assertions, timeout / 3, analytic=False)
            if r != "unsat":
                r, m = self.check_mb(assertions, timeout)
            if r == "unsat":
                return r, m
            mb = r
        ab = Abs()
        ab.lean = lean
        facts = []
        for n_, a in enumerate(assertions):
            if lean and n_ == len(assertions) - 1:
                sub = Abs()
                sub.rw(a)
                ab.goal_ids = set(sub.int_consts)
            a = ab.rw(a)
            if z3.is_false(a):
                return "unsat", None
            facts.append(a)
        for h in hints:
            ab.rw(h)
        done_app, done_inst, skol = set(), set(), {}
        top = {f.get_id() for f in facts}
        topn = {f.arg(0).get_id() for f in facts if z3.is_not(f)}
        spec_done = 0
        ninst = 0
        first = None
        for rnd in range(rounds):
            new = []
            ab.gen = rnd + 1
            byname = {}
            for a in ab.apps.values():
                byname.setdefault(a.decl().name(), []).append(a)
            # function axioms
            for a in list(ab.apps.values()):
                n = a.decl().name()
                if a.get_id() in done_app:
                    continue
                done_app.add(a.get_id())
                if n in _AX_CACHE:
                    new += _AX_CACHE[n](a, byname[n])
                if n in DYN_AX:
                    new += DYN_AX[n](a, byname[n])
            # specials
            specs = list(ab.specials)
            for (e, c) in specs:
                if z3.is_quantifier(e):
                    nv = e.num_vars()
                    pos = c.get_id() in top
                    neg = c.get_id() in topn
                    need_sk = not (pos if e.is_forall() else neg)
                    need_in = not (neg if e.is_forall() else pos)
                    if e.get_id() not in skol and need_sk:
                        sk = [z3.Const(fresh_name("k"), e.var_sort(i)) for i in range(nv)]
                        skol[e.get_id()] = sk
                        inst = z3.substitute_vars(e.body(), *reversed(sk))
                        # exists: c => body(sk) ; forall: not c => not body(sk)
                        new.append(z3.Implies(c, inst) if e.is_exists() else z3.Implies(z3.Not(c), z3.Not(inst)))
                    for tup in (self.instances(e, ab, byname, skol, rnd) if need_in else ()):
                        key = (e.get_id(),) + tuple(t.get_id() for t in tup)
                        if key in done_inst or ninst > minst:
                            continue
                        done_inst.add(key)
                        ninst += 1
                        inst = z3.substitute_vars(e.body(), *reversed(tup))
                        new.append(z3.Implies(c, inst) if e.is_forall() else z3.Implies(inst, c))
                        ab.keep += list(tup)
                else:
                    nm = e.decl().name()
                    if nm.startswith(("MAX#", "MIN#")):
                        dom, val = e.arg(0), e.arg(1)
                        nv = dom.num_vars()
                        if e.get_id() not in skol:
                            sk = [z3.Const(fresh_name("w"), I) for _ in range(nv)]
                            skol[e.get_id()] = sk
                            emp = z3.Const(fresh_name("emp"), B)
                            skol[("e", e.get_id())] = emp
                            new.append(z3.Or(emp, z3.And(lam_body(dom, sk), lam_body(val, sk) == c)))
                            new.append(z3.Implies(lam_body(dom, [z3.IntVal(0)] * nv), z3.Not(emp)))
                        emp = skol[("e", e.get_id())]
                        for tup in self.instances(val, ab, byname, skol, rnd, extra=dom):
                            key = (e.get_id(),) + tuple(t.get_id() for t in tup)
                            if key in done_inst or ninst > minst:
                                continue
                            done_inst.add(key)
                            ninst += 1
                            d, v = lam_body(dom, tup), lam_body(val, tup)
                            new.append(z3.Implies(d, z3.And(z3.Not(emp), v <= c if nm.startswith("MAX") else v >= c)))
                            ab.keep += list(tup)
            if ab.has_pi and "pi" not in skol:
                skol["pi"] = True
                new += [PI > z3.RealVal("3.141592"), PI < z3.RealVal("3.141593")]
            if not new and len(ab.specials) == spec_done:
                break
            spec_done = len(ab.specials)
            for f in new:
                facts.append(ab.rw(f))
        res, model = self.raw(facts, timeout, want_model)
        if res != "unsat" and sums and depth < 3:
            sl = [(e, c) for (e, c) in ab.specials if not z3.is_quantifier(e)]
            if sl:
                lem = self.sum_lemmas(sl, assertions, depth)
                if lem:
                    f2 = facts + [ab.rw(x) for x in lem]
                    res, model = self.raw(f2, timeout, want_model)
        if res != "unsat" and native:
            qs = [(e, c) for (e, c) in ab.specials if z3.is_quantifier(e) and not mentions_special(e.body())]
            if qs:
                s = z3.Solver()
                s.set("timeout", int(timeout))
                s.add(*facts)
                s.add(*[c == e for e, c in qs])
                if s.check() == z3.unsat:
                    res, model = "unsat", None
                    STATS["native"] = STATS.get("native", 0) + 1
        if res == "sat" and mb == "unknown":
            res = "unknown"       # the complete instantiation ran out of time
        STATS["time"] += 0 if depth else time.time() - t0
        self.last_abs = ab
        return res, model

    def check_mb(self, assertions, timeout, maxit=60, analytic=True):
        """model-guided instantiation: only instances false in the current model are added"""
        t0 = time.time()
        end = t0 + timeout / 1000.0
        ab = Abs()
        view = Abs()            # the active part: apps / constants of asserted facts
        view.lean = True
        solver = z3.Solver()
        solver.set("random_seed", 7)
        seen, spec_of, active, level, pol = set(), {}, [], {}, {}
        pseen = set()

        def polar(f):
            st = [(f, 1)]
            while st:
                e, p = st.pop()
                k = e.get_id()
                if (k, p) in pseen:
                    continue
                pseen.add((k, p))
                if z3.is_quantifier(e):
                    continue
                if k in spec_of:
                    pol[k] = pol.get(k, 0) | (p if p else 3)
                    continue
                d = e.decl().kind()
                if d == z3.Z3_OP_NOT:
                    st.append((e.arg(0), {1: 2, 2: 1, 0: 0}[p]))
                elif d == z3.Z3_OP_IMPLIES:
                    st.append((e.arg(0), {1: 2, 2: 1, 0: 0}[p]))
                    st.append((e.arg(1), p))
                elif d in (z3.Z3_OP_AND, z3.Z3_OP_OR):
                    st.extend((c, p) for c in e.children())
                elif d == z3.Z3_OP_ITE and e.sort() == B:
                    st.append((e.arg(0), 0))
                    st.append((e.arg(1), p))
                    st.append((e.arg(2), p))
                else:
                    st.extend((c, 0) for c in e.children())
        skol, done_app, pend, done_inst = {}, set(), {}, set()
        todo = []

        def activate(f, lv):
            st = [f]
            while st:
                e = st.pop()
                k = e.get_id()
                if k in seen:
                    continue
                seen.add(k)
                if z3.is_quantifier(e):
                    continue
                if e.num_args() == 0:
                    if k in spec_of:
                        active.append(spec_of[k])
                        level[spec_of[k][0].get_id()] = lv
                    elif e.sort() == I and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        view.int_consts[k] = e
                        view.appgen[k] = lv
                        if "goal" in skol and lv == 0 and skol["goal"]:
                            view.goal_ids.add(k)
                    if e.eq(PI) and "pi" not in skol:
                        skol["pi"] = True
                        solver.add(PI > z3.RealVal("3.141592"), PI < z3.RealVal("3.141593"))
                    continue
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    view.apps[k] = e
                    view.appgen[k] = lv
                st.extend(e.children())

        nspec = [0]

        def rw(f):
            r = ab.rw(f)
            while nspec[0] < len(ab.specials):
                e, c = ab.specials[nspec[0]]
                spec_of[c.get_id()] = (e, c)
                nspec[0] += 1
            return r

        def put(f, lv, defn=None):
            f = rw(f)
            if z3.is_false(f):
                solver.add(f)
                return
            keep.append(f)
            activate(f, lv)
            polar(f if defn is None or z3.is_true(f) else f.arg(1))
            solver.add(f)
        keep = []
        order = list(assertions)
        # goal last in list, but activate it first so that its constants are goal constants
        skol["goal"] = True
        put(order[-1], 0)
        skol["goal"] = False
        for a in order[:-1]:
            put(a, 0)
        pendt, names = {}, {}
        for it in range(maxit):
            # close under function axioms and skolems of active specials
            while True:
                n0 = len(keep)
                byname = {}
                for a in view.apps.values():
                    byname.setdefault(a.decl().name(), []).append(a)
                for k, a in list(view.apps.items()):
                    if k in done_app:
                        continue
                    done_app.add(k)
                    n = a.decl().name()
                    if view.appgen[k] > 6:
                        continue
                    fs = []
                    if n in _AX_CACHE:
                        fs += [f for f in _AX_CACHE[n](a, byname[n]) if analytic or linear_top(f)]
                    if n in DYN_AX:
                        fs += DYN_AX[n](a, byname[n])
                    for f in fs:
                        put(f, view.appgen[k] + 1)
                for (e, c) in list(active):
                    k = e.get_id()
                    if k in skol:
                        continue
                    lv = level[k]
                    if z3.is_quantifier(e):
                        if pol.get(c.get_id(), 0) & (1 if e.is_exists() else 2):
                            sk = [z3.Const(fresh_name("k"), e.var_sort(i)) for i in range(e.num_vars())]
                            skol[k] = sk
                            inst = z3.substitute_vars(e.body(), *reversed(sk))
                            put(z3.Implies(c, inst) if e.is_exists() else z3.Implies(z3.Not(c), z3.Not(inst)), lv + 1, True)
                    elif e.decl().name().startswith(("MAX#", "MIN#")):
                        dom, val = e.arg(0), e.arg(1)
                        sk = [z3.Const(fresh_name("w"), I) for _ in range(dom.num_vars())]
                        emp = z3.Const(fresh_name("emp"), B)
                        skol[k], skol[("e", k)] = sk, emp
                        put(z3.Or(emp, z3.And(lam_body(dom, sk), lam_body(val, sk) == c)), lv + 1)
                        put(z3.Implies(lam_body(dom, [z3.IntVal(0)] * dom.num_vars()), z3.Not(emp)), lv + 1)
                    else:
                        skol[k] = None
                if len(keep) == n0 or len(keep) > 4000:
                    break
            left = end - time.time()
            if left <= 0.05:
                return "unknown", None
            solver.set("timeout", max(50, int(left * 1000)))
            r = solver.check()
            if r == z3.unsat:
                STATS["mb"] = STATS.get("mb", 0) + 1
                return "unsat", None
            if r != z3.sat:
                return "unknown", None
            m = solver.model()
            # candidate instances
            fresh_c = 0
            for (e, c) in list(active):
                k = e.get_id()
                if z3.is_quantifier(e):
                    if not pol.get(c.get_id(), 0) & (2 if e.is_exists() else 1):
                        continue
                    tups = self.instances(e, view, byname, skol, 0)
                elif e.decl().name().startswith(("MAX#", "MIN#")):
                    tups = self.instances(e.arg(1), view, byname, skol, 0, extra=e.arg(0))
                else:
                    continue
                for n, tup in enumerate(tups):
                    if n > 80:
                        break
                    key = (k,) + tuple(t.get_id() for t in tup)
                    if key in done_inst or key in pend:
                        continue
                    ab.keep += list(tup)
                    lv = level[k] + n / 1000.0
                    for t in tup:
                        lv = max(lv, max([view.appgen.get(x.get_id(), 0) for x in _leaves(t)] or [0]))
                    if z3.is_quantifier(e):
                        inst = z3.substitute_vars(e.body(), *reversed(tup))
                        f = z3.Implies(c, inst) if e.is_forall() else z3.Implies(inst, c)
                    else:
                        d, v = lam_body(e.arg(0), tup), lam_body(e.arg(1), tup)
                        f = z3.Implies(d, z3.And(z3.Not(skol[("e", k)]), v <= c if e.decl().name().startswith("MAX") else v >= c))
                    if MBDBG:
                        pendt[key] = tup
                        names[k] = e
                    pend[key] = (rw(f), int(lv) + 1, lv, z3.is_quantifier(e) and e)
                    fresh_c += 1
                if time.time() > end:
                    return "unknown", None
            bad = []
            for key, (f, lv, rank, _q) in pend.items():
                ev = m.eval(f)
                if not z3.is_true(ev):
                    bad.append((rank, key))
                if time.time() > end:
                    return "unknown", None
            if not bad:
                self.mb_sums = any(not z3.is_quantifier(e) for e, _ in active)
                return "sat", m
            bad.sort(key=lambda x: x[0])
            if MBDBG:
                print("MB it", it, "facts", len(keep), "active", len(active), "pend", len(pend), "bad", len(bad), "t %.1f" % (time.time() - t0))
                for rk, key in bad[:12]:
                    print("    %.3f" % rk, [str(z3.simplify(x)) for x in pendt[key]][:4], str(names.get(key[0]))[:60].replace(chr(10), " "))
            for _, key in bad[:12]:
                f, lv, _r, q = pend.pop(key)
                done_inst.add(key)
                keep.append(f)
                activate(f, lv)
                if q is False:
                    polar(f)
                elif q.is_forall():
                    polar(f.arg(1))
                else:
                    polar(z3.Not(f.arg(0)))
                solver.add(f)
        return "unknown", None

    def instances(self, q, ab, byname, skol, rnd, extra=None):
        nv = q.num_vars()
        bodies = [q.body()] + ([extra.body()] if extra is not None else [])
        pats = []
        for b in bodies:
            pats += pat_apps(b)
        cands = [{} for _ in range(nv)]
        terms = {}
        tuples = []
        for p, off in pats:
            for g in byname.get(p.decl().name(), []):
                gen = ab.appgen.get(g.get_id(), 0)
                if gen > 2:
                    continue
                bind = {}
                ok = True
                for pa, ga in zip(p.children(), g.children()):
                    if ga.sort() != I:
                        if has_var(pa):
                            ok = False
                            break
                        continue
                    u = unify_affine(pa, ga, nv, off)
                    if u is None or u is True:
                        continue
                    vi = nv - 1 - u[0]
                    t = z3.simplify(u[1])
                    bind.setdefault(vi, t)
                if ok is False:
                    continue
                if len(bind) == nv:
                    tuples.append((gen, [bind[i] for i in range(nv)]))
                for vi, t in bind.items():
                    i = t.get_id()
                    terms[i] = t
                    cands[vi][i] = min(gen, cands[vi].get(i, 99))
        if ab.lean:
            for t in ab.int_consts.values():
                if t.get_id() in ab.goal_ids and "!" in t.decl().name():
                    for vi in range(nv):
                        if t.get_id() not in cands[vi]:
                            cands[vi][t.get_id()] = 1
                            terms[t.get_id()] = t
        # integer constants as weak candidates
        if rnd <= 2 and not all(cands):
            weak = [t for t in ab.int_consts.values() if "!" in t.decl().name()] or list(ab.int_consts.values())
            weak.sort(key=lambda t: ab.appgen[t.get_id()])
            if ab.lean:
                weak = [t for t in weak if t.get_id() in ab.goal_ids]
            empty = [vi for vi in range(nv) if not cands[vi]]
            for t in weak[:24 if len(empty) < 2 else 10]:
                for vi in empty:
                    cands[vi].setdefault(t.get_id(), ab.appgen[t.get_id()])
                    terms[t.get_id()] = t
        out = list(tuples)
        if all(cands):
            for cap in (99, 2, 1, 0):
                cs = [[i for i in sorted(c) if c[i] <= cap] for c in cands]
                tot = 1
                for c in cs:
                    tot *= len(c)
                if tot <= 150:
                    break
            if tot <= 400:
                for combo in itertools.product(*cs):
                    out.append((sum(cands[v][i] for v, i in enumerate(combo)), [terms[i] for i in combo]))
        out.sort(key=lambda x: x[0])
        return [tuple(t) for _, t in out]

    def raw(self, facts, timeout, want_model=False):
        s = z3.Solver()
        s.set("timeout", int(timeout))
        s.set("random_seed", 7)
        s.add(*facts)
        r = s.check()
        if r == z3.unsat:
            return "unsat", None
        if r == z3.sat:
            return "sat", s.model()
        # second opinion: nonlinear tactic
        try:
            t = z3.TryFor(z3.Then("simplify", "propagate-values", "solve-eqs", "elim-uncnstr", "smt"), int(timeout))
            s2 = t.solver()
            s2.add(*facts)
            r = s2.check()
            if r == z3.unsat:
                return "unsat", None
            if r == z3.sat and want_model:
                return "sat", s2.model()
        except z3.Z3Exception:
            pass
        return "unknown", None

    # ------------------------------------------------------------------
    def sum_lemmas(self, sl, assertions, depth):
        out = []
        hyps = list(assertions[:-1])
        hk = tuple(h.get_id() for h in hyps)
        for (e, c) in sl:
            if not e.decl().name().startswith("SUM"):
                continue
            lam = e.arg(0)
            nv = lam.num_vars()
            key = ("nn", e.get_id(), hk)
            r = self.lemma_cache.get(key)
            if r is None:
                sk = [FInt("z") for _ in range(nv)]
                b = lam_body(lam, sk)
                rr, _ = self.check(hyps + [znot(b >= 0)], timeout=1000, rounds=2, sums=False, depth=depth + 1)
                r = (rr == "unsat", e, hyps)
                self.lemma_cache[key] = r
            if r[0]:
                out.append(c >= 0)
                kp = ("pos", e.get_id(), hk)
                rp = self.lemma_cache.get(kp)
                if rp is None:      # a sum of non-negative terms one of which (the first) is positive
                    b0 = lam_body(lam, [z3.IntVal(0)] * nv)
                    rr, _ = self.check(hyps + [znot(b0 > 0)], timeout=600, rounds=2, sums=False, depth=depth + 1)
                    rp = (rr == "unsat", e, hyps)
                    self.lemma_cache[kp] = rp
                if rp[0]:
                    out.append(c > 0)
            kz = ("zero", e.get_id(), hk)
            rz = self.lemma_cache.get(kz)
            if rz is None:
                sk = [FInt("z") for _ in range(nv)]
                rr, _ = self.check(hyps + [znot(lam_body(lam, sk) == 0)], timeout=1000, rounds=3, sums=False, depth=depth + 1)
                rz = (rr == "unsat", e, hyps)
                self.lemma_cache[kz] = rz
            if rz[0]:
                out.append(c == 0)
        for a in range(len(sl)):
            for b in range(a + 1, len(sl)):
                (e1, c1), (e2, c2) = sl[a], sl[b]
                if e1.decl().name() != e2.decl().name() or e1.sort() != e2.sort():
                    continue
                key = ("eq", e1.get_id(), e2.get_id(), hk)
                r = self.lemma_cache.get(key)
                if r is None:
                    nv = e1.arg(0).num_vars()
                    sk = [FInt("z") for _ in range(nv)]
                    goal = []
                    for l1, l2 in zip(e1.children(), e2.children()):
                        goal.append(lam_body(l1, sk) == lam_body(l2, sk))
                    if e1.num_args() == 2:   # MAX#: values only matter on the domain
                        d1 = lam_body(e1.arg(0), sk)
                        goal[1] = z3.Implies(d1, goal[1])
                    rr, _ = self.check(hyps + [z3.Not(z3.And(*goal))], timeout=4000, rounds=4, sums=True, depth=depth + 1)
                    r = (rr == "unsat", e1, e2, hyps)
                    self.lemma_cache[key] = r
                if r[0]:
                    out.append(c1 == c2)
        # a sum split in two
        groups = {}
        for e, c in sl:
            if e.decl().name().startswith("SUM"):
                groups.setdefault(e.decl().name(), []).append((e, c))
        for g in groups.values():
            if not 3 <= len(g) <= 4 or depth > 0:
                continue
            for w in range(len(g)):
                rest = [x for q, x in enumerate(g) if q != w]
                for x in range(len(rest)):
                    for y in range(x + 1, len(rest)):
                        (e0, c0), (e1, c1), (e2, c2) = g[w], rest[x], rest[y]
                        key = ("split", e0.get_id(), e1.get_id(), e2.get_id(), hk)
                        r = self.lemma_cache.get(key)
                        if r is None:
                            sk = [FInt("z") for _ in range(e0.arg(0).num_vars())]
                            b = [lam_body(e.arg(0), sk) for e in (e0, e1, e2)]
                            rr, _ = self.check(hyps + [b[0] != b[1] + b[2]], timeout=4000, rounds=4, sums=True, depth=depth + 1)
                            r = (rr == "unsat", e0, e1, e2, hyps)
                            self.lemma_cache[key] = r
                        if r[0]:
                            out.append(c0 == c1 + c2)
        return out
