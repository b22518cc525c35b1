"""Decision procedure for identities between rational expressions over opaque terms.

goal: a conjunction of equations between real terms.  Every application of an uninterpreted function (exp, erfc, sqrt,
array reads, ...) and every if-then-else becomes an indeterminate, two of them being shared exactly when their arguments are
identical as rational functions (recursively).  An equation holds when numerator(lhs - rhs) is the zero polynomial, provided that no
denominator vanishes; the denominators are returned to the caller, who has to prove them non-zero under the path condition.
sqrt(a)^2 is rewritten to a; a >= 0 is returned as a side condition as well.
"""
import time

import z3
from sympy import QQ
from sympy.polys.rings import PolyRing
from sympy.polys.orderings import lex


class Give(Exception):
    pass


MAXV = 60
ANALYTIC = {"sin", "cos", "tan", "exp", "log", "sqrt", "arctan", "arcsin"}


class Rat:
    __slots__ = ("n", "d")

    def __init__(self, n, d):
        self.n, self.d = n, d          # poly, {poly: power}


class Lam:
    def __init__(self, t):
        self.t = t


class RatId:
    def __init__(self, decide=None, lameq=None, eqterm=None):
        self.decide, self.dec = decide, {}
        self.terms, self.eqterm = {}, eqterm
        self.lameq = lameq             # equality of two functions (summands), decided separately
        self.ring = PolyRing(["v%d" % i for i in range(MAXV)], QQ, lex)
        self.gens = self.ring.gens
        self.atoms = []                # (key, args, index)
        self.memo = {}
        self.side = []                 # z3 terms that must be non-zero
        self.nonneg = []
        self.keep = []
        self.sq = {}                   # generator index -> Rat of the square
        self.sqarg = {}

    def decided(self, c):
        if self.decide is None:
            return None
        if c.get_id() not in self.dec:
            self.keep.append(c)
            self.dec[c.get_id()] = self.decide(c)
        return self.dec[c.get_id()]

    def const(self, q):
        return Rat(self.ring.ground_new(q), {})

    def add(self, a, b, sub=False):
        d = dict(a.d)
        for f, p in b.d.items():
            d[f] = max(d.get(f, 0), p)
        na, nb = a.n, b.n
        for f, p in d.items():
            for _ in range(p - a.d.get(f, 0)):
                na = na * f
            for _ in range(p - b.d.get(f, 0)):
                nb = nb * f
        if len(na) > 60000 or len(nb) > 60000:
            raise Give()
        return Rat(na - nb if sub else na + nb, d)

    def mul(self, a, b):
        d = dict(a.d)
        for f, p in b.d.items():
            d[f] = d.get(f, 0) + p
        return Rat(a.n * b.n, d)

    def div(self, a, b, den):
        if not b.n:
            raise Give()
        d = dict(a.d)
        n = a.n
        for f, p in b.d.items():
            q = min(p, d.get(f, 0))
            if q:
                d[f] -= q
                if not d[f]:
                    del d[f]
            for _ in range(p - q):
                n = n * f
        if b.n.is_ground:
            n = n.mul_ground(1 / b.n.LC)
        else:
            c = b.n.LC
            f = b.n.mul_ground(1 / c)
            n = n.mul_ground(1 / c)
            d[f] = d.get(f, 0) + 1
        self.side.append(den)
        return Rat(n, d)

    def reduce(self, r):
        """replace even powers of square-root indeterminates"""
        for _ in range(20):
            hit = None
            for m in r.n.itermonoms():
                for i in self.sq:
                    if m[i] >= 2:
                        hit = i
                        break
                if hit is not None:
                    break
            if hit is None:
                return r
            self.nonneg.append(self.sqarg[hit])
            parts = {}
            for m, c in r.n.iterterms():
                e = m[hit] // 2
                mm = list(m)
                mm[hit] -= 2 * e
                parts.setdefault(e, self.ring.zero)
                parts[e] += self.ring.from_dict({tuple(mm): c})
            out = Rat(self.ring.zero, {})
            for e, poly in parts.items():
                t = Rat(poly, {})
                for _k in range(e):
                    t = self.mul(t, self.sq[hit])
                out = self.add(out, t)
            dd = dict(out.d)
            for f, p in r.d.items():
                dd[f] = dd.get(f, 0) + p
            r = Rat(out.n, dd)
        return r

    def zero(self, r):
        if not r.n:
            return True
        return bool(self.sq) and not self.reduce(r).n

    def same(self, a, b):
        return self.zero(self.add(a, b, sub=True))

    def eqkey(self, x, y):
        if x is y:
            return True
        if isinstance(x, Rat) or isinstance(y, Rat):
            return isinstance(x, Rat) and isinstance(y, Rat) and self.same(x, y)
        if isinstance(x, Lam) or isinstance(y, Lam):
            if not (isinstance(x, Lam) and isinstance(y, Lam)):
                return False
            if x.t.eq(y.t):
                return True
            return self.lameq is not None and self.lameq(x.t, y.t)
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(self.eqkey(p, q) for p, q in zip(x, y))
        return x == y

    def atom(self, key, args, t):
        for k, a, i in self.atoms:
            if k == key and len(a) == len(args) and all(self.eqkey(x, y) for x, y in zip(a, args)):
                return i
        if key in ANALYTIC and self.eqterm is not None and z3.is_app(t):
            for k, a, i in self.atoms:
                if k == key and self.eqterm(self.terms[i], t):
                    return i
        i = len(self.atoms)
        if i >= MAXV:
            raise Give()
        self.atoms.append((key, args, i))
        self.terms[i] = t
        if key == "sqrt":
            self.sq[i] = args[0]
            self.sqarg[i] = t.arg(0)
        return i

    def rat(self, t):
        got = self.memo.get(t.get_id())
        if got is None:
            got = self._rat(t)
            self.keep.append(t)
            self.memo[t.get_id()] = got
        return got

    def key(self, t):
        """canonical key of a non-arithmetic argument / condition"""
        if z3.is_quantifier(t) and t.is_lambda():
            return Lam(t)
        if not z3.is_app(t):
            return t.sexpr()
        if t.sort() in (z3.RealSort(), z3.IntSort()):
            return self.rat(t)
        if z3.is_bool(t):
            if z3.is_true(t) or z3.is_false(t):
                return str(t)
            k = t.decl().kind()
            if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and t.arg(0).sort() in (z3.RealSort(), z3.IntSort()):
                x, y = self.rat(t.arg(0)), self.rat(t.arg(1))
                if k in (z3.Z3_OP_GT, z3.Z3_OP_GE):
                    x, y, k = y, x, (z3.Z3_OP_LT if k == z3.Z3_OP_GT else z3.Z3_OP_LE)
                d = self.add(x, y, sub=True)
                return self.atom(("cmp", k), (d,), t)
            if k in (z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR):
                return (k,) + tuple(self.key(c) for c in t.children())
        return t.sexpr()

    def _rat(self, t):
        if z3.is_rational_value(t):
            return self.const(QQ(t.numerator_as_long(), t.denominator_as_long()))
        if z3.is_int_value(t):
            return self.const(QQ(t.as_long()))
        if not z3.is_app(t):
            raise Give()
        k, ch = t.decl().kind(), t.children()
        if k == z3.Z3_OP_ADD:
            r = self.rat(ch[0])
            for c in ch[1:]:
                r = self.add(r, self.rat(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.rat(ch[0])
            for c in ch[1:]:
                r = self.add(r, self.rat(c), sub=True)
            return r
        if k == z3.Z3_OP_UMINUS:
            r = self.rat(ch[0])
            return Rat(-r.n, r.d)
        if k == z3.Z3_OP_MUL:
            r = self.rat(ch[0])
            for c in ch[1:]:
                r = self.mul(r, self.rat(c))
                if len(r.n) > 60000:
                    raise Give()
            return r
        if k == z3.Z3_OP_DIV:
            return self.div(self.rat(ch[0]), self.rat(ch[1]), ch[1])
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 and 0 <= ch[1].numerator_as_long() < 9:
            r = self.const(QQ(1))
            for _ in range(ch[1].numerator_as_long()):
                r = self.mul(r, self.rat(ch[0]))
            return r
        if k == z3.Z3_OP_TO_REAL:
            return self.rat(ch[0])
        if k == z3.Z3_OP_ITE:
            c = self.decided(ch[0])
            if c is not None:
                return self.rat(ch[1] if c else ch[2])
            a, b = self.rat(ch[1]), self.rat(ch[2])
            if self.same(a, b):
                return a
            i = self.atom("ite", (self.key(ch[0]), a, b), t)
            return Rat(self.gens[i], {})
        name = t.decl().name()
        if k == z3.Z3_OP_UNINTERPRETED:
            args = tuple(self.key(c) for c in ch)
            if name in ("exp", "cos", "sin", "sqrt") and self.zero(args[0]):
                return self.const(QQ(1 if name in ("exp", "cos") else 0))
            i = self.atom(name, args, t)
            return Rat(self.gens[i], {})
        i = self.atom("op%d %s" % (k, t.sexpr()), (), t)
        return Rat(self.gens[i], {})


def equations(goal):
    if z3.is_and(goal):
        return [e for c in goal.children() for e in equations(c)]
    return [goal]


def identity(goal, decide=None, lameq=None, eqterm=None):
    """None, or the list of side conditions (z3 formulas) under which the goal holds"""
    eqs = equations(goal)
    if not eqs or not all(z3.is_eq(e) and e.arg(0).sort() == z3.RealSort() for e in eqs):
        return None
    R = RatId(decide, lameq, eqterm)
    try:
        for e in eqs:
            if not R.same(R.rat(e.arg(0)), R.rat(e.arg(1))):
                return None
    except (Give, RecursionError):
        return None
    seen, out = set(), []
    for s in R.side:
        if z3.is_rational_value(s):
            if s.numerator_as_long() == 0:
                return None
            continue
        if s.get_id() not in seen:
            seen.add(s.get_id())
            out.append(s != 0)
    for s in R.nonneg:
        if s.get_id() not in seen:
            seen.add(s.get_id())
            out.append(s >= 0)
    return out


def prove_identity(prover, hyps, goal, tmo, depth=5, deadline=None):
    """identity of rational functions under the hypotheses: conditions decided by them are resolved, open ones are split on"""
    undecided = []
    deadline = deadline or time.time() + 20

    def decide(c):
        if time.time() > deadline:
            raise Give()
        if prover.check(hyps + [z3.Not(c)], timeout=1000, native=True)[0] == "unsat":
            return True
        if prover.check(hyps + [c], timeout=1000, native=True)[0] == "unsat":
            return False
        undecided.append(c)
        return None

    def lameq(f, g):
        """equal at an arbitrary index (a fresh constant, universally quantified)"""
        nv = f.num_vars()
        if depth < 1 or nv != g.num_vars() or any(f.var_sort(i) != g.var_sort(i) for i in range(nv)):
            return False
        key = (f.get_id(), g.get_id())
        if key not in lams:
            sk = [z3.FreshConst(f.var_sort(i), "lam") for i in range(nv)]
            a, b = [z3.substitute_vars(x.body(), *reversed(sk)) for x in (f, g)]
            if a.sort() != b.sort():
                lams[key] = False
            elif z3.simplify(a).eq(z3.simplify(b)):
                lams[key] = True
            elif z3.is_bool(a):
                lams[key] = prover.check(hyps + [a != b], timeout=2000, native=True)[0] == "unsat"
            elif a.sort() == z3.RealSort():
                lams[key] = prove_identity(prover, hyps, a == b, tmo, depth - 1, deadline)
            else:
                lams[key] = prover.check(hyps + [a != b], timeout=2000, native=True)[0] == "unsat"
        return lams[key]
    lams, tried = {}, []

    def eqterm(s, t):
        """arguments equal by the prover (beyond identity of rational functions)"""
        if len(tried) >= 6 or time.time() > deadline:
            return False
        tried.append(s)
        return all(prover.check(hyps + [a != b], timeout=700, rounds=2, sums=False)[0] == "unsat" for a, b in zip(s.children(), t.children()))
    try:
        side = identity(goal, decide, lameq, eqterm)
    except (Give, z3.Z3Exception):
        return False
    if side is not None:
        return all(prover.check(hyps + [z3.Not(s)], timeout=min(tmo, 4000), native=True)[0] == "unsat" for s in side)
    if depth and undecided:
        c = undecided[0]
        return all(prove_identity(prover, hyps + [x], goal, tmo, depth - 1, deadline) for x in (c, z3.Not(c)))
    return False
