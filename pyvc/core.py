"""pyvc core: symbolic scalars, path exploration, proof contexts.

The verifier executes the *real* source text of /repo (see loader.py) under
CPython with symbolic values.  This file holds the scalar value domain, the
path explorer (deterministic re-execution) and the obligation log.
"""
import itertools
import math
from fractions import Fraction

import z3


class Unsupported(BaseException):
    """The code left the subset the verifier can translate."""


class PathAbort(BaseException):
    """Current path is infeasible / finished."""


class ObligationLimit(BaseException):
    pass


# ----------------------------------------------------------------------
# z3 helpers
# ----------------------------------------------------------------------
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
_fresh = itertools.count()
_oid = itertools.count(1)


def fresh_name(p):
    return "%s!%d" % (p, next(_fresh))


def FInt(p="i"):
    return z3.Int(fresh_name(p))


def FReal(p="x"):
    return z3.Real(fresh_name(p))


def FBool(p="b"):
    return z3.Bool(fresh_name(p))


def is_true(t):
    return t is True or (isinstance(t, z3.ExprRef) and z3.is_true(t))


def is_false(t):
    return t is False or (isinstance(t, z3.ExprRef) and z3.is_false(t))


def zb(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SV):
        return truth(x)
    return x


def zand(*xs):
    xs = [zb(x) for x in xs]
    xs = [x for x in xs if not z3.is_true(x)]
    if any(z3.is_false(x) for x in xs):
        return FALSE
    if not xs:
        return TRUE
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def zor(*xs):
    xs = [zb(x) for x in xs]
    xs = [x for x in xs if not z3.is_false(x)]
    if any(z3.is_true(x) for x in xs):
        return TRUE
    if not xs:
        return FALSE
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def znot(x):
    x = zb(x)
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def zimp(a, b):
    return zor(znot(a), b)


def zite(c, a, b):
    c = zb(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b or (isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b)):
        return a
    return z3.If(c, a, b)


def real_of(x):
    """python number -> z3 real"""
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite literal")
        f = Fraction(repr(x))
        return z3.RealVal("%d/%d" % (f.numerator, f.denominator))
    if isinstance(x, Fraction):
        return z3.RealVal("%d/%d" % (x.numerator, x.denominator))
    return z3.RealVal(int(x))


KORD = {"b": 0, "i": 1, "f": 2}


def kmax(*ks):
    return max(ks, key=lambda k: KORD[k])


def to_kind(t, k, k2):
    """convert z3 term t of kind k to kind k2 (upcast only, exact)."""
    if k == k2:
        return t
    if k2 == "b":
        return t != 0
    if k == "b":
        if z3.is_true(t):
            return z3.IntVal(1) if k2 == "i" else z3.RealVal(1)
        if z3.is_false(t):
            return z3.IntVal(0) if k2 == "i" else z3.RealVal(0)
        return z3.If(t, z3.IntVal(1), z3.IntVal(0)) if k2 == "i" else z3.If(t, z3.RealVal(1), z3.RealVal(0))
    if k == "i" and k2 == "f":
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    if k == "f" and k2 == "i":
        return trunc(t)
    raise Unsupported("kind conversion %s->%s" % (k, k2))


def trunc(t):
    t2 = z3.simplify(t)
    if z3.is_rational_value(t2):
        f = Fraction(t2.numerator_as_long(), t2.denominator_as_long())
        return z3.IntVal(int(f))
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        return t.arg(0)
    d = int_plus_const(t)
    if d is not None:       # integer term plus a constant: the rounding is known
        e, c = d
        up, dn = math.floor(c), math.ceil(c)
        if up == dn:
            return e + up if up else e
        return z3.If(t >= 0, e + up if up else e, e + dn if dn else e)
    return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))


def int_plus_const(t):
    """t == ToReal(e) + c with e an integer term and c a rational constant, or None"""
    s = z3.simplify(t, som=True)
    es, c = [], Fraction(0)
    for a in (s.children() if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_ADD else [s]):
        k = 1
        if z3.is_rational_value(a):
            c += Fraction(a.numerator_as_long(), a.denominator_as_long())
            continue
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_MUL and a.num_args() == 2 and z3.is_rational_value(a.arg(0)) and a.arg(0).denominator_as_long() == 1:
            k, a = a.arg(0).numerator_as_long(), a.arg(1)
        if not (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_TO_REAL):
            return None
        es.append(a.arg(0) if k == 1 else k * a.arg(0))
    if not es:
        return None
    e = es[0]
    for x in es[1:]:
        e = e + x
    return e, c


def sort_of(k):
    return {"b": B, "i": I, "f": R}[k]


# ----------------------------------------------------------------------
# symbolic scalar
# ----------------------------------------------------------------------
class SV:
    """symbolic scalar: kind b/i/f, z3 term, nan flag (z3 Bool or None)."""

    __slots__ = ("k", "t", "nan", "py", "__weakref__")

    def __getattr__(self, n):
        import numpy
        own = {"i": int, "f": float, "b": bool}[self.k] if self.py else {"i": numpy.int64, "f": numpy.float64, "b": numpy.bool_}[self.k]
        if n.startswith("__") or not hasattr(own, n):
            raise AttributeError("%r object has no attribute %r" % (own.__name__, n))
        raise Unsupported("scalar." + n)
    __array_ufunc__ = None
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, k, t, nan=None, py=False):
        self.k, self.t = k, t
        if nan is not None and is_false(nan):
            nan = None
        self.nan = nan
        self.py = py  # plain Python number (ZeroDivisionError semantics)

    # -- conversions
    def __bool__(self):
        return CTX().decide(truth(self))

    def __index__(self):
        c = self.concrete()
        if isinstance(c, int):
            return c
        raise Unsupported("symbolic value used as a concrete index")

    def concrete(self):
        if self.nan is not None:
            return None
        t = z3.simplify(self.t)
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            f = Fraction(t.numerator_as_long(), t.denominator_as_long())
            return float(f)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return None

    def __int__(self):
        c = self.concrete()
        if c is not None:
            return int(c)
        raise Unsupported("int() of symbolic through C level")

    def __float__(self):
        c = self.concrete()
        if c is not None:
            return float(c)
        raise Unsupported("float() of symbolic through C level")

    def __repr__(self):
        return "SV(%s,%s)" % (self.k, str(self.t)[:80])

    def __format__(self, spec):
        from . import text
        if text.state() is not None:
            return format(self.concrete(), spec) if self.concrete() is not None else text.newfmt(self, spec)
        return "<sym>"

    def __hash__(self):
        c = self.concrete()
        if c is not None:
            return hash(c)
        return hash(self.t.get_id())

    @property
    def dtype(self):
        from .npshim import DTYPES
        return DTYPES[self.k]

    @property
    def T(self):
        return self

    # numpy-scalar style methods
    def item(self):
        return self

    def copy(self):
        return self

    def sum(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    max = mean = min

    def any(self, *a, **k):
        return SV("b", truth(self))

    all = any

    def ravel(self):
        from . import arr
        return arr.as_sarr(self).reshape((1,))

    def astype(self, dt, **k):
        from . import npshim
        return cast(self, npshim.kind_of_dtype(dt))

    def __getitem__(self, idx):
        from . import arr
        if idx == () or idx is Ellipsis:
            return self
        if idx is None:
            return arr.as_sarr(self)[None]
        if self.py:
            raise TypeError("scalar is not subscriptable")
        raise IndexError("invalid index to scalar variable.")

    # -- arithmetic
    def __add__(self, o): return binop("add", self, o)
    def __radd__(self, o): return binop("add", o, self)
    def __sub__(self, o): return binop("sub", self, o)
    def __rsub__(self, o): return binop("sub", o, self)
    def __mul__(self, o): return binop("mul", self, o)
    def __rmul__(self, o): return binop("mul", o, self)
    def __truediv__(self, o): return binop("div", self, o)
    def __rtruediv__(self, o): return binop("div", o, self)
    def __floordiv__(self, o): return binop("fdiv", self, o)
    def __rfloordiv__(self, o): return binop("fdiv", o, self)
    def __mod__(self, o): return binop("mod", self, o)
    def __rmod__(self, o): return binop("mod", o, self)
    def __pow__(self, o): return binop("pow", self, o)
    def __rpow__(self, o): return binop("pow", o, self)
    def __and__(self, o): return binop("and", self, o)
    def __rand__(self, o): return binop("and", o, self)
    def __or__(self, o): return binop("or", self, o)
    def __ror__(self, o): return binop("or", o, self)
    def __xor__(self, o): return binop("xor", self, o)
    def __rxor__(self, o): return binop("xor", o, self)
    def __lt__(self, o): return binop("lt", self, o)
    def __le__(self, o): return binop("le", self, o)
    def __gt__(self, o): return binop("gt", self, o)
    def __ge__(self, o): return binop("ge", self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, type)):
            return False
        return binop("eq", self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, type)):
            return True
        return binop("ne", self, o)

    def __neg__(self): return unop("neg", self)
    def __pos__(self): return self
    def __abs__(self): return unop("abs", self)
    def __invert__(self): return unop("inv", self)

    def __round__(self, n=None):
        raise Unsupported("round of symbolic")


def is_sym(x):
    from .arr import SArr
    return isinstance(x, (SV, SArr))


def lift(x):
    """anything scalar -> (kind, term, nan)"""
    if isinstance(x, SV):
        return x.k, x.t, x.nan
    if isinstance(x, bool):
        return "b", z3.BoolVal(x), None
    if isinstance(x, int):
        return "i", z3.IntVal(x), None
    if isinstance(x, float):
        if x != x:
            return "f", z3.RealVal(0), TRUE
        return "f", real_of(x), None
    if isinstance(x, Fraction):
        return "f", real_of(x), None
    if isinstance(x, z3.ExprRef):
        s = x.sort()
        return ("b" if s == B else "i" if s == I else "f"), x, None
    if hasattr(x, "dtype") and hasattr(x, "item"):
        return lift(x.item())
    raise Unsupported("cannot lift %r" % (type(x),))


def wrap(k, t, nan=None, py=False):
    return SV(k, t, nan, py)


def truth(x):
    """z3 Bool: python truthiness of scalar."""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    k, t, nan = lift(x)
    if k == "b":
        return t
    r = t != 0
    if nan is not None:
        r = zor(nan, r)
    return r


def cast(x, k2):
    k, t, nan = lift(x)
    if k2 is None or k == k2:
        return SV(k, t, nan)
    if k2 == "b":
        return SV("b", truth(x))
    return SV(k2, to_kind(t, k, k2), nan if k2 == "f" else None)


def _num(x):
    k, t, n = lift(x)
    return k, t, n


def nan_or(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return zor(a, b)


def is_py(x):
    return isinstance(x, (bool, int, float)) or (isinstance(x, SV) and x.py)


def binop(op, a, b):
    from .arr import SArr, ew
    from .carr import cop, is_c
    if is_c(a) or is_c(b):
        return cop(op, a, b)
    for x in (a, b):
        if type(x).__name__ == "ORows":
            return x._op(op, b if x is a else a, x is not a)
    if isinstance(a, SArr) or isinstance(b, SArr) or isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)) \
            or type(a).__name__ == "ndarray" or type(b).__name__ == "ndarray":
        if isinstance(a, (list, tuple)) and is_py(b) or isinstance(b, (list, tuple)) and is_py(a):
            # list * int etc.
            return _seqop(op, a, b)
        return ew(op, a, b)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        raise TypeError("unsupported operand type(s) for %s" % op)
    if not isinstance(a, (SV, int, float, z3.ExprRef, Fraction)) and not hasattr(a, "item"):
        return NotImplemented
    if not isinstance(b, (SV, int, float, z3.ExprRef, Fraction)) and not hasattr(b, "item"):
        return NotImplemented
    py = is_py(a) and is_py(b)
    r = scalar_op(op, lift(a), lift(b), py)
    return SV(r[0], r[1], r[2], py)


def _seqop(op, a, b):
    from .seq import SSeq
    if op == "mul":
        lst, n = (a, b) if isinstance(a, (list, tuple)) else (b, a)
        if isinstance(n, SV):
            if len(lst) != 1:
                raise Unsupported("list * symbolic with len != 1")
            v = lst[0]
            nn = SV("i", zite(n.t > 0, n.t, z3.IntVal(0)))
            return SSeq(nn, lambda i: v)
        return lst * n
    raise TypeError("bad list operation")


def scalar_op(op, A, Bv, py=False):
    """elementwise primitive on (kind, term, nan) triples"""
    ka, ta, na = A
    kb, tb, nb = Bv
    nan = nan_or(na, nb)
    if op in ("add", "sub", "mul"):
        k = kmax(ka, kb)
        if k == "b":
            if not py:
                if op == "add":
                    return "b", zor(ta, tb), None
                if op == "mul":
                    return "b", zand(ta, tb), None
                raise TypeError("numpy boolean subtract")
            k = "i"
        ta, tb = to_kind(ta, ka, k), to_kind(tb, kb, k)
        r = ta + tb if op == "add" else ta - tb if op == "sub" else ta * tb
        return k, norm_arith(r), nan
    if op == "div":
        if py and not CTX().decide(truth_ne0(tb, kb)):
            raise ZeroDivisionError("division by zero")
        ta, tb = to_kind(ta, ka, "f"), to_kind(tb, kb, "f")
        return "f", zdiv(ta, tb), nan
    if op in ("fdiv", "mod"):
        k = kmax(ka, kb, "i")
        if py and not CTX().decide(truth_ne0(tb, kb)):
            raise ZeroDivisionError("integer division or modulo by zero")
        ta, tb = to_kind(ta, ka, k), to_kind(tb, kb, k)
        if k == "i":
            return "i", (ifloordiv if op == "fdiv" else imod)(ta, tb), None
        q = z3.ToReal(z3.ToInt(zdiv(ta, tb)))
        if op == "fdiv":
            return "f", q, nan
        return "f", ta - q * tb, nan
    if op == "pow":
        return pow_op(A, Bv, nan)
    if op in ("lt", "le", "gt", "ge", "eq", "ne"):
        k = kmax(ka, kb)
        if k == "b" and op not in ("eq", "ne"):
            k = "i"
        ta, tb = to_kind(ta, ka, k), to_kind(tb, kb, k)
        r = {"lt": lambda: ta < tb, "le": lambda: ta <= tb, "gt": lambda: ta > tb, "ge": lambda: ta >= tb,
             "eq": lambda: ta == tb, "ne": lambda: ta != tb}[op]()
        if ta.eq(tb):
            r = z3.BoolVal(op in ("le", "ge", "eq"))
        elif z3.is_int_value(ta) and z3.is_int_value(tb) or z3.is_rational_value(ta) and z3.is_rational_value(tb):
            r = z3.simplify(r)
        if nan is not None:
            r = zor(nan, r) if op == "ne" else zand(znot(nan), r)
        return "b", r, None
    if op in ("and", "or", "xor"):
        if ka == "b" and kb == "b":
            return "b", (zand(ta, tb) if op == "and" else zor(ta, tb) if op == "or" else z3.Xor(ta, tb)), None
        raise Unsupported("bitwise op on integers")
    if op in ("min", "max"):
        k = kmax(ka, kb)
        ta, tb = to_kind(ta, ka, k), to_kind(tb, kb, k)
        return k, zite(ta <= tb if op == "min" else ta >= tb, ta, tb), nan
    if op == "land":
        return "b", zand(truth(SV(*A)), truth(SV(*Bv))), None
    if op == "lor":
        return "b", zor(truth(SV(*A)), truth(SV(*Bv))), None
    if op == "lxor":
        return "b", z3.Xor(truth(SV(*A)), truth(SV(*Bv))), None
    if op == "hypot":
        ta, tb = to_kind(ta, ka, "f"), to_kind(tb, kb, "f")
        return "f", uf("sqrt")(ta * ta + tb * tb), nan
    if op == "arctan2":
        ta, tb = to_kind(ta, ka, "f"), to_kind(tb, kb, "f")
        return "f", uf("arctan2")(ta, tb), nan
    raise Unsupported("op %s" % op)


def truth_ne0(t, k):
    if k == "b":
        return t
    return z3.simplify(t != 0) if (z3.is_int_value(t) or z3.is_rational_value(t)) else t != 0


def norm_arith(r):
    return r


def zdiv(a, b):
    b2 = z3.simplify(b) if not z3.is_const(b) else b
    if z3.is_rational_value(b2) and b2.numerator_as_long() != 0:
        f = Fraction(b2.denominator_as_long(), b2.numerator_as_long())
        return a * real_of(f) if f != 1 else a
    return a / b


def ifloordiv(a, b):
    """python floor division on z3 ints (z3 div is Euclidean)"""
    b2 = z3.simplify(b)
    if z3.is_int_value(b2):
        n = b2.as_long()
        if n > 0:
            if n == 1:
                return a
            from .solve import exact_div
            q = exact_div(a, n)
            return q if q is not None else a / b2
        if n < 0:
            return (-a) / z3.IntVal(-n)
    return z3.If(b > 0, a / b, (-a) / (-b))


def imod(a, b):
    b2 = z3.simplify(b)
    if z3.is_int_value(b2):
        n = b2.as_long()
        if n > 0:
            return a % b2
        if n < 0:
            return -((-a) % z3.IntVal(-n))
    return z3.If(b > 0, a % b, -((-a) % (-b)))


def pow_op(A, Bv, nan):
    ka, ta, na = A
    kb, tb, nb = Bv
    tb2 = z3.simplify(tb)
    if z3.is_int_value(tb2) or (z3.is_rational_value(tb2) and tb2.denominator_as_long() == 1):
        n = tb2.as_long() if z3.is_int_value(tb2) else tb2.numerator_as_long()
        k = kmax(ka, kb, "i")
        if n >= 0 and n <= 8:
            if n == 0:
                return k, (z3.IntVal(1) if k == "i" else z3.RealVal(1)), None
            x = to_kind(ta, ka, k)
            r = x
            for _ in range(n - 1):
                r = r * x
            return k, r, nan
        if -8 <= n < 0:
            x = to_kind(ta, ka, "f")
            r = x
            for _ in range(-n - 1):
                r = r * x
            return "f", z3.RealVal(1) / r, nan
    if z3.is_rational_value(tb2) and tb2.numerator_as_long() == 1 and tb2.denominator_as_long() == 2:
        x = to_kind(ta, ka, "f")
        return "f", uf("sqrt")(x), nan
    ta2 = z3.simplify(ta)
    if kb == "i" and z3.is_int_value(ta2) and ta2.as_long() == 2 and ka == "i":
        return "i", uf("pow2")(tb), None
    if kb == "i" and z3.is_int_value(ta2) and ta2.as_long() == 10 or z3.is_rational_value(ta2) and ta2.eq(z3.RealVal(10)) and kb == "i":
        from . import text
        if text.state() is not None:
            return "f", text.pow10(tb).t, nan
    x, y = to_kind(ta, ka, "f"), to_kind(tb, kb, "f")
    return "f", uf("pow")(x, y), nan


_UFS = {}
UF_SIG = {
    "sqrt": (R, R), "sin": (R, R), "cos": (R, R), "tan": (R, R), "arcsin": (R, R), "arccos": (R, R),
    "arctan": (R, R), "arctan2": (R, R, R), "exp": (R, R), "log": (R, R), "pow": (R, R, R),
    "pow2": (I, I), "erf": (R, R), "erfc": (R, R), "spacing": (R, R), "wofz_re": (R, R, R), "log2": (R, R),
    "log10": (R, R), "sinh": (R, R), "cosh": (R, R), "tanh": (R, R), "gamma": (R, R), "gammaln": (R, R),
}


def uf(name, *sig):
    key = (name,) + tuple(str(s) for s in sig)
    if key not in _UFS:
        _UFS[key] = z3.Function(name, *(sig or UF_SIG[name]))
    return _UFS[key]


def unop(op, a):
    from .arr import SArr, ew1
    from .carr import CVal, as_c, cabs, cexp, is_c
    if is_c(a):
        c = as_c(a)
        if op == "abs":
            return cabs(c)
        if op == "exp":
            return cexp(c)
        if op == "neg":
            return -c
        if op == "square":
            return c * c
        raise Unsupported("complex %s" % op)
    if isinstance(a, SArr):
        return ew1(op, a)
    r = scalar_un(op, lift(a))
    return SV(r[0], r[1], r[2], is_py(a))


def scalar_un(op, A):
    k, t, nan = A
    if op == "neg":
        if k == "b":
            raise TypeError("numpy boolean negative")
        return k, -t, nan
    if op == "abs":
        if k == "b":
            return A
        return k, zite(t >= 0, t, -t), nan
    if op == "inv":
        if k == "b":
            return "b", znot(t), None
        if k == "i":
            return "i", -t - 1, None
        raise TypeError("ufunc 'invert' not supported for the input types")
    if op == "lnot":
        return "b", znot(truth(SV(k, t, nan))), None
    if op == "isnan":
        return "b", (nan if nan is not None else FALSE), None
    if op == "sign":
        z, o, m = (z3.IntVal(0), z3.IntVal(1), z3.IntVal(-1)) if k != "f" else (z3.RealVal(0), z3.RealVal(1), z3.RealVal(-1))
        if k == "b":
            t, k = to_kind(t, "b", "i"), "i"
        return k, z3.If(t > 0, o, z3.If(t < 0, m, z)), nan
    if op == "floor":
        return "f", z3.ToReal(z3.ToInt(to_kind(t, k, "f"))), nan
    if op == "ceil":
        x = to_kind(t, k, "f")
        return "f", -z3.ToReal(z3.ToInt(-x)), nan
    if op == "rint":    # round half to even
        x = to_kind(t, k, "f") + z3.RealVal("1/2")
        m = z3.ToInt(x)
        return "f", z3.ToReal(z3.If(z3.And(z3.ToReal(m) == x, m % 2 == 1), m - 1, m)), nan
    if op == "square":
        if k == "b":
            return A
        return k, t * t, nan
    if op == "nan_to_num":
        return k, (t if nan is None else zite(nan, sort_zero(k), t)), None
    if op == "isfinite":
        return "b", (znot(nan) if nan is not None else TRUE), None
    if op in UF_SIG:
        x = to_kind(t, k, "f")
        if op == "log10":
            from . import text
            text.note_log10(x)
        return "f", uf(op)(x), nan
    raise Unsupported("unary op %s" % op)


def sort_zero(k):
    return {"b": FALSE, "i": z3.IntVal(0), "f": z3.RealVal(0)}[k]


# ----------------------------------------------------------------------
# context / explorer
# ----------------------------------------------------------------------
class Explorer:
    def __init__(self, trace):
        self.trace = list(trace)  # [(value, has_alternative)]
        self.pos = 0


class Ctx:
    def __init__(self, solver_factory, max_paths=400):
        from .solve import Prover
        self.prover = solver_factory() if solver_factory else Prover()
        self.pc = []            # list of z3 Bool facts (may contain ForAll)
        self.expl = []          # explorer stack
        self.obls = []          # recorded obligations
        self.probing = 0
        self.ghost = {}
        self.wlogs = []         # write-log stack
        self.max_paths = max_paths
        self.npaths = 0
        self.seen = set()
        self.notes = []
        self.assumed = set()    # names of assumed contracts used
        self.fn_label = ""

    # facts ------------------------------------------------------------
    def assume(self, f):
        f = zb(f)
        if z3.is_true(f):
            return
        self.pc.append(f)
        if z3.is_false(f):
            raise PathAbort()

    def feasible(self, extra):
        return self.prover.feasible(self.pc, extra)

    def prove(self, f):
        from .ratid import prove_identity
        return prove_identity(self.prover, self.pc, f, 4000) or self.valid(f)

    def valid(self, f, timeout=None):
        f = zb(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return self.prover.valid(self.pc, f, timeout)

    def decide(self, cond):
        cond = zb(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        c2 = z3.simplify(cond)
        if z3.is_true(c2):
            return True
        if z3.is_false(c2):
            return False
        from .solve import count_to_exists
        cond = count_to_exists(cond)
        if not self.expl:
            # outside exploration: only forced decisions allowed
            if self.valid(cond):
                return True
            if self.valid(znot(cond)):
                return False
            raise Unsupported("undetermined branch outside exploration")
        ex = self.expl[-1]
        if ex.pos < len(ex.trace):
            val, _ = ex.trace[ex.pos]
            ex.pos += 1
            self.pc.append(cond if val else znot(cond))
            return val
        if "text" in self.ghost:
            from .text import lin_valid     # a path that is in fact infeasible is harmless
            ft, ff = not lin_valid(znot(cond)), not lin_valid(cond)
        else:
            ft = self.feasible(cond)
            ff = self.feasible(znot(cond))
        if not ft and not ff:
            raise PathAbort()
        val = bool(ft)
        ex.trace.append((val, ft and ff))
        ex.pos += 1
        self.pc.append(cond if val else znot(cond))
        return val

    # exploration ------------------------------------------------------
    def explore(self, fn, catch=(Exception,)):
        """Run fn under every decision sequence.  Yields a list of
        (conds, kind, value, writes) with kind in ret/exc; heap writes of
        each run are undone."""
        outs = []
        stack = [[]]
        base = len(self.pc)
        born = next(_oid)
        while stack:
            trace = stack.pop()
            self.npaths += 1
            if self.npaths > self.max_paths:
                raise Unsupported("path budget exhausted")
            ex = Explorer(trace)
            self.expl.append(ex)
            log = {}
            self.wlogs.append(log)
            kind = None
            try:
                try:
                    val = fn()
                    kind = "ret"
                except catch as e:  # noqa
                    val, kind = e, "exc"
                except PathAbort:
                    kind = None
                conds = self.pc[base:]
            finally:
                self.expl.pop()
                self.wlogs.pop()
                writes = {}
                for o, old in log.items():
                    if o.oid < born:
                        writes[o] = o.snapshot()
                for o, old in log.items():
                    if o.oid < born:
                        o.restore(old)
                del self.pc[base:]
            for p in range(len(trace), len(ex.trace)):
                v, alt = ex.trace[p]
                if alt:
                    stack.append(ex.trace[:p] + [(not v, False)])
            if kind is not None:
                outs.append((conds, kind, val, writes))
        return outs

    def log_write(self, obj):
        """called before obj is mutated; obj has snapshot()/restore()/oid"""
        for log in self.wlogs:
            if obj not in log:
                log[obj] = obj.snapshot()

    # obligations ------------------------------------------------------
    def oblige(self, name, goal, info=None):
        if self.probing:
            return
        goal = zb(goal)
        self.obls.append(Obl(name, list(self.pc), goal, info))


class Obl:
    __slots__ = ("how", "name", "hyps", "goal", "info", "res", "model", "time", "detail")

    def __init__(self, name, hyps, goal, info):
        self.name, self.hyps, self.goal, self.info = name, hyps, goal, info
        self.res = None
        self.model = None
        self.time = 0.0
        self.detail = ""


_CTX = [None]


def CTX():
    return _CTX[0]


def set_ctx(c):
    _CTX[0] = c
