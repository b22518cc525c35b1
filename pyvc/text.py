"""Formatted numbers as text, and a file system that records what is written to it.

Active only inside a contract that turns it on (`text.on(ctx)`).  A symbolic number printed by a %-directive, str.format or an
f-string becomes a run of one private-use character, as long as the printed field, so that the string functions of Python work
on it unchanged: joining, padding, slicing columns, splitting at blanks.  float() or int() of a string that holds exactly one
complete run gives the number back up to the printed precision (a fresh value r with |r - v| <= 10**-p / 2); float() of anything
else that contains a run gives a value nothing is known about.  A field is taken to leave a blank in front only where that is
proved from the facts at hand.
"""
import re

import z3

from .core import CTX, FInt, FReal, SV, Unsupported, lift, real_of, to_kind, uf, zand, zb

BASE = 0xF0000
SPEC = re.compile(r"%(?:\((\w+)\))?([-+ #0]*)(\d+)?(?:\.(\d+))?([hlL])?([diufFeEgGsr%])")


def state():
    c = CTX()
    return c.ghost.get("text") if c is not None else None


def on(ctx):
    ctx.ghost["text"] = {"vals": [], "logs": [], "pows": []}


def sym(x):
    return isinstance(x, SV) and x.concrete() is None


def conc(x):
    return x.concrete() if isinstance(x, SV) else x


def run(rec, n):
    s = state()
    s["vals"].append(rec + (n,))
    return chr(BASE + len(s["vals"]) - 1) * n


def _qf(f, seen):
    if z3.is_quantifier(f):
        return False
    if f.get_id() in seen:
        return True
    seen[f.get_id()] = f
    return all(_qf(c, seen) for c in f.children())


class Lin:
    """validity in linear real arithmetic: products, quotients and applications become unknowns (equal terms the same one) and
    integers range over the reals, so what is valid here is valid"""

    def __init__(self):
        self.memo, self.vars, self.keep, self.extra, self.qf = {}, {}, [], [], {}

    def var(self, key, sort):
        if key not in self.vars:
            self.vars[key] = z3.FreshConst(z3.BoolSort() if sort == z3.BoolSort() else z3.RealSort(), "ab")
        return self.vars[key]

    def integral(self, t):
        """t (real sort) certainly has an integer value"""
        if z3.is_rational_value(t):
            return t.as_fraction().denominator == 1
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_TO_REAL:
            return True
        if k == z3.Z3_OP_ITE:
            return self.integral(t.arg(1)) and self.integral(t.arg(2))
        return k in (z3.Z3_OP_UMINUS, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL) and all(self.integral(c) for c in t.children())

    def factors(self, t):
        """(rational coefficient, [other factors])"""
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return t.as_fraction() if z3.is_rational_value(t) else t.as_long(), []
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_MUL:
            c, fs = 1, []
            for a in t.children():
                ca, fa = self.factors(a)
                c, fs = c * ca, fs + fa
            return c, fs
        if k == z3.Z3_OP_UMINUS:
            c, fs = self.factors(t.arg(0))
            return -c, fs
        if k == z3.Z3_OP_DIV and z3.is_rational_value(t.arg(1)) and t.arg(1).as_fraction() != 0:
            c, fs = self.factors(t.arg(0))
            return c / t.arg(1).as_fraction(), fs
        return 1, [t]

    def term(self, t):
        i = t.get_id()
        if i in self.memo:
            return self.memo[i]
        self.keep.append(t)
        r = self._term(t)
        self.memo[i] = r
        return r

    def _term(self, t):
        if not z3.is_app(t) or not (z3.is_bool(t) or z3.is_arith(t)):
            return self.var(("q", t.get_id()), t.sort()) if z3.is_bool(t) or z3.is_arith(t) else t
        k = t.decl().kind()
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        if z3.is_rational_value(t):
            return t
        if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
            c, fs = self.factors(t)
            if len(fs) == 0:
                return real_of(c)
            if len(fs) == 1 and fs[0].get_id() != t.get_id():
                m = self.term(fs[0])
            else:
                m = self.var(("p" if k == z3.Z3_OP_MUL else t.get_id(),) + tuple(sorted(f.get_id() for f in fs)), t.sort())
                self.keep += fs
                if k == z3.Z3_OP_MUL and len(fs) == 2 and fs[0].eq(fs[1]):
                    self.extra += [m >= 0, z3.Implies(self.term(fs[0]) != 0, m > 0)]
            return m * real_of(c) if c != 1 else m
        if k == z3.Z3_OP_TO_REAL:
            return self.term(t.arg(0))
        if k == z3.Z3_OP_TO_INT:
            x = self.term(t.arg(0))
            if self.integral(t.arg(0)):
                return x
            v = self.var(("f", t.get_id()), t.sort())
            self.extra += [v <= x, x < v + 1, z3.Implies(x >= 0, v >= 0), z3.Implies(x < 0, v <= -1)]
            return v
        if t.num_args() == 0:
            return t if z3.is_bool(t) else self.var(("c", t.get_id()), t.sort())
        if k == z3.Z3_OP_UNINTERPRETED or k in (z3.Z3_OP_POWER, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_IS_INT):
            return self.var(("a", t.get_id()), t.sort())
        a = [self.term(x) for x in t.children()]
        if k == z3.Z3_OP_ADD:
            return z3.Sum(a)
        if k == z3.Z3_OP_SUB:
            return a[0] - z3.Sum(a[1:])
        if k == z3.Z3_OP_UMINUS:
            return -a[0]
        if k == z3.Z3_OP_ITE:
            return z3.If(a[0], a[1], a[2])
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            return {z3.Z3_OP_LE: a[0] <= a[1], z3.Z3_OP_LT: a[0] < a[1], z3.Z3_OP_GE: a[0] >= a[1], z3.Z3_OP_GT: a[0] > a[1]}[k]
        if k == z3.Z3_OP_EQ:
            return a[0] == a[1] if z3.is_bool(a[0]) == z3.is_bool(a[1]) and (z3.is_bool(a[0]) or z3.is_arith(a[0])) else self.var(("b", t.get_id()), t.sort())
        if k == z3.Z3_OP_DISTINCT and len(a) == 2 and z3.is_arith(a[0]):
            return a[0] != a[1]
        if all(z3.is_bool(x) for x in a):
            return t.decl()(*a)
        return self.var(("b", t.get_id()), t.sort())

    def valid(self, facts, goal):
        s = z3.Solver()
        s.set("timeout", 2000)
        for f in facts:
            i = f.get_id()
            if i not in self.qf:
                self.qf[i] = _qf(f, {})
                self.keep.append(f)
            if self.qf[i]:
                s.add(self.term(f))
        s.add(z3.Not(self.term(goal)))
        s.add(*self.extra)
        return s.check() == z3.unsat


def lin(ctx):
    s = ctx.ghost["text"]
    if "lin" not in s:
        s["lin"] = Lin()
    return s["lin"]


def lin_valid(goal):
    goal = zb(goal)
    return z3.is_true(goal) or not z3.is_false(goal) and lin(CTX()).valid(CTX().pc, goal)


def scaled(t):
    """tautologies about products with a power of ten, for the linear reasoning: a <= m implies a * p <= m * p"""
    s = state()
    seen = {}

    def walk(u):
        if u.get_id() in seen:
            return
        seen[u.get_id()] = u
        if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_MUL:
            _, fs = Lin().factors(u)
            for p, ms in s["pows"]:
                if len(fs) == 2 and any(f.eq(p) for f in fs):
                    a = fs[0] if fs[1].eq(p) else fs[1]
                    CTX().assume(z3.Implies(a >= 0, a * p >= 0))
                    CTX().assume(z3.Implies(p <= 1, z3.Implies(a >= 0, a * p <= a)))
                    CTX().assume(z3.Implies(p == 1, a * p == a))
                    for m in ms:
                        CTX().assume(z3.Implies(a <= m, a * p <= m * p))
        for ch in u.children():
            walk(ch)
    walk(t)


def number(v, width, prec, left=False, flags=""):
    """text of v printed with `prec` digits after the point in a field of `width`"""
    c = CTX()
    k, t, nan = lift(v)
    if nan is not None or k == "b":
        raise Unsupported("text of this value")
    if prec == 0 and k == "i":
        d, kk = t, "i"
    else:
        d, kk = FInt("dig"), "f"
        x = to_kind(t, k, "f") * (10 ** prec)
        c.assume(zand(2 * (z3.ToReal(d) - x) <= 1, 2 * (x - z3.ToReal(d)) <= 1))
    point = prec + 1 if prec else 0

    def fits(n):
        m = n - (1 if prec else 0)      # digits
        if m < prec + 1:
            return z3.BoolVal(False)
        return zand(d < z3.IntVal(10 ** m), d > -z3.IntVal(10 ** (m - 1)) if m - 1 > prec else d >= 0)
    rec = ("num", d, prec, kk)
    if not width:
        return run(rec, point + 2)
    scaled(t)
    if lin_valid(fits(width - 1)):
        return (run(rec, width - 1) + " ") if left else (" " + run(rec, width - 1))
    n = width
    while True:
        if lin_valid(fits(n)) or not lin_valid(z3.Not(fits(n))) and c.decide(fits(n)):
            return run(rec, n)
        n += 1
        if n > width + 10:
            raise Unsupported("field overflow")


def exact(v, sig=None):
    """text that keeps the number exactly (sig None) or to `sig` significant digits"""
    return run(("exact" if sig is None else "sig", v, sig, "f"), 3)


def fmt(s, args):
    """s % args"""
    if state() is None:
        return "<formatted>"
    if not isinstance(args, (tuple, dict)):
        args = (args,)
    pos = [0]

    def one(m):
        name, flags, width, prec, _, cv = m.groups()
        if cv == "%":
            return "%"
        if name is not None:
            v = args[name]
        else:
            if pos[0] >= len(args):
                raise TypeError("not enough arguments for format string")
            v = args[pos[0]]
            pos[0] += 1
        if not sym(v):
            return ("%" + flags + (width or "") + ("." + prec if prec else "") + cv) % (conc(v),)
        w = int(width or 0)
        if cv in "di":
            if v.k == "f":
                raise Unsupported("%d of a float")
            return number(v, w, 0, "-" in flags)
        if cv in "fF":
            if set(flags) - {"-"}:
                raise Unsupported("format flags")
            return number(v, w, int(prec) if prec is not None else 6, "-" in flags)
        if cv in "gG":
            return exact(v, int(prec) if prec is not None else 6)
        if cv in "eE":
            p = int(prec) if prec is not None else 6
            return exact(v, None if p >= 16 else p + 1)
        return exact(v)
    if not isinstance(args, dict):
        n = sum(1 for m in SPEC.finditer(s) if m.group(6) != "%")
        if n < len(args):
            raise TypeError("not all arguments converted during string formatting")
    return SPEC.sub(one, s)


def newfmt(v, spec):
    """format(v, spec) of a symbolic number"""
    m = re.fullmatch(r"([<>=^]?)([-+ ]?)(\d+)?(?:\.(\d+))?([dfFgGeE]?)", spec)
    if m is None:
        raise Unsupported("format spec")
    al, sg, width, prec, cv = m.groups()
    if al in ("=", "^") or sg in ("+", " "):
        raise Unsupported("format spec")
    w = int(width or 0)
    if cv == "d" or cv == "" and v.k == "i" and prec is None:
        return number(v, w, 0, al == "<")
    if cv in "fF" and cv:
        return number(v, w, int(prec) if prec is not None else 6, al == "<")
    if cv in "gG" and cv:
        return exact(v, int(prec) if prec is not None else 6)
    if cv in "eE" and cv:
        p = int(prec) if prec is not None else 6
        return exact(v, None if p >= 16 else p + 1)
    if not w:
        return exact(v)
    raise Unsupported("format spec")


def has_run(s):
    return any(ord(ch) >= BASE for ch in s)


def parse(s, kind):
    """float(s) / int(s) of text that may show symbolic numbers"""
    u = s.strip()
    if not has_run(u):
        return float(u) if kind == "f" else int(u)
    vals = state()["vals"]
    what, d, prec, kk, n = vals[ord(u[0]) - BASE] if ord(u[0]) >= BASE else (None,) * 5
    if what is None or u != u[0] * n:
        # a piece of a number, or several run together: nothing is known about the result
        return SV("f", FReal("cut"), py=True) if kind == "f" else SV("i", FInt("cut"), py=True)
    if what == "num":
        if kind == "i":
            if prec:
                raise ValueError("invalid literal for int()")
            return SV("i", d, py=True)
        return SV("f", z3.ToReal(d) / real_of(10 ** prec) if prec else z3.ToReal(d), py=True)
    if kind == "i":
        raise ValueError("invalid literal for int()")
    if what == "exact":
        return SV("f", to_kind(lift(d)[1], lift(d)[0], "f"), py=True)
    return SV("f", FReal("sig"), py=True)


# ------------------------------------------------------------------ powers of ten
def note_log10(x):
    s = state()
    if s is not None:
        s["logs"].append(x)


def pow10(e):
    """10**e for a symbolic integer e, with what is known of it (the definition of the decimal logarithm)"""
    c = CTX()
    p = uf("pow")(z3.RealVal(10), z3.ToReal(e))
    for f in (p > 0, z3.Implies(e == 0, p == 1), z3.Implies(e < 0, p * 10 <= 1), z3.Implies(e > 0, p >= 10)):
        c.assume(f)
    ms = []
    for x in state()["logs"]:
        L = uf("log10")(x)
        for f in (z3.Implies(z3.ToReal(e) <= L, p <= x), z3.Implies(z3.ToReal(e) + 1 > L, p * 10 > x)):
            c.assume(z3.Implies(x > 0, f))
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_DIV:
            a, m = x.arg(0), x.arg(1)       # x = a / m with a, m > 0: multiplied out
            ms.append(m)
            for f in (z3.Implies(z3.ToReal(e) <= L, p * m <= a), z3.Implies(z3.ToReal(e) + 1 > L, p * m * 10 > a),
                      z3.Implies(a >= m, L >= 0), z3.Implies(a < m, L < 0)):
                c.assume(z3.Implies(zand(a > 0, m > 0), f))
    state()["pows"].append((p, ms))
    return SV("f", p)


# ------------------------------------------------------------------ files
class File:
    def __init__(self, fs, path, mode):
        self.fs, self.path, self.mode, self.closed, self.pos = fs, path, mode, False, 0
        if "w" in mode:
            fs.files[path] = []
        elif path not in fs.files:
            raise FileNotFoundError(path)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def write(self, s):
        if self.closed or not set(self.mode) & set("wa+"):
            raise ValueError("I/O operation on closed file.")
        if isinstance(s, bytes) != ("b" in self.mode):
            raise TypeError("a bytes-like object is required" if "b" in self.mode else "write() argument must be str")
        self.fs.files[self.path].append(s.decode("utf-8") if isinstance(s, bytes) else s)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def text(self):
        parts = self.fs.files[self.path]
        if any(not isinstance(x, str) for x in parts):
            raise Unsupported("reading back a table")
        return "".join(parts)

    def read(self, n=-1):
        if n != -1:
            raise Unsupported("partial read")
        return self.text() if "b" in self.mode else self.text().replace("\r\n", "\n")

    def readlines(self):
        from .seq import SList
        s = self.read()
        out = re.findall(r"[^\n]*\n|[^\n]+$", s)
        r = SList(out[self.pos:])
        self.pos = len(out)
        return r

    def readline(self):
        ls = re.findall(r"[^\n]*\n|[^\n]+$", self.read())
        self.pos += 1
        return ls[self.pos - 1] if self.pos <= len(ls) else ""

    def __iter__(self):
        return iter(list(self.readlines()))


class FS:
    """a recorded file system: dirs that exist and the files in them"""

    def __init__(self, dirs=(), files=()):
        self.dirs, self.files, self.removed = set(dirs), {f: ["<old>"] for f in files}, []

    def open(self, path, mode="r", *a, **k):
        import posixpath
        d = posixpath.dirname(path)
        if set(mode) & set("wa") and d and d not in self.dirs:
            raise FileNotFoundError(path)
        return File(self, path, mode)

    def remove(self, p):
        if p not in self.files:
            raise FileNotFoundError(p)
        del self.files[p]
        self.removed.append(p)

    def os(self):
        fs = self

        class _Path:
            exists = staticmethod(lambda p: p in fs.dirs or p in fs.files)
            isfile = staticmethod(lambda p: p in fs.files)
            isdir = staticmethod(lambda p: p in fs.dirs)

            def __getattr__(self, n):
                import posixpath
                if n in ("join", "splitext", "basename", "dirname", "split", "normpath"):
                    return getattr(posixpath, n)
                raise Unsupported("os.path." + n)

        class _Os:
            path = _Path()
            sep = "/"
            remove = staticmethod(fs.remove)
            unlink = remove

            def __getattr__(self, n):
                raise Unsupported("os." + n)
        return _Os()


class Table:
    """rows written by numpy.savetxt"""

    def __init__(self, arr, fmt, delimiter):
        self.arr, self.fmt, self.delimiter = arr, fmt, delimiter

    def exact(self):
        """the printed numbers and separators let numpy.loadtxt read the very same doubles"""
        m = re.fullmatch(r"%\.(\d+)[eE]", self.fmt)
        g = re.fullmatch(r"%\.(\d+)[gG]", self.fmt)
        return bool(m and int(m.group(1)) >= 16 or g and int(g.group(1)) >= 17) and self.delimiter.isspace()


def savetxt(f, X, fmt="%.18e", delimiter=" ", newline="\n", header="", footer="", comments="# ", encoding=None):
    from .arr import as_sarr
    if state() is None or not isinstance(f, File) or newline != "\n" or not isinstance(fmt, str):
        raise Unsupported("savetxt")
    if f.closed or "w" not in f.mode:
        raise ValueError("I/O operation on closed file.")
    parts = f.fs.files[f.path]
    if header:
        parts.append(comments + header.replace("\n", "\n" + comments) + "\n")
    parts.append(Table(as_sarr(X), fmt, delimiter))
    if footer:
        parts.append(comments + footer.replace("\n", "\n" + comments) + "\n")
