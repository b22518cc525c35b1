"""Contract API: symbolic inputs, path enumeration, named obligations."""
import json
import os
import re
import sys
import time
import traceback
import types

import z3

from . import core, npshim, ratid, solve
from .arr import SArr, as_sarr, dim, dimv, make_any, make_ext, make_sum, sym_arr, zi
from .core import (CTX, Ctx, FInt, fresh_name, Obl, PathAbort, SV, Unsupported, lift, set_ctx, to_kind, truth, zand, zb, zimp,
                   zite, znot, zor)
from .loader import Loader, REPO
from .solve import STATS, Prover
from .text import lin

CONTRACTS = {}      # pid -> [Contract]
STUBS = {}          # "mod:fn" -> stub callable
TIMES = {"solver": 0.0}


SIGNATURE = re.compile(r"positional argument|unexpected keyword argument|multiple values for (keyword )?argument|required keyword-only")


class Contract:
    def __init__(self, pid, target, fn, name, covers, op=None):
        self.pid, self.target, self.fn, self.name = pid, target, fn, name
        self.covers = covers
        self.op = op


def contract(pid, target, name=None, covers=(), op=None, nostub=(), hard=False, soft=False):
    """register a contract proof for `mod:function` under property pid; hard: the proof takes the solver so
    long that running out of time (unlike a refutation) says nothing about the code; soft: the specification mentions
    functions only known by name, so a failure counts only when an input reproduces it"""
    def deco(f):
        c = Contract(pid, target, f, name or (target.split(":")[1] + "/" + f.__name__), covers, op)
        c.nostub = nostub
        c.hard = hard
        c.soft = soft
        CONTRACTS.setdefault(pid, []).append(c)
        return f
    return deco


def stub(target):
    """contract of a public function as seen by its callers"""
    def deco(f):
        STUBS[target] = f
        return f
    return deco


class Path:
    def __init__(self, V, n, conds, kind, value, writes):
        self.V, self.n, self.conds, self.kind, self.value, self.writes = V, n, conds, kind, value, writes

    @property
    def ret(self):
        return self.value

    def ensure(self, name, goal):
        self.V.ensure(name, goal)

    def returned(self, name="no-exception"):
        """obligation: this path must not raise"""
        if self.kind == "exc":
            self.V.ensure(name, z3.BoolVal(False), "raises %s: %s" % (type(self.value).__name__, str(self.value)[:120]))
            return False
        self.V.ensure(name, z3.BoolVal(True))
        return True

    def raises(self, exc, name="raises"):
        if self.kind != "exc" or not isinstance(self.value, exc):
            self.V.ensure(name, z3.BoolVal(False), "expected %s, path %s" % (exc, self.kind))
            return False
        self.V.ensure(name, z3.BoolVal(True))
        return True

    def touched(self):
        return list(self.writes)


class _Suppose:
    def __init__(self, v, f):
        self.v, self.f = v, f

    def __enter__(self):
        self.mark = len(self.v.ctx.pc)
        self.v.assume(self.f)

    def __exit__(self, *a):
        del self.v.ctx.pc[self.mark:]


class V:
    """one contract verification session"""

    def __init__(self, c, ctx):
        self.c = c
        self.ctx = ctx
        self.inputs = {}
        self.nret = 0
        self.npaths = 0
        self.live = 0

    # ---- inputs
    def int(self, name, lo=None, hi=None, py=True):
        t = z3.Int(name)
        self.inputs[name] = ("i", t, ())
        if lo is not None:
            self.assume(t >= zi(lo))
        if hi is not None:
            self.assume(t <= zi(hi))
        return SV("i", t, py=py)

    def real(self, name, lo=None, gt=None, py=True, nan=False):
        t = z3.Real(name)
        self.inputs[name] = ("f", t, ())
        if lo is not None:
            self.assume(t >= lo)
        if gt is not None:
            self.assume(t > gt)
        return SV("f", t, py=py)

    def bool(self, name):
        t = z3.Bool(name)
        self.inputs[name] = ("b", t, ())
        return SV("b", t, py=True)

    def arr(self, name, shape, kind="f", nan=False):
        shape = tuple(shape)
        a = sym_arr(name, shape, kind, nan)
        self.inputs[name] = (kind, name, tuple(dim(s) for s in shape), nan)
        return a

    def assume(self, f):
        self.ctx.assume(zb(f))

    def ghost(self, name):
        """an arbitrary real the contract talks about but does not pass in"""
        return SV("f", z3.Real(fresh_name(name)))

    def anyint_in(self, name):
        """an integer input without bounds"""
        t = z3.Int(name)
        self.inputs[name] = ("i", t, ())
        return SV("i", t, py=True)

    def suppose(self, f):
        """with V.suppose(cond): the calls inside are verified under cond"""
        return _Suppose(self, f)

    def index(self, n, name="i"):
        t = FInt(name)
        self.assume(zand(t >= 0, t < zi(n)))
        return SV("i", t)

    def anyint(self, name="i"):
        return SV("i", FInt(name))

    def indices(self, *dims):
        return [self.index(d) for d in dims]

    # ---- running
    def loader(self, target=None, ext=None, extra_stubs=None):
        st = {k: v for k, v in STUBS.items() if k not in self.c.nostub}
        st.update(extra_stubs or {})
        return Loader(st, target or self.c.target, ext)

    def module(self, mod=None, **kw):
        return self.loader(**kw).module(mod or self.c.target.split(":")[0])

    def fn(self, **kw):
        m, q = self.c.target.split(":")
        o = self.loader(**kw).module(m)
        for p in q.split("."):
            o = getattr(o, p)
        return o

    def paths(self, call):
        """symbolically execute call() and iterate over its paths"""
        outs = self.ctx.explore(call)
        base = len(self.ctx.pc)
        n = 0
        for conds, kind, value, writes in outs:
            if kind == "exc" and not isinstance(value, (ValueError, TypeError, IndexError, KeyError, AssertionError,
                                                        ZeroDivisionError, NotImplementedError, RuntimeError,
                                                        AttributeError, StopIteration, OSError)):
                raise Unsupported("unexpected %r\n%s" % (value, "".join(traceback.format_tb(value.__traceback__)[-4:])))
            if kind == "exc" and isinstance(value, TypeError) and SIGNATURE.search(str(value)):
                raise Unsupported("signature: %s" % value)
            if kind == "exc" and isinstance(value, AttributeError) and (
                    isinstance(value.obj, types.ModuleType) or type(value.obj).__module__.startswith("skbeam")):
                raise Unsupported("state: %s" % value)
            if kind == "exc" and getattr(value, "__traceback__", None) is not None and \
                    isinstance(value, (AttributeError, TypeError, NameError)):
                tb = traceback.extract_tb(value.__traceback__)
                if tb and "/pyvc/" in tb[-1].filename and not getattr(value, "modelled", False) and \
                        isinstance(value, (AttributeError, NameError)):
                    raise Unsupported("engine: %r at %s:%s" % (value, tb[-1].filename, tb[-1].lineno))
            n += 1
            self.npaths += 1
            del self.ctx.pc[base:]
            self.ctx.pc += conds
            self.cur = n
            saved = {}
            for o, s in writes.items():
                saved[o] = o.snapshot()
                o.restore(s)
            try:
                yield Path(self, n, conds, kind, value, saved)
            finally:
                for o, s in saved.items():
                    o.restore(s)
        del self.ctx.pc[base:]

    def one(self, call):
        """single-path helper: returns the Path list"""
        return self.paths(call)

    # ---- obligations
    def ensure(self, name, goal, detail=""):
        if isinstance(goal, SV):
            goal = truth(goal)
        elif isinstance(goal, (bool,)):
            goal = z3.BoolVal(goal)
        elif hasattr(goal, "dtype") and not isinstance(goal, z3.ExprRef):
            goal = z3.BoolVal(bool(goal))
        o = Obl("%s#%s@path%d" % (self.c.name, name, getattr(self, "cur", 0)), list(self.ctx.pc), goal, None)
        o.detail = detail
        self.ctx.obls.append(o)

    def frame(self, p, *allowed):
        """no input array is modified"""
        ok = {id(a.st) if isinstance(a, SArr) else id(a) for a in allowed}
        for o in p.touched():
            if id(o) in ok:
                continue
            nm = getattr(o, "name", None)
            # a write that provably leaves every element as it was is allowed
            self.ensure("frame(%s)" % (nm or type(o).__name__), z3.BoolVal(False), "input %s is written" % nm)

    # ---- spec helpers
    def sorted(self, a, n, strict=False):
        """a[0..n) is ascending (stated for neighbours and, equivalently, for all pairs)"""
        lt = (lambda x, y: x < y) if strict else (lambda x, y: x <= y)
        self.assume(self.forall((n - 1,), lambda k: lt(a.at(k), a.at(k + 1))))
        self.assume(self.forall((n, n), lambda i, j: zimp(i < j, lt(a.at(i), a.at(j)))))

    def unique_values(self, a, U, n):
        """assume U[0..n) are exactly the values in the 1-D array a, in increasing order (so they are numpy.unique(a): the
        increasing enumeration of a finite set is unique)"""
        self.sorted(U, n, strict=True)
        m = a.shape[0]
        pos = z3.Function(fresh_name("uval"), z3.IntSort(), z3.IntSort())
        self.assume(self.forall((m,), lambda k: zand(pos(zi(k)) >= 0, pos(zi(k)) < zi(n), a.at(k) == U.at(SV("i", pos(zi(k)))))))
        self.assume(self.forall((n,), lambda q: self.exists((m,), lambda k: a.at(k) == U.at(q))))
        self.ctx.ghost.setdefault("unique", []).append((a, a.st.fn, U))

    def forall(self, dims, body):
        return make_any([dim(d) for d in dims], None, lambda c: zb(body(*[SV("i", x) for x in c])), every=True)

    def exists(self, dims, body):
        return make_any([dim(d) for d in dims], None, lambda c: zb(body(*[SV("i", x) for x in c])))

    def sum(self, dims, body, kind="f"):
        def b(c):
            k, t, n = lift(body(*[SV("i", x) for x in c]))
            return to_kind(t, k, kind)
        return SV(kind, make_sum(kind, [dim(d) for d in dims], None, b))

    def count(self, dims, cond):
        return SV("i", make_sum("i", [dim(d) for d in dims], None,
                                lambda c: zite(zb(cond(*[SV("i", x) for x in c])), z3.IntVal(1), z3.IntVal(0))))

    def ite(self, c, a, b):
        ka, ta, na = lift(a)
        kb, tb, nb = lift(b)
        k = core.kmax(ka, kb)
        return SV(k, zite(zb(c), to_kind(ta, ka, k), to_kind(tb, kb, k)))

    def len(self, x):
        """length of an array, a symbolic sequence, a finished list or a Python sequence"""
        if hasattr(x, "slen"):
            return SV("i", zi(dim(x.slen())))
        if isinstance(x, SArr):
            return SV("i", zi(dim(x.shape[0])))
        from .loader import b_len
        r = b_len(x)
        return r if isinstance(r, SV) else SV("i", z3.IntVal(int(r)))

    def at(self, x, *idx):
        r = x.at(*idx) if isinstance(x, SArr) else x[idx[0]]
        return r

    def nan(self, x):
        k, t, n = lift(x)
        return n if n is not None else z3.BoolVal(False)

    def notnan(self, x):
        return znot(self.nan(x))


# ---------------------------------------------------------------- models
def concretize(vs, model, limit=4000):
    out = {}

    def val(t):
        r = model.eval(t, model_completion=True)
        if z3.is_int_value(r):
            return r.as_long()
        if z3.is_rational_value(r):
            return float(r.numerator_as_long()) / float(r.denominator_as_long())
        if z3.is_algebraic_value(r):
            r = r.approx(12)
            return float(r.numerator_as_long()) / float(r.denominator_as_long())
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return None

    tot = 0
    for name, spec in vs.inputs.items():
        if spec[2] == () and not isinstance(spec[1], str):
            out[name] = val(spec[1])
            continue
        kind, fname, dims = spec[:3]
        shp = [val(zi(d)) if not isinstance(d, int) else d for d in dims]
        n = 1
        for s in shp:
            n *= max(0, s)
        tot += n
        if tot > limit:
            return None
        f = z3.Function(fname, *([core.I] * len(shp) + [core.sort_of(kind)]))
        import itertools
        data = [val(f(*[z3.IntVal(i) for i in ix])) for ix in itertools.product(*[range(max(0, s)) for s in shp])]
        if len(spec) > 3 and spec[3]:
            g = z3.Function(fname + "#nan", *([core.I] * len(shp) + [core.B]))
            nn = [val(g(*[z3.IntVal(i) for i in ix])) for ix in itertools.product(*[range(max(0, s)) for s in shp])]
            data = [None if b else a for a, b in zip(data, nn)]
        out[name] = {"shape": shp, "kind": kind, "data": data}
    return out


def size_bounds(vs, small):
    """bounds on the inputs used only when asking for a counterexample"""
    out = []
    for name, spec in vs.inputs.items():
        if spec[2] == () and not isinstance(spec[1], str):
            if spec[0] == "i":
                out += [spec[1] >= -small, spec[1] <= small]
            continue
        for d in spec[2]:
            if not isinstance(d, int):
                out.append(zi(d) <= small)
    return out


# ---------------------------------------------------------------- driver
def by_identity(ctx, o, tmo):
    """a goal that is an identity of rational functions, with its denominators shown non-zero by the prover"""
    return ratid.prove_identity(ctx.prover, o.hyps, o.goal, tmo)


def by_cases(ctx, o, tmo):
    """case distinction on a condition of the goal that guards a sum"""
    for c in solve.ite_sum_conds(o.goal)[:2]:
        for val in (True, False):
            left = ctx.deadline - time.time()
            if left <= 1:
                return False
            g = z3.substitute(o.goal, (c, z3.BoolVal(val)))
            h = o.hyps + [c if val else znot(c)]
            if ctx.prover.check(h + [znot(g)], timeout=min(tmo, left * 450), native=True)[0] != "unsat":
                break
        else:
            return True
    return False


def run_contract(c, budget=200.0, obl_timeout=8000, verbose=False):
    """returns dict: status proved/failed/unsupported + obligations"""
    t0 = time.time()
    res = {"name": c.name, "target": c.target, "obligations": [], "status": None, "assumed": [], "paths": 0, "hard": c.hard, "soft": c.soft}
    ctx = Ctx(lambda: Prover(obl_timeout))
    ctx.deadline = t0 + budget
    set_ctx(ctx)
    STATS["time"] = 0.0
    v = V(c, ctx)
    try:
        npre = None
        c.fn(v)
    except Unsupported as e:
        res.update(status="unsupported", reason=str(e)[:300], wall=time.time() - t0)
        if verbose:
            traceback.print_exc()
        return res
    except PathAbort:
        res.update(status="unsupported", reason="precondition unsatisfiable", wall=time.time() - t0)
        return res
    except RecursionError as e:
        res.update(status="unsupported", reason="recursion", wall=time.time() - t0)
        return res
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        res.update(status="unsupported", reason="engine error %s: %s at %s:%s" % (type(e).__name__, str(e)[:200], tb[-1].filename,
                                                                                tb[-1].lineno), wall=time.time() - t0)
        if verbose:
            traceback.print_exc()
        return res
    res["paths"] = v.npaths
    res["assumed"] = sorted(ctx.assumed)
    fails = []
    live = 0
    seen_pc = {}
    for o in ctx.obls:
        t1 = time.time()
        left = ctx.deadline - t1
        if z3.is_true(o.goal):
            o.res = "trivial"
        elif left <= 0:
            o.res = "timeout"
        elif "text" in ctx.ghost and lin(ctx).valid(o.hyps, o.goal):
            o.res = "proved"
            o.how = "linear relaxation"
        elif by_identity(ctx, o, obl_timeout):
            o.res = "proved"
            o.how = "rational identity"
        elif by_cases(ctx, o, obl_timeout):
            o.res = "proved"
            o.how = "case distinction"
        else:
            r, m = ctx.prover.check(o.hyps + [znot(o.goal)], timeout=min(obl_timeout, max(500, left * 1000)), want_model=True, native=True)
            if r == "unknown":   # slow machine or hard query: one longer attempt before giving up
                left = ctx.deadline - time.time()
                if left > 2:
                    r, m = ctx.prover.check(o.hyps + [znot(o.goal)], timeout=min(5 * obl_timeout, left * 450), want_model=True, native=True)
            if r != "unsat":
                cf = solve.count_facts(o.hyps + [o.goal])
                left = ctx.deadline - time.time()
                if cf and left > 1:
                    r2, m2 = ctx.prover.check(o.hyps + cf + [znot(o.goal)], timeout=min(obl_timeout, left * 450), want_model=True, native=True)
                    if r2 == "unsat":
                        r, m = r2, m2
            o.res = {"unsat": "proved", "sat": "refuted", "unknown": "unknown"}[r]
            o.model = m
        o.time = time.time() - t1
        if o.res in ("refuted", "unknown", "timeout"):
            entry = {"name": o.name, "res": o.res, "detail": o.detail, "goal": str(z3.simplify(o.goal))[:600]}
            if o.res != "timeout":
                for small in (3, 6, 14, 40):
                    r2, m2 = ctx.prover.check(size_bounds(v, small) + o.hyps + [znot(o.goal)], timeout=4000,
                                              want_model=True)
                    if r2 == "sat" and m2 is not None:
                        try:
                            entry["case"] = concretize(v, m2)
                        except Exception as e:  # pragma: no cover
                            entry["case_error"] = repr(e)
                        break
            fails.append(entry)
        res["obligations"].append({"name": o.name, "res": o.res, "t": round(o.time, 3)})
        if verbose:
            print("   %-70s %s %.2fs" % (o.name, o.res, o.time), o.detail, flush=True)
    # vacuity: some path of the contract must be satisfiable
    vac = True
    for o in ctx.obls:
        k = tuple(h.get_id() for h in o.hyps)
        if k in seen_pc:
            continue
        seen_pc[k] = 1
        r, _ = ctx.prover.check(o.hyps + [z3.BoolVal(True)], timeout=2000, sums=False)
        if r != "unsat":
            vac = False
            break
    res["canary"] = "ok" if not vac else "vacuous"
    res["solver_s"] = round(STATS["time"], 2)
    res["fails"] = fails
    if not ctx.obls or vac:
        res.update(status="unsupported", reason="vacuous: no satisfiable path / no obligations")
    elif fails and all(f["name"].startswith("invariant:") for f in fails):
        res.update(status="unsupported", reason="the loop invariant of the contract does not fit this code: %s" % fails[0]["name"])
    elif fails:
        res["status"] = "failed"
    else:
        res["status"] = "proved"
    res["wall"] = round(time.time() - t0, 2)
    return res
