"""Mechanical front end: real source -> instrumented code objects.

Every run re-reads the module source below the repository root, applies the
AST rewriting described in DESIGN.md (loops -> closures, comprehensions ->
hooks, list displays -> logged lists, generators -> traces, %-formatting ->
opaque strings) and executes the result under CPython with symbolic stand-ins
for numpy/scipy and for functions that have their own contract.
"""
import ast
import builtins
import collections
import itertools
import os
import types

from . import core, loops, npshim, seq, text
from .arr import SArr, as_sarr, const_sel, dim, dimv, reduce_, zi
from .core import CTX, SV, Unsupported, binop, cast, lift, truth, unop

REPO = os.environ.get("PYVC_REPO", "/repo")


class Names(ast.NodeVisitor):
    """names bound in a statement list (function scope)"""

    def __init__(self):
        self.out = []

    def add(self, n):
        if n not in self.out:
            self.out.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        if not n.name.startswith(("_vc_body_", "_vc_cond_")):
            self.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass

    visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp
    visit_ClassDef = visit_FunctionDef

    def visit_ExceptHandler(self, n):
        if n.name:
            self.add(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import


def call(fn, *args):
    return ast.Call(func=ast.Name(fn, ast.Load()), args=list(args), keywords=[])


def lam(target, body):
    """lambda taking one arg, destructured to target"""
    if isinstance(target, ast.Name):
        return ast.Lambda(args=mkargs([target.id]), body=body)
    names = []

    def ren(t):
        if isinstance(t, ast.Name):
            names.append(t.id)
            return ast.Name(t.id, ast.Load())
        if isinstance(t, (ast.Tuple, ast.List)):
            return ast.Tuple([ren(e) for e in t.elts], ast.Load())
        raise Unsupported("comprehension target")
    struct = ren(target)
    # (lambda names: body)(*flatten(x, struct))
    inner = ast.Lambda(args=mkargs(names), body=body)
    spec = shape_spec(target)
    return ast.Lambda(args=mkargs(["_vc_x"]), body=ast.Call(
        func=inner, args=[ast.Starred(call("_vc_flat", ast.Name("_vc_x", ast.Load()), ast.Constant(spec)), ast.Load())],
        keywords=[]))


def shape_spec(t):
    if isinstance(t, ast.Name):
        return None
    return tuple(shape_spec(e) for e in t.elts)


def rt_flat(x, spec):
    if spec is None:
        return [x]
    out = []
    xs = list(x)
    if len(xs) != len(spec):
        raise ValueError("not enough values to unpack")
    for a, s in zip(xs, spec):
        out += rt_flat(a, s)
    return out


def mkargs(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], vararg=None, kwonlyargs=[], kw_defaults=[],
                         kwarg=None, defaults=[])


class Rewriter(ast.NodeTransformer):
    def __init__(self, label):
        self.n = 0
        self.label = label
        self.gen_stack = [False]

    # --- expressions
    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return call("_vc_List", node)
        return node

    def _comp(self, node, kind, elt):
        gens = node.generators
        if len(gens) == 1:
            g = gens[0]
            conds = ast.List([lam(g.target, c) for c in g.ifs], ast.Load())
            return call("_vc_comp", g.iter, lam(g.target, elt), conds, ast.Constant(kind))
        # nested: flatten inner lists
        g = gens[0]
        inner = type(node)(**{**{f: getattr(node, f) for f in node._fields}, "generators": gens[1:]})
        inn = self._comp(inner, kind, elt)
        conds = ast.List([lam(g.target, c) for c in g.ifs], ast.Load())
        return call("_vc_concat", call("_vc_comp", g.iter, lam(g.target, inn), conds, ast.Constant("list")))

    def visit_ListComp(self, node):
        self.generic_visit(node)
        return self._comp(node, "list", node.elt)

    def visit_GeneratorExp(self, node):
        self.generic_visit(node)
        return self._comp(node, "gen", node.elt)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._comp(node, "set", node.elt)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return self._comp(node, "dict", ast.Tuple([node.key, node.value], ast.Load()))

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return call("_vc_fmt", node.left, node.right)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id == "zip" and len(node.args) == 1 and isinstance(node.args[0], ast.Starred) and not node.keywords:
            return call("_vc_zipstar", node.args[0].value)
        if isinstance(f, ast.Attribute) and f.attr in ("join", "format") and isinstance(f.value, ast.Constant) and \
                isinstance(f.value.value, str):
            return ast.Call(ast.Name("_vc_str", ast.Load()), [ast.Constant(f.attr), f.value] + node.args, node.keywords)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        return call("_vc_fstr", ast.Lambda(mkargs([]), node))

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = ast.Name("Exception", ast.Load())
        return node

    # --- functions
    def visit_FunctionDef(self, node):
        has_y = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(node))
        self.gen_stack.append(has_y)
        node.decorator_list = [d for d in node.decorator_list]
        self.generic_visit(node)
        self.gen_stack.pop()
        if has_y:
            node.body = [ast.Assign([ast.Name("_vc_gen", ast.Store())], call("_vc_List", ast.List([], ast.Load())))] + \
                node.body + [ast.Return(ast.Name("_vc_gen", ast.Load()))]
        if node.name == "__iter__":
            # generators run eagerly here; the iterator protocol needs an iterator object
            for x in own_nodes(node):
                if isinstance(x, ast.Return) and x.value is not None:
                    x.value = call("iter", x.value)
            if has_y:
                node.body[-1] = ast.Return(call("iter", ast.Name("_vc_gen", ast.Load())))
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs:
            a.annotation = None
        return node

    def visit_Return(self, node):
        self.generic_visit(node)
        if self.gen_stack[-1]:
            node.value = ast.Name("_vc_gen", ast.Load())
        return node

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Yield):
            self.generic_visit(node)
            return ast.Expr(ast.Call(ast.Attribute(ast.Name("_vc_gen", ast.Load()), "append", ast.Load()),
                                     [call("_vc_snap", node.value.value or ast.Constant(None))], []))
        self.generic_visit(node)
        return node

    def visit_While(self, node):
        return self._loop(node, None)

    def visit_For(self, node):
        return self._loop(node, node.target)

    def _loop(self, node, target):
        self.generic_visit(node)
        self.n += 1
        lid = self.n
        nm = Names()
        if target is not None:
            nm.visit(target)
        for s in node.body:
            nm.visit(s)
        names = nm.out
        bname = "_vc_body_%d" % lid
        tup = ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())
        body = node.body
        conv = BodyConv(names)
        body = [conv.visit(s) for s in body]
        flat = []
        for s in body:
            flat += s if isinstance(s, list) else [s]
        # enter: names = state ; delete unbound ; target = item
        pre = []
        if names:
            pre.append(ast.Assign([ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())],
                                  ast.Name("_vc_st", ast.Load())))
            for n in names:
                pre.append(ast.If(ast.Compare(ast.Name(n, ast.Load()), [ast.Is()], [ast.Name("_vc_UNB", ast.Load())]),
                                  [ast.Delete([ast.Name(n, ast.Del())])], []))
        cfn = []
        if target is not None:
            pre.append(ast.Assign([target], ast.Name("_vc_item", ast.Load())))
            loop, it = "_vc_for", node.iter
        else:
            import copy
            loop, it = "_vc_while", ast.Name("_vc_cond_%d" % lid, ast.Load())
            cfn = [ast.FunctionDef(name="_vc_cond_%d" % lid, args=mkargs(["_vc_st"]), body=copy.deepcopy(pre) + [ast.Return(node.test)],
                                   decorator_list=[], returns=None, type_params=[])]
        fn = ast.FunctionDef(name=bname, args=mkargs(["_vc_item", "_vc_st"]), body=pre + flat + [ret_state("next", names)],
                             decorator_list=[], returns=None, type_params=[])
        rname = "_vc_r_%d" % lid
        out = cfn + [fn, ast.Assign([ast.Name(rname, ast.Store())], call(
            loop, it, ast.Name(bname, ast.Load()),
            state_tuple(names), ast.Constant(tuple(names)), ast.Constant("%s:%s@%d" % (self.label, loop[2:], lid))))]
        if names:
            out.append(ast.Assign([ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())],
                                  ast.Attribute(ast.Name(rname, ast.Load()), "vals", ast.Load())))
            for n in names:
                out.append(ast.If(ast.Compare(ast.Name(n, ast.Load()), [ast.Is()], [ast.Name("_vc_UNB", ast.Load())]),
                                  [ast.Delete([ast.Name(n, ast.Del())])], []))
        if conv.has_ret:
            rv = ast.Attribute(ast.Name(rname, ast.Load()), "rv", ast.Load())
            out.append(ast.If(ast.Compare(ast.Attribute(ast.Name(rname, ast.Load()), "status", ast.Load()), [ast.Eq()],
                                          [ast.Constant("return")]), [ast.Return(rv)], []))
        if node.orelse:
            out.append(ast.If(ast.Compare(ast.Attribute(ast.Name(rname, ast.Load()), "status", ast.Load()), [ast.NotEq()],
                                          [ast.Constant("break")]), node.orelse, []))
        return out


def own_nodes(fn):
    st = list(fn.body)
    while st:
        x = st.pop()
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        yield x
        st += list(ast.iter_child_nodes(x))


def getvar(n):
    # value or UNB: evaluated through locals() snapshot
    return ast.Call(ast.Attribute(ast.Call(ast.Name("_vc_locals", ast.Load()), [], []), "get", ast.Load()),
                    [ast.Constant(n), ast.Name("_vc_UNB", ast.Load())], [])


def state_tuple(names):
    if not names:
        return ast.Tuple([], ast.Load())
    return call("_vc_grab", ast.Call(ast.Name("_vc_locals", ast.Load()), [], []), ast.Constant(tuple(names)))


def ret_state(status, names, val=None):
    return ast.Return(ast.Tuple([ast.Constant(status), state_tuple(names), val or ast.Constant(None)], ast.Load()))


class BodyConv(ast.NodeTransformer):
    """break/continue/return inside a loop body -> closure result"""

    def __init__(self, names):
        self.names = names
        self.has_ret = False
        self.depth = 0

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_Break(self, n):
        return n if self.depth else ret_state("break", self.names)

    def visit_Continue(self, n):
        return n if self.depth else ret_state("next", self.names)

    def visit_Return(self, n):
        self.has_ret = True
        return ret_state("return", self.names, n.value)


# ---------------------------------------------------------------- builtins
def b_len(x):
    if hasattr(x, "slen"):
        return x.slen()
    if isinstance(x, (SV, int, float)):
        raise TypeError("object of type 'int' has no len()")
    return builtins.len(x)


def b_range(*a):
    a = [x.item() if isinstance(x, SArr) and x.ndim == 0 else x for x in a]
    a2 = []
    for x in a:
        if isinstance(x, SV):
            if x.k == "f":
                raise TypeError("'float' object cannot be interpreted as an integer")
            c = x.concrete()
            a2.append(int(c) if c is not None else x)
        else:
            a2.append(x)
    if all(isinstance(x, int) for x in a2):
        return builtins.range(*a2)
    if len(a2) == 1:
        return seq.SRange(0, a2[0])
    return seq.SRange(*a2)


def b_enumerate(x, start=0):
    return seq.SEnum(x, start)


def b_zip(*xs):
    return seq.SZip(xs)


def b_int(x=0, *a):
    if isinstance(x, SArr):
        x = x.item()
    if isinstance(x, SV):
        c = x.concrete()
        if c is not None:
            return int(c)
        if x.nan is not None:
            if CTX().decide(x.nan):
                raise ValueError("cannot convert float NaN to integer")
        r = cast(SV(x.k, x.t), "i")
        r.py = True
        return r
    if isinstance(x, str) and text.state() is not None:
        return text.parse(x, "i")
    return builtins.int(x, *a)


b_int._pyvc_builtin = "int"


def b_float(x=0.0):
    if isinstance(x, SArr):
        n = x.size
        if not (isinstance(n, int) and n == 1):
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        x = x.item()
    if isinstance(x, SV):
        r = cast(x, "f")
        r.py = True
        return r
    if isinstance(x, str) and text.state() is not None:
        return text.parse(x, "f")
    return builtins.float(x)


b_float._pyvc_builtin = "float"


def b_bool(x=False):
    return builtins.bool(x)


b_bool._pyvc_builtin = "bool"


def b_minmax(which):
    def f(*a, **k):
        if k:
            raise Unsupported("min/max key")
        xs = list(a[0]) if len(a) == 1 and not isinstance(a[0], (SArr, seq.SSeq)) else a
        if len(a) == 1 and isinstance(a[0], (SArr,)):
            if a[0].ndim != 1:
                raise ValueError("truth value ambiguous")
            return reduce_(which, a[0])
        if len(a) == 1 and isinstance(a[0], seq.SSeq):
            return reduce_(which, a[0].to_array())
        if not any(isinstance(x, (SV, SArr)) for x in xs):
            return getattr(builtins, which)(xs)
        r = xs[0]
        for x in xs[1:]:
            r = binop(which, as_scalar(r), as_scalar(x))
        return r
    return f


def as_scalar(x):
    if isinstance(x, SArr):
        if x.ndim == 0:
            return x.item()
        raise Unsupported("min/max of arrays")
    return x


def b_sum(x, start=0):
    if isinstance(x, seq.SSeq) or hasattr(x, "_seq"):
        s = x if isinstance(x, seq.SSeq) else x._seq
        return binop("add", reduce_("sum", s.to_array(), 0), start)
    if isinstance(x, SArr):
        return reduce_("sum", x, 0)
    r = start
    for v in x:
        r = r + v
    return r


def b_anyall(which):
    def f(x):
        if isinstance(x, seq.SSeq) or hasattr(x, "_seq"):
            s = x if isinstance(x, seq.SSeq) else x._seq
            return reduce_(which, s.to_array())
        if isinstance(x, SArr):
            return reduce_(which, x)
        for v in x:
            if which == "any" and v:
                return True
            if which == "all" and not v:
                return False
        return which == "all"
    return f


def b_abs(x):
    if isinstance(x, (SV, SArr)):
        return unop("abs", x)
    return builtins.abs(x)


def b_list(x=()):
    if isinstance(x, (seq.SSeq,)):
        return x
    if isinstance(x, seq.SList):
        if hasattr(x, "_seq"):
            return x._seq
        return seq.SList(x)
    s = seq.symiter(x) if seq.is_symiterable(x) else None
    if s is not None:
        return seq.SSeq(None, s[1], ax=s[0])
    return seq.SList(seq.conc_iter(x))


b_list._pyvc_builtin = "list"


def b_tuple(x=()):
    if isinstance(x, seq.SSeq):
        return x
    s = seq.symiter(x) if seq.is_symiterable(x) else None
    if s is not None:
        return seq.SSeq(None, s[1], ax=s[0])
    return builtins.tuple(seq.conc_iter(x))


def b_sorted(x, **k):
    if seq.is_symiterable(x) and seq.symiter(x) is not None:
        raise Unsupported("sorted of symbolic")
    xs = list(x)
    if any(isinstance(v, (SV, SArr)) for v in xs):
        raise Unsupported("sorted of symbolic values")
    return seq.SList(builtins.sorted(xs, **k))


def b_isinstance(x, t):
    if isinstance(t, tuple):
        return any(b_isinstance(x, u) for u in t)
    pb = getattr(t, "_pyvc_builtin", None)
    if pb:
        t = {"int": int, "float": float, "bool": bool, "list": list}[pb]
    if isinstance(x, SV):
        if t is int:
            return x.py and x.k in "ib"
        if t is float:
            return x.k == "f"
        if t is bool:
            return x.py and x.k == "b"
        if t is npshim.NP.number:
            return not x.py
        return t is SV or t is object
    if t is list and isinstance(x, seq.SSeq):
        return True
    if t is collections.abc.Iterable:
        return isinstance(x, (SArr, seq.SSeq, list, tuple, seq.SRange, seq.SEnum, seq.SZip)) and not (
            isinstance(x, SArr) and False) or isinstance(x, collections.abc.Iterable)
    if isinstance(t, npshim.DType):
        return isinstance(x, SV) and not x.py and x.k == t.ik
    if isinstance(t, npshim.NotModelled):
        return False
    return builtins.isinstance(x, t)


def b_type(x, *a):
    if a:
        return builtins.type(x, *a)
    if isinstance(x, SV):
        if x.py:
            return {"i": b_int, "f": b_float, "b": b_bool}[x.k]
        return {"i": npshim.np.int64, "f": npshim.np.float64, "b": npshim.np.bool_}[x.k]
    if isinstance(x, (seq.SList, seq.SSeq)):
        return b_list
    for t, f in ((bool, b_bool), (int, b_int), (float, b_float), (list, b_list), (tuple, b_tuple)):
        if builtins.type(x) is t:
            return f
    return builtins.type(x)


def b_map(f, *xs):
    if len(xs) == 1:
        return loops.comp(xs[0], f, [], "list")
    return loops.comp(seq.SZip(xs), lambda t: f(*t), [], "list")


def b_filter(f, xs):
    return loops.comp(xs, lambda x: x, [f], "list")


def b_round(x, n=None):
    if isinstance(x, (SV, SArr)):
        if n is None:
            return b_int(unop("rint", x)) if isinstance(x, SV) else unop("rint", x)
        if not isinstance(n, int):
            raise Unsupported("round")
        sc = 10 ** abs(n)
        a, b = ("mul", "div") if n >= 0 else ("div", "mul")
        return binop(b, unop("rint", binop(a, x, sc)), sc)
    return builtins.round(x, n) if n is not None else builtins.round(x)


def b_reversed(x):
    if isinstance(x, SArr):
        return x[::-1]
    return builtins.reversed(x)


class _Logger:
    def __getattr__(self, n):
        return lambda *a, **k: None


class _LoggingMod:
    def __getattr__(self, n):
        return lambda *a, **k: _Logger()


class _TimeMod:
    @staticmethod
    def time():
        return 0.0


def rt_fmt(s, args):
    return text.fmt(s, args)


def rt_fstr(f):
    """the text of messages is not modelled, except in contracts about files"""
    return f() if text.state() is not None else "<fstring>"


_TICKS = {}


def rt_tick(n):
    c = CTX()
    d = getattr(c, "ticks", None)
    if d is None:
        d = c.ticks = {}
    d[n] = d.get(n, 0) + 1
    if d[n] > 3000:
        raise Unsupported("while loop without a bound the verifier can see")


def rt_concat(xs):
    out = seq.SList()
    for x in xs:
        list.extend(out, x)
    return out


def rt_grab(loc, names):
    return tuple(loc.get(n, loops.UNB) for n in names)


def rt_snap(x):
    """a yielded value as the consumer sees it at that moment"""
    if isinstance(x, SArr):
        return x.copy()
    if isinstance(x, tuple):
        v = [rt_snap(y) for y in x]
        return type(x)(*v) if hasattr(x, "_fields") else tuple(v)
    return x


def rt_str(how, s, *a, **k):
    """text of messages is not modelled when it shows symbolic values"""
    if text.state() is not None:
        return getattr(s, how)(*a, **k)
    try:
        return getattr(s, how)(*a, **k)
    except (Unsupported, TypeError):
        return "<text>"


def rt_zipstar(x):
    """zip(*rows): the columns of a list of equally long tuples"""
    s = x if isinstance(x, seq.SSeq) else getattr(x, "_seq", None)
    if s is None:
        return seq.SZip(tuple(x))
    from .arr import make_any
    if not CTX().decide(make_any(s.ax.dims, s.ax.pred, lambda c: core.TRUE)):
        return seq.SList([])
    probe = s.fn(s.ax.fresh("zs"))
    if not isinstance(probe, tuple):
        raise Unsupported("zip(*rows) of non-tuples")
    return seq.SList([seq.SSeq(None, lambda c, q=q: s.fn(c)[q], ax=s.ax) for q in range(len(probe))])


def rt_cast(ty, x):
    """C cast of a translated Cython expression: integers truncate, pointers keep pointing"""
    from . import pyx
    if pyx.kind(ty) == "int":
        return b_int(x)
    if pyx.kind(ty) == "ptr":
        return x
    if ty.split(".")[-1].startswith(("float", "double")):
        return b_float(x)
    raise Unsupported("cast to " + ty)


RT = {
    "_vc_cast": rt_cast,
    "_vc_zipstar": rt_zipstar, "_vc_unmodelled": npshim.NotModelled, "_vc_Unsupported": Unsupported,
    "_vc_str": rt_str, "_vc_fstr": rt_fstr,
    "_vc_snap": rt_snap,
    "_vc_List": seq.SList, "_vc_comp": loops.comp, "_vc_fmt": rt_fmt, "_vc_for": loops.do_for, "_vc_while": loops.do_while, "_vc_UNB": loops.UNB,
    "_vc_locals": locals, "_vc_grab": rt_grab, "_vc_tick": rt_tick, "_vc_flat": rt_flat, "_vc_concat": rt_concat,
    "len": b_len, "range": b_range, "enumerate": b_enumerate, "zip": b_zip, "int": b_int, "float": b_float,
    "bool": b_bool, "min": b_minmax("min"), "max": b_minmax("max"), "sum": b_sum, "any": b_anyall("any"),
    "all": b_anyall("all"), "abs": b_abs, "list": b_list, "tuple": b_tuple, "sorted": b_sorted,
    "isinstance": b_isinstance, "map": b_map, "filter": b_filter, "round": b_round, "print": lambda *a, **k: None,
    "reversed": b_reversed, "type": b_type,
}

_CODE = {}


def source_path(mod):
    p = os.path.join(REPO, *mod.split("."))
    if os.path.isdir(p):
        return os.path.join(p, "__init__.py")
    if not os.path.exists(p + ".py") and os.path.exists(p + ".pyx"):
        return p + ".pyx"
    if not os.path.exists(p + ".py") and os.path.exists(p + ".c"):
        return p + ".c"
    return p + ".py"


def compiled(mod):
    path = source_path(mod)
    if mod in _CODE:
        return _CODE[mod]
    src = open(path, encoding="utf8").read()
    if path.endswith(".pyx"):
        from . import pyx
        src = pyx.translate(src)
    elif path.endswith(".c"):
        from . import cfront
        src = cfront.translate(path)
    tree = ast.parse(src, path)
    return compile_tree(tree, mod, path)


def compile_tree(tree, mod, path):
    tree = Rewriter(mod.split(".")[-1]).visit(tree)
    # drop `from __future__` (already Python 3)
    tree.body = [s for s in tree.body if not (isinstance(s, ast.ImportFrom) and s.module == "__future__")]
    # a module-level table outside the verifier's reach: any use of the name is unsupported
    for n, st in enumerate(tree.body):
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value, (ast.Dict, ast.Call)):
            nm = ast.Assign([ast.Name(st.targets[0].id, ast.Store())], call("_vc_unmodelled", ast.Constant(mod + "." + st.targets[0].id)))
            tree.body[n] = ast.Try([st], [ast.ExceptHandler(ast.Name("_vc_Unsupported", ast.Load()), None, [nm])], [], [])
    ast.fix_missing_locations(tree)
    _CODE[mod] = compile(tree, path, "exec")
    return _CODE[mod]


class Loader:
    """instantiate modules; contracted functions are replaced by stubs"""

    def __init__(self, stubs, target=None, ext=None):
        self.stubs = stubs          # "mod:qualname" -> python callable
        self.target = target        # the function whose body is being verified
        self.mods = {}
        self.failed = {}
        self.ext = ext or {}

    def module(self, mod):
        if mod in self.mods:
            return self.mods[mod]
        m = types.ModuleType(mod)
        m.__file__ = source_path(mod)
        g = m.__dict__
        g.update(RT)
        if m.__file__.endswith(".c"):
            from . import cfront
            g.update(cfront.RT)
        bi = dict(vars(builtins))
        bi["__import__"] = self._imp
        g["__builtins__"] = bi
        g["__name__"] = mod
        g["__package__"] = mod if m.__file__.endswith("__init__.py") else mod.rsplit(".", 1)[0]
        if mod in self.failed:
            raise self.failed[mod]
        self.mods[mod] = m
        try:
            exec(compiled(mod), g)
        except Exception as e:
            self.failed[mod] = e
            del self.mods[mod]
            raise
        for k, v in self.stubs.items():
            sm, q = k.split(":")
            if sm == mod and k != self.target and "." not in q:
                if q not in g:
                    raise Unsupported("no function %s to hold to its contract" % k)
                g[q] = v
        return m

    def _imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals["__package__"].split(".")
            base = base[: len(base) - (level - 1)]
            full = ".".join(base + ([name] if name else []))
        else:
            full = name
        return self._resolve(full, fromlist, bool(level) and globals.get("__package__") == globals.get("__name__"))

    def _resolve(self, full, fromlist, inpkg=False):
        if full.split(".")[0] == "skbeam":
            if fromlist:
                m = types.SimpleNamespace()
                for f in fromlist:
                    sub = full + "." + f
                    if sub in self.ext:
                        setattr(m, f, self.ext[sub])
                    elif os.path.exists(os.path.join(REPO, *sub.split(".")) + ".py") or os.path.exists(os.path.join(REPO, *sub.split(".")) + ".pyx"):
                        setattr(m, f, self.module(sub))
                    elif full in self.ext:
                        setattr(m, f, getattr(self.ext[full], f))
                    else:
                        try:
                            mm = self.module(full)
                        except FileNotFoundError:
                            raise ImportError(full)
                        except Exception:
                            if not inpkg:
                                raise
                            # re-exported by a package but outside the verifier's reach: any use is unsupported
                            setattr(m, f, npshim.NotModelled(sub))
                            continue
                        if not hasattr(mm, f):
                            raise ImportError(f)
                        setattr(m, f, getattr(mm, f))
                return m
            return self.module(full)
        ext = external(full)
        if fromlist:
            return ext
        top = full.split(".")[0]
        return external(top)


class SDeque(seq.SList):
    """collections.deque used as an append-only list"""

    def __init__(self, it=(), maxlen=None):
        if maxlen is not None:
            raise Unsupported("bounded deque")
        super().__init__(it)

    def appendleft(self, x):
        raise Unsupported("deque.appendleft")

    popleft = rotate = extendleft = appendleft


class _Collections:
    deque = SDeque

    def __getattr__(self, n):
        return getattr(collections, n)


class _Six:
    text_type = str
    string_types = (str,)

    class moves:
        zip = staticmethod(b_zip)
        range = staticmethod(b_range)

    @staticmethod
    def iteritems(d):
        return d.items()

    @staticmethod
    def itervalues(d):
        return d.values()

    @staticmethod
    def iterkeys(d):
        return d.keys()

    @staticmethod
    def reraise(t, v, tb=None):
        raise v


class Mod:
    """external module namespace with assumed contracts"""

    def __init__(self, name, **kw):
        self.__dict__.update(kw)
        self.__dict__["_n"] = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return npshim.NotModelled(self.__dict__["_n"] + "." + n)


def external(full):
    from . import scishim
    if full == "numpy":
        return npshim.np
    if full.startswith("numpy."):
        r = npshim.np
        for p in full.split(".")[1:]:
            r = getattr(r, p)
        return r
    if full == "logging":
        return _LoggingMod()
    if full == "time":
        return _TimeMod()
    if full == "six":
        return _Six
    if full == "six.moves":
        return _Six.moves
    if full in ("collections", "collections.abc", "itertools", "functools", "copy", "os", "sys", "math", "warnings",
                "types", "operator", "numbers", "string", "abc"):
        import importlib
        if full == "math":
            return scishim.Math()
        if full == "itertools":
            return itertools
        if full == "collections":
            return _Collections()
        return importlib.import_module(full)
    if full == "xraylib":
        raise ImportError(full)          # tables of an external library: contracts stub what they use
    if full == "tqdm":
        return Mod("tqdm", tqdm=lambda it, *a, **k: it)      # progress bar: yields the items of its argument
    if full.split(".")[0] == "scipy":
        r = scishim.scipy
        for p in full.split(".")[1:]:
            r = getattr(r, p)
        return r
    return Mod(full)
