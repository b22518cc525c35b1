"""Mechanical translation of C functions to Python (on every run, from the working tree), with pycparser.

gcc -E expands the file's own macros and headers (system headers are dropped); every top-level function that does not
touch the Python API is translated.  A pointer variable p becomes a base pointer p and an integer p__o; `p++` moves p__o.
A pointer or counter that a canonical for loop only ever advances by an amount that does not change is rewritten to its
value `start + iteration * amount`.  An OpenMP parallel region runs once per thread of a team whose size the contract
fixes; `omp for` gives iteration i to the thread omp_owner(i), an unknown function.  A shared scalar that a parallel
region both writes and reads is a data race: a failed obligation.

Dropped: integer widths and overflow, IEEE rounding, thread interleaving inside a region, free().
"""
import copy
import keyword
import os
import re
import subprocess

from .core import Unsupported

MATH = {"sin", "cos", "tan", "sqrt", "exp", "log", "fabs", "floor", "ceil"}
RENAME = {"atan": "arctan", "asin": "arcsin", "acos": "arccos", "atan2": "arctan2", "fabs": "abs"}


def preprocess(path):
    src = open(path, encoding="utf8").read()
    src = re.sub(r'^[ \t]*#[ \t]*include[ \t]*<[^>]*>.*$', "", src, flags=re.M)
    p = subprocess.run(["gcc", "-E", "-P", "-nostdinc", "-D_OPENMP=201511", "-I", os.path.dirname(path), "-x", "c", "-"],
                       input=src, capture_output=True, text=True, timeout=60)
    if p.returncode:
        raise Unsupported("C preprocessing: " + p.stderr[-300:])
    return p.stdout


def functions(txt):
    """(typedefs and other declarations, {name: text})"""
    fns, decls = {}, []
    i, n, start = 0, len(txt), 0
    depth = 0
    body = None
    while i < n:
        ch = txt[i]
        if ch in "\"'":
            j = i + 1
            while j < n and txt[j] != ch:
                j += 2 if txt[j] == "\\" else 1
            i = j + 1
            continue
        if ch == "{":
            if depth == 0:
                body = i
            depth += 1
        elif ch == "}":
            depth -= 1
            if depth == 0:
                head = txt[start:body].strip()
                if head.endswith(")"):
                    m = re.search(r"(\w+)\s*\([^()]*(\([^()]*\)[^()]*)*\)$", head)
                    if m:
                        fns[m.group(1)] = txt[start:i + 1]
                    start = i + 1
        elif ch == ";" and depth == 0:
            decls.append(txt[start:i + 1])
            start = i + 1
        i += 1
    return decls, fns


def translate(path, only=None):
    from pycparser import c_parser
    decls, fns = functions(preprocess(path))
    types = "".join(d for d in decls if d.strip().startswith(("typedef", "struct")) and "Py" not in d)
    out = ["import numpy as np", ""]
    structs = {}
    errors = {}
    for name, text in fns.items():
        if re.search(r"\bPy\w*|\bnpy_", text):
            continue
        try:
            tree = c_parser.CParser().parse("typedef unsigned long size_t;\n" + types + "\n" + text)
            f = Fn(tree, name)
            out.append(f.source())
            structs.update(f.structs)
        except Unsupported as e:
            errors[name] = str(e)
        except Exception as e:   # outside the accepted subset
            errors[name] = "%s: %s" % (type(e).__name__, str(e)[:200])
    for name, why in errors.items():
        out.append("def %s(*a, **k):\n    raise _vc_Unsupported(%r)\n" % (name, "C function %s: %s" % (name, why)))
    for s, fields in structs.items():
        out.append("class %s:\n    def __init__(self, %s):\n%s\n" % (
            s, ", ".join("%s=None" % f for f in fields), "\n".join("        self.%s = %s" % (f, f) for f in fields)))
    return "\n".join(out)


def nm(s):
    return s + "_" if keyword.iskeyword(s) or s in ("len", "range", "min", "max", "abs", "int", "float", "list", "sum", "np") else s


class Fn:
    def __init__(self, tree, name):
        from pycparser import c_ast
        self.A = c_ast
        self.structs, self.tdef = {}, {}
        self.fd = None
        for x in tree.ext:
            if isinstance(x, c_ast.Typedef):
                t = x.type.type
                if isinstance(t, c_ast.Struct):
                    self.structs[x.name] = [d.name for d in t.decls]
                    self.tdef[x.name] = {d.name: self.ctype(d.type) for d in t.decls}
                else:
                    self.tdef[x.name] = self.ctype(x.type)
            elif isinstance(x, c_ast.FuncDef):
                self.fd = x
        self.types = {}
        self.tmp = 0
        self.region = None     # names private to the current parallel region
        self.nloop = 0

    # ---------------------------------------------------------------- types: int double ptr:T struct:S arr:T void
    def ctype(self, t):
        A = self.A
        if isinstance(t, A.TypeDecl):
            return self.ctype(t.type)
        if isinstance(t, A.PtrDecl):
            return "ptr:" + self.ctype(t.type)
        if isinstance(t, A.ArrayDecl):
            return "arr:" + self.ctype(t.type)
        if isinstance(t, A.Struct):
            return "struct:" + (t.name or "?")
        if isinstance(t, A.IdentifierType):
            n = t.names[-1]
            if n in self.tdef:
                d = self.tdef[n]
                return "struct:" + n if isinstance(d, dict) else d
            if n in ("double", "float"):
                return "double"
            if n == "void":
                return "void"
            if n in ("int", "long", "short", "char", "unsigned", "signed", "size_t"):
                return "int"
        raise Unsupported("C type")

    def ty(self, e):
        A = self.A
        if isinstance(e, A.ID):
            if e.name in self.types:
                return self.types[e.name]
            if e.name in ("M_PI", "NAN"):
                return "double"
            if e.name == "NULL":
                return "ptr:void"
            raise Unsupported("identifier " + e.name)
        if isinstance(e, A.Constant):
            return "double" if e.type in ("double", "float", "long double") else "int"
        if isinstance(e, A.BinaryOp):
            if e.op in ("&&", "||", "==", "!=", "<", ">", "<=", ">="):
                return "int"
            a, b = self.ty(e.left), self.ty(e.right)
            if a.startswith(("ptr", "arr")):
                return a.replace("arr:", "ptr:", 1)
            if b.startswith(("ptr", "arr")):
                return b.replace("arr:", "ptr:", 1)
            return "double" if "double" in (a, b) else "int"
        if isinstance(e, A.UnaryOp):
            if e.op in ("!", "sizeof"):
                return "int"
            t = self.ty(e.expr)
            if e.op == "*":
                return t.split(":", 1)[1]
            if e.op == "&":
                return "ptr:" + t
            return t
        if isinstance(e, A.ArrayRef):
            return self.ty(e.name).split(":", 1)[1]
        if isinstance(e, A.StructRef):
            t = self.ty(e.name)
            while t.startswith("ptr:"):
                t = t[4:]
            return self.tdef[t.split(":")[1]][e.field.name]
        if isinstance(e, A.Cast):
            return self.ctype(e.to_type.type)
        if isinstance(e, A.TernaryOp):
            return self.ty(e.iftrue)
        if isinstance(e, A.FuncCall):
            if e.name.name in ("malloc", "calloc"):
                return "ptr:void"
            if e.name.name.startswith("omp_") or e.name.name in ("isnan", "isfinite", "isinf"):
                return "int"
            if e.name.name in MATH or e.name.name in RENAME or e.name.name in ("pow", "fmin", "fmax"):
                return "double"
            return "int"
        raise Unsupported("expression " + type(e).__name__)

    def isptr(self, e):
        return self.ty(e).startswith(("ptr:", "arr:"))

    # ---------------------------------------------------------------- expressions
    def ptr(self, e, pre):
        """(base, offset) of a pointer expression"""
        A = self.A
        if isinstance(e, A.ID):
            t = self.types.get(e.name, "ptr:void" if e.name == "NULL" else None)
            if t is None:
                raise Unsupported("identifier " + e.name)
            if t.startswith("arr:") or e.name == "NULL":
                return self.e(e, pre), "0"
            if t[4:].startswith(("struct", "arr")):
                return nm(e.name), "0"
            return nm(e.name), nm(e.name) + "__o"
        if isinstance(e, A.BinaryOp) and e.op in ("+", "-"):
            if self.isptr(e.left):
                b, o = self.ptr(e.left, pre)
                return b, "(%s %s %s)" % (o, e.op, self.e(e.right, pre))
            if e.op == "+":
                b, o = self.ptr(e.right, pre)
                return b, "(%s + %s)" % (o, self.e(e.left, pre))
        if isinstance(e, A.UnaryOp) and e.op in ("p++", "p--", "++", "--"):
            b, o = self.ptr(e.expr, pre)
            if not isinstance(e.expr, A.ID):
                raise Unsupported("++ on an expression")
            if e.op.startswith("p"):
                self.tmp += 1
                t = "_t%d" % self.tmp
                pre.append("%s = %s" % (t, o))
                pre.append("%s = %s %s 1" % (o, o, e.op[-1]))
                return b, t
            pre.append("%s = %s %s 1" % (o, o, e.op[-1]))
            return b, o
        if isinstance(e, A.UnaryOp) and e.op == "&" and isinstance(e.expr, A.ArrayRef):
            b, o = self.ptr(e.expr.name, pre)
            return b, "(%s + %s)" % (o, self.e(e.expr.subscript, pre))
        if isinstance(e, A.Cast):
            return self.ptr(e.expr, pre)
        return self.e(e, pre), "0"

    def cond(self, e, pre):
        t = self.ty(e)
        A = self.A
        if isinstance(e, A.BinaryOp) and e.op in ("&&", "||"):
            pre2 = []
            r = "(%s %s %s)" % (self.cond(e.left, pre), "and" if e.op == "&&" else "or", self.cond(e.right, pre2))
            if pre2:
                raise Unsupported("side effect in a condition")
            return r
        if isinstance(e, A.UnaryOp) and e.op == "!":
            return "(not %s)" % self.cond(e.expr, pre)
        if isinstance(e, A.BinaryOp) and e.op in ("==", "!=", "<", ">", "<=", ">="):
            if self.isptr(e.left):
                if e.op in ("==", "!="):
                    null = [isinstance(x, A.ID) and x.name == "NULL" or isinstance(x, A.Constant) for x in (e.left, e.right)]
                    if null[1]:
                        return "(%s %s None)" % (self.ptr(e.left, pre)[0], "is" if e.op == "==" else "is not")
                    if null[0]:
                        return "(%s %s None)" % (self.ptr(e.right, pre)[0], "is" if e.op == "==" else "is not")
                raise Unsupported("pointer comparison")
            return "(%s %s %s)" % (self.e(e.left, pre), e.op, self.e(e.right, pre))
        if isinstance(e, A.FuncCall) and e.name.name in ("isnan", "isfinite", "isinf"):
            return "np.%s(%s)" % (e.name.name, self.e(e.args.exprs[0], pre))
        if t.startswith("ptr:"):
            return "(%s is not None)" % self.ptr(e, pre)[0]
        return "(%s != 0)" % self.e(e, pre)

    def e(self, e, pre):
        A = self.A
        if isinstance(e, A.Constant):
            v = e.value
            if e.type in ("string", "char"):
                raise Unsupported("literal")
            return v.rstrip("uUlLfF") if not v.lower().startswith("0x") else v.rstrip("uUlL")
        if isinstance(e, A.ID):
            if e.name == "NULL":
                return "None"
            if e.name == "M_PI":
                return "np.pi"
            if e.name == "NAN":
                return "np.nan"
            self.ty(e)
            return nm(e.name)
        if isinstance(e, A.BinaryOp):
            if e.op in ("&&", "||", "==", "!=", "<", ">", "<=", ">="):
                return "_vc_c_bool(%s)" % self.cond(e, pre)
            if self.isptr(e.left) or self.isptr(e.right):
                if e.op == "-" and self.isptr(e.right):
                    raise Unsupported("pointer difference")
                b, o = self.ptr(e, pre)
                return "(%s + %s)" % (b, o)
            l, r = self.e(e.left, pre), self.e(e.right, pre)
            if e.op in ("+", "-", "*"):
                return "(%s %s %s)" % (l, e.op, r)
            if e.op == "/":
                if self.ty(e) == "int":
                    return "_vc_c_div(%s, %s)" % (l, r)
                return "_vc_c_fdiv(%s, %s)" % (l, r)
            if e.op == "%":
                return "_vc_c_mod(%s, %s)" % (l, r)
            raise Unsupported("operator " + e.op)
        if isinstance(e, A.UnaryOp):
            if e.op == "-":
                return "(-%s)" % self.e(e.expr, pre)
            if e.op == "+":
                return self.e(e.expr, pre)
            if e.op == "!":
                return "_vc_c_bool(%s)" % self.cond(e, pre)
            if e.op == "*":
                b, o = self.ptr(e.expr, pre)
                if self.ty(e.expr)[4:].startswith("struct"):
                    return b
                return "%s[%s]" % (b, o)
            if e.op == "&":
                if isinstance(e.expr, A.ID) and self.ty(e.expr).startswith("struct"):
                    return nm(e.expr.name)
                if isinstance(e.expr, A.ArrayRef):
                    b, o = self.ptr(e, pre)
                    return "(%s + %s)" % (b, o)
            if e.op in ("p++", "p--", "++", "--") and isinstance(e.expr, A.ID):
                if self.isptr(e.expr):
                    b, o = self.ptr(e, pre)
                    return "(%s + %s)" % (b, o)
                v = nm(e.expr.name)
                if e.op.startswith("p"):
                    self.tmp += 1
                    pre.append("_t%d = %s" % (self.tmp, v))
                    pre.append("%s = %s %s 1" % (v, v, e.op[-1]))
                    return "_t%d" % self.tmp
                pre.append("%s = %s %s 1" % (v, v, e.op[-1]))
                return v
            raise Unsupported("operator " + e.op)
        if isinstance(e, A.ArrayRef):
            t = self.ty(e.name)
            i = self.e(e.subscript, pre)
            if t.startswith("ptr:"):
                b, o = self.ptr(e.name, pre)
                return "%s[%s]" % (b, i if o == "0" else "%s + %s" % (o, i))
            return "%s[%s]" % (self.e(e.name, pre), i)
        if isinstance(e, A.StructRef):
            return "%s.%s" % (self.e(e.name, pre), e.field.name)
        if isinstance(e, A.Cast):
            t = self.ctype(e.to_type.type)
            if t == "int":
                return "_vc_cast('long', %s)" % self.e(e.expr, pre)
            if t == "double":
                return "_vc_cast('double', %s)" % self.e(e.expr, pre)
            return self.e(e.expr, pre)
        if isinstance(e, A.TernaryOp):
            p2 = []
            r = "(%s if %s else %s)" % (self.e(e.iftrue, p2), self.cond(e.cond, pre), self.e(e.iffalse, p2))
            if p2:
                raise Unsupported("side effect in ?:")
            return r
        if isinstance(e, A.FuncCall):
            return self.call(e, pre)
        raise Unsupported("expression " + type(e).__name__)

    def call(self, e, pre):
        A = self.A
        f = e.name.name
        args = e.args.exprs if e.args else []
        if f in ("malloc", "calloc"):
            return self.alloc(f, args, pre)
        if f == "omp_get_thread_num":
            return "_vc_tid"
        if f in ("omp_get_num_threads", "omp_get_max_threads"):
            return "_vc_c_threads()"
        if f in MATH or f in RENAME:
            return "np.%s(%s)" % (RENAME.get(f, f), ", ".join(self.e(a, pre) for a in args))
        if f == "pow":
            return "_vc_c_pow(%s, %s)" % (self.e(args[0], pre), self.e(args[1], pre))
        if f in ("fmin", "fmax"):
            return "np.%simum(%s, %s)" % (f[1:], self.e(args[0], pre), self.e(args[1], pre))
        if f in ("isnan", "isfinite", "isinf"):
            return "_vc_c_bool(%s)" % self.cond(e, pre)
        if f in ("memset", "memcpy", "printf", "fprintf"):
            raise Unsupported(f)
        out = []
        for a in args:
            if self.isptr(a) and self.ty(a).startswith("ptr:"):
                b, o = self.ptr(a, pre)
                out.append(b if o == "0" else "_vc_c_at(%s, %s)" % (b, o))
            else:
                out.append(self.e(a, pre))
        return "%s(%s)" % (nm(f), ", ".join(out))

    def alloc(self, f, args, pre):
        A = self.A
        factors = []

        def walk(x):
            if isinstance(x, A.BinaryOp) and x.op == "*":
                walk(x.left)
                walk(x.right)
            else:
                factors.append(x)
        for a in args:
            walk(a)
        so = [x for x in factors if isinstance(x, A.UnaryOp) and x.op == "sizeof"]
        if len(so) != 1:
            raise Unsupported("malloc without one sizeof")
        x = so[0].expr
        t = self.ctype(x.type) if isinstance(x, A.Typename) else self.ty(x)
        cnt = " * ".join(self.e(x, pre) for x in factors if x is not so[0]) or "1"
        return "_vc_c_malloc(%r, %s, %s, %s)" % (t, t[7:] if t.startswith("struct:") else "None", cnt, f == "calloc")

    # ---------------------------------------------------------------- statements
    def assigned(self, node, out=None):
        """names (C variables) assigned anywhere in node -> list of (how, node)"""
        A = self.A
        out = {} if out is None else out
        if isinstance(node, A.Assignment) and isinstance(node.lvalue, A.ID):
            out.setdefault(node.lvalue.name, []).append(node)
        if isinstance(node, A.UnaryOp) and node.op in ("p++", "p--", "++", "--") and isinstance(node.expr, A.ID):
            out.setdefault(node.expr.name, []).append(node)
        if isinstance(node, A.Assignment) and isinstance(node.lvalue, A.StructRef):
            out.setdefault("." + node.lvalue.field.name, []).append(node)
        for _, c in node.children():
            self.assigned(c, out)
        return out

    def declared(self, node, out=None):
        A = self.A
        out = set() if out is None else out
        if isinstance(node, A.Decl) and node.name:
            out.add(node.name)
        for _, c in node.children():
            self.declared(c, out)
        return out

    def names(self, node, out=None):
        A = self.A
        out = [] if out is None else out
        if isinstance(node, A.ID):
            out.append(node.name)
        if isinstance(node, A.StructRef):
            out.append("." + node.field.name)
            return self.names(node.name, out)
        for _, c in node.children():
            self.names(c, out)
        return out

    def canonical(self, s):
        """(var, start, stop expr string builder, step, extra next expressions) of for(i=a; i<b; i+=c)"""
        A = self.A
        if not isinstance(s, A.For) or s.init is None or s.cond is None or s.next is None:
            return None
        ini = s.init
        pre_inits = []
        if isinstance(ini, A.ExprList):
            pre_inits, ini = ini.exprs[:-1], ini.exprs[-1]
            # the loop variable may be initialised anywhere in the list
        if isinstance(ini, A.DeclList):
            if len(ini.decls) != 1 or ini.decls[0].init is None:
                return None
            var, start, decl = ini.decls[0].name, ini.decls[0].init, ini.decls[0]
        elif isinstance(ini, A.Assignment) and ini.op == "=" and isinstance(ini.lvalue, A.ID):
            var, start, decl = ini.lvalue.name, ini.rvalue, None
        else:
            return None
        c = s.cond
        if not (isinstance(c, A.BinaryOp) and c.op in ("<", "<=", "!=") and isinstance(c.left, A.ID)):
            return None
        nxt = s.next.exprs if isinstance(s.next, A.ExprList) else [s.next]
        mine, extra = [], []
        for x in nxt:
            if self.assigned(x).keys() == {c.left.name}:
                mine.append(x)
            else:
                extra.append(x)
        if c.left.name != var:
            # for(j=..., i=0; i<n; ...): find the initialisation of the tested variable
            for q in pre_inits:
                if isinstance(q, A.Assignment) and q.op == "=" and isinstance(q.lvalue, A.ID) and q.lvalue.name == c.left.name:
                    pre_inits = [p for p in pre_inits if p is not q] + [ini]
                    var, start, decl = c.left.name, q.rvalue, None
                    break
            else:
                return None
        if len(mine) != 1:
            return None
        m = mine[0]
        step = None
        if isinstance(m, A.UnaryOp) and m.op in ("p++", "++"):
            step = 1
        elif isinstance(m, A.Assignment) and m.op == "+=" and isinstance(m.rvalue, A.Constant):
            step = int(m.rvalue.value.rstrip("uUlL"))
        if step is None or step < 1 or (c.op == "!=" and step != 1):
            return None
        if var in self.assigned(s.stmt):
            return None
        bound = set(self.names(c.right))
        if bound & set(self.assigned(s.stmt)):
            return None
        if self.leaves(s.stmt):
            return None
        return dict(var=var, start=start, stop=c.right, incl=c.op == "<=", step=step, extra=extra, decl=decl, pre=pre_inits)

    def leaves(self, node, depth=0):
        """break/continue/goto/return that would end the loop body early"""
        A = self.A
        if isinstance(node, (A.Goto, A.Return)):
            return True
        if isinstance(node, (A.Break, A.Continue)) and depth == 0:
            return True
        d = depth + 1 if isinstance(node, (A.For, A.While, A.DoWhile)) else depth
        return any(self.leaves(c, d) for _, c in node.children())

    def trip(self, c, pre):
        a, b = self.e(c["start"], pre), self.e(c["stop"], pre)
        if c["incl"]:
            b = "%s + 1" % b
        return "_vc_c_trip(%s, %s, %d)" % (a, b, c["step"])

    def delta(self, name, stmts, inv):
        """expression: total advance of `name` over the statements, None if not a fixed amount"""
        A = self.A
        tot = []

        def incr(x, mult):
            if isinstance(x, A.UnaryOp) and x.op in ("p++", "++", "p--", "--"):
                tot.append("%s1%s" % ("-" if x.op.endswith("--") else "", mult))
                return True
            if isinstance(x, A.Assignment) and x.op in ("+=", "-=") and not (set(self.names(x.rvalue)) - inv) and not self.calls(x.rvalue):
                pre = []
                r = self.e(x.rvalue, pre)
                if pre:
                    return False
                tot.append("%s(%s)%s" % ("-" if x.op == "-=" else "", r, mult))
                return True
            return False

        def walk(s, mult):
            if s is None:
                return True
            if name not in self.assigned(s):
                return True
            if isinstance(s, A.Compound):
                return all(walk(x, mult) for x in s.block_items or [])
            c = self.canonical(s)
            if c is not None:
                if set(self.names(c["start"]) + self.names(c["stop"])) - inv:
                    return False
                pre = []
                m = mult + " * " + self.trip(c, pre)
                if pre:
                    return False
                return all(walk(x, m) for x in [s.stmt] + c["extra"]) and not any(name in self.assigned(x) for x in c["pre"])
            if isinstance(s, (A.For, A.While, A.DoWhile, A.If, A.Switch, A.TernaryOp)):
                return False
            if isinstance(s, A.BinaryOp) and s.op in ("&&", "||"):
                return False
            if isinstance(s, A.Decl):
                return s.init is None or walk(s.init, mult)
            # expression statement: increments inside are unconditional
            if isinstance(s, A.UnaryOp) and s.op in ("p++", "++", "p--", "--") and isinstance(s.expr, A.ID) and s.expr.name == name:
                return incr(s, mult)
            if isinstance(s, A.Assignment) and isinstance(s.lvalue, A.ID) and s.lvalue.name == name:
                return incr(s, mult) and name not in self.assigned(s.rvalue)
            return all(walk(x, mult) for _, x in s.children())
        if not all(walk(s, "") for s in stmts):
            return None
        return " + ".join(tot) or "0"

    def calls(self, node):
        if isinstance(node, self.A.FuncCall):
            return True
        return any(self.calls(c) for _, c in node.children())

    def block(self, s, ind):
        A = self.A
        items = (s.block_items or []) if isinstance(s, A.Compound) else [s]
        out = self.stmts(items, ind)
        return out or ["    " * ind + "pass"]

    def stmts(self, items, ind):
        A = self.A
        pad = "    " * ind
        out = []
        i = 0
        while i < len(items):
            s = items[i]
            if isinstance(s, A.Pragma):
                txt = s.string.split()
                nxt = items[i + 1] if i + 1 < len(items) else None
                if txt[:1] != ["omp"]:
                    i += 1
                    continue
                if txt[1:3] == ["parallel", "for"] or txt[1:2] == ["for"]:
                    out += self.ompfor(nxt, ind, s.string, new=txt[1] == "parallel")
                elif txt[1:2] == ["parallel"]:
                    out += self.parallel(nxt, ind, s.string)
                elif txt[1:2] in (["critical"], ["atomic"], ["barrier"], ["single"], ["master"]):
                    raise Unsupported("omp " + txt[1])
                elif txt[1:2] == ["simd"]:
                    i += 1
                    continue
                else:
                    raise Unsupported("omp " + " ".join(txt[1:]))
                i += 2
                continue
            if isinstance(s, A.If) and s.iffalse is None and self.gotos(s.iftrue):
                lab = self.gotos(s.iftrue)
                ends = [k for k in range(i + 1, len(items)) if isinstance(items[k], A.Label) and items[k].name == lab]
                if len(ends) != 1 or ind != 1:
                    raise Unsupported("goto")
                pre = []
                c = self.cond(s.cond, pre)
                out += [pad + p for p in pre]
                before = [x for x in (s.iftrue.block_items if isinstance(s.iftrue, A.Compound) else [s.iftrue]) if not isinstance(x, A.Goto)]
                out.append(pad + "if %s:" % c)
                out += self.stmts(before, ind + 1) or [pad + "    pass"]
                out.append(pad + "else:")
                self.inner_goto = lab
                out += self.stmts(items[i + 1:ends[0]], ind + 1) or [pad + "    pass"]
                out += self.stmts([items[ends[0]].stmt] + items[ends[0] + 1:], ind)
                return out
            out += self.stmt(s, ind)
            i += 1
        return out

    def gotos(self, s):
        A = self.A
        x = s.block_items[-1] if isinstance(s, A.Compound) and s.block_items else s
        return x.name if isinstance(x, A.Goto) else None

    def clause(self, txt, what):
        m = re.findall(r"\b%s\s*\(([^)]*)\)" % what, txt)
        return {x.split(":")[-1].strip() for g in m for x in g.split(",")}

    def races(self, body, txt, loopvars, ind, outer):
        A = self.A
        priv = set()
        for w in ("private", "firstprivate", "lastprivate", "reduction"):
            priv |= self.clause(txt, w)
        local = self.declared(body) | priv | loopvars
        out = []
        reads = self.reads(body)
        for v in sorted(set(self.assigned(body)) - local):
            if v in reads and not v.startswith("."):
                out.append("    " * ind + "_vc_c_race(%r)" % v)
        return out

    def reads(self, node, out=None):
        """variables whose value is read"""
        A = self.A
        out = set() if out is None else out
        if isinstance(node, A.Assignment) and isinstance(node.lvalue, A.ID):
            if node.op != "=":
                out.add(node.lvalue.name)
            self.reads(node.rvalue, out)
            return out
        if isinstance(node, A.StructRef):
            return self.reads(node.name, out)
        if isinstance(node, A.ID):
            out.add(node.name)
        for _, c in node.children():
            self.reads(c, out)
        return out

    def omploops(self, node, out=None):
        """variables of the loops directly annotated with omp for"""
        A = self.A
        out = set() if out is None else out
        if isinstance(node, A.Compound):
            its = node.block_items or []
            for a, b in zip(its, its[1:]):
                if isinstance(a, A.Pragma) and a.string.split()[:2] == ["omp", "for"]:
                    c = self.canonical(b)
                    if c:
                        out.add(c["var"])
        for _, c in node.children():
            self.omploops(c, out)
        return out

    def parallel(self, s, ind, txt):
        pad = "    " * ind
        if self.region is not None or s is None:
            raise Unsupported("nested parallel region")
        out = self.races(s, txt, self.omploops(s), ind, None)
        self.region = True
        out.append(pad + "for _vc_tid in range(_vc_c_threads()):")
        out += self.block(s, ind + 1)
        self.region = None
        return out

    def ompfor(self, s, ind, txt, new):
        c = self.canonical(s) if s is not None else None
        if c is None:
            raise Unsupported("omp for on a loop of unknown form")
        out = []
        if new:
            out += self.races(s.stmt, txt, {c["var"]}, ind, None)
            return out + self.loop(s, c, ind)
        self.nloop += 1
        return out + self.loop(s, c, ind, own=self.nloop)

    def stmt(self, s, ind):
        A = self.A
        pad = "    " * ind
        pre = []
        if isinstance(s, A.Compound):
            return self.stmts(s.block_items or [], ind)
        if isinstance(s, (A.EmptyStatement,)):
            return []
        if isinstance(s, A.Decl):
            return self.decl(s, ind)
        if isinstance(s, A.DeclList):
            return [x for d in s.decls for x in self.decl(d, ind)]
        if isinstance(s, A.ExprList):
            return [x for d in s.exprs for x in self.stmt(d, ind)]
        if isinstance(s, A.Assignment):
            return [pad + x for x in self.assign(s)]
        if isinstance(s, A.UnaryOp) and s.op in ("p++", "++", "p--", "--"):
            op = s.op[-1]
            if isinstance(s.expr, A.ID):
                v = nm(s.expr.name)
                if self.isptr(s.expr):
                    v += "__o"
                return [pad + "%s = %s %s 1" % (v, v, op)]
            return [pad + x for x in self.assign(A.Assignment(op + "=", s.expr, A.Constant("int", "1")))]
        if isinstance(s, A.FuncCall):
            if s.name.name == "free":
                return [pad + "pass"]
            r = self.call(s, pre)
            return [pad + x for x in pre] + [pad + r]
        if isinstance(s, A.Return):
            if s.expr is None:
                return [pad + "return"]
            r = self.e(s.expr, pre)
            return [pad + x for x in pre] + [pad + "return " + r]
        if isinstance(s, A.If):
            c = self.cond(s.cond, pre)
            out = [pad + x for x in pre] + [pad + "if %s:" % c] + self.block(s.iftrue, ind + 1)
            if s.iffalse is not None:
                out += [pad + "else:"] + self.block(s.iffalse, ind + 1)
            return out
        if isinstance(s, A.For):
            c = self.canonical(s)
            if c is not None:
                return self.loop(s, c, ind)
            raise Unsupported("for loop of unknown form")
        if isinstance(s, A.While):
            if self.calls(s.cond):
                raise Unsupported("while condition")
            c = self.cond(s.cond, pre)
            if pre:
                raise Unsupported("side effect in a while condition")
            return [pad + "while %s:" % c] + self.block(s.stmt, ind + 1)
        if isinstance(s, A.Break):
            return [pad + "break"]
        if isinstance(s, A.Continue):
            return [pad + "continue"]
        if isinstance(s, A.Label):
            return self.stmt(s.stmt, ind)
        if isinstance(s, A.Cast):
            return self.stmt(s.expr, ind)
        raise Unsupported("statement " + type(s).__name__)

    def decl(self, d, ind):
        A = self.A
        pad = "    " * ind
        t = self.ctype(d.type)
        if d.name in self.types and self.types[d.name] != t:
            raise Unsupported("name declared twice with different types")
        self.types[d.name] = t
        v = nm(d.name)
        if t.startswith("arr:"):
            dims, x = [], d.type
            while isinstance(x, A.ArrayDecl):
                dims.append(x.dim)
                x = x.type
            if d.init is not None:
                return [pad + "%s = %s" % (v, self.initlist(d.init))]
            r = "None"
            for q in reversed(dims):
                r = "_vc_c_array(%s, lambda: %s)" % (self.e(q, []), r)
            return [pad + "%s = %s" % (v, r)]
        if t.startswith("struct:"):
            if d.init is not None:
                raise Unsupported("struct initialiser")
            return [pad + "%s = %s()" % (v, t[7:])]
        if d.init is None:
            return []
        return [pad + x for x in self.assign(A.Assignment("=", A.ID(d.name), d.init))]

    def initlist(self, x):
        if isinstance(x, self.A.InitList):
            return "_vc_c_list([%s])" % ", ".join(self.initlist(q) for q in x.exprs)
        return self.e(x, [])

    def assign(self, s):
        A = self.A
        pre = []
        lv = s.lvalue
        t = self.ty(lv)
        if t.startswith("ptr:"):
            if isinstance(lv, A.ID):
                v = nm(lv.name)
                if t[4:].startswith(("struct", "arr")):
                    if s.op != "=":
                        raise Unsupported("struct pointer arithmetic")
                    return pre + ["%s = %s" % (v, self.e(s.rvalue, pre))] if not pre else pre
                if s.op == "=":
                    b, o = self.ptr(s.rvalue, pre)
                    r = pre
                    if b != v:
                        if o not in ("0",) and o.startswith(v + "__o"):
                            raise Unsupported("pointer exchange")
                        r = r + ["%s = %s" % (v, b)]
                    return r + ["%s__o = %s" % (v, o)]
                if s.op in ("+=", "-="):
                    x = self.e(s.rvalue, pre)
                    return pre + ["%s__o = %s__o %s %s" % (v, v, s.op[0], x)]
                raise Unsupported("pointer assignment")
            b, o = self.ptr(s.rvalue, pre)
            tgt = self.e(lv, pre)
            return pre + ["%s = %s" % (tgt, b if o == "0" else "_vc_c_at(%s, %s)" % (b, o))]
        if isinstance(s.rvalue, A.Assignment):   # a = b = e
            inner = self.assign(s.rvalue)
            return inner + self.assign(A.Assignment(s.op, lv, s.rvalue.lvalue))
        r = self.e(s.rvalue, pre)
        n0 = len(pre)
        tgt = self.e(lv, pre)
        if len(pre) > n0 and n0 and s.op != "=":
            raise Unsupported("side effects on both sides")
        if s.op == "=":
            if t == "int" and self.ty(s.rvalue) == "double":
                r = "_vc_cast('long', %s)" % r
            if t == "double" and self.ty(s.rvalue) == "int":
                r = "_vc_cast('double', %s)" % r
            return pre + ["%s = %s" % (tgt, r)]
        op = s.op[:-1]
        if op not in ("+", "-", "*", "/"):
            raise Unsupported("operator " + s.op)
        if op == "/":
            x = "%s(%s, %s)" % ("_vc_c_div" if t == "int" and self.ty(s.rvalue) == "int" else "_vc_c_fdiv", tgt, r)
        else:
            x = "%s %s %s" % (tgt, op, r)
        if t == "int" and self.ty(s.rvalue) == "double":
            x = "_vc_cast('long', %s)" % x
        return pre + ["%s = %s" % (tgt, x)]

    def loop(self, s, c, ind, own=None):
        A = self.A
        pad = "    " * ind
        out, pre = [], []
        if c["decl"] is not None:
            self.types[c["decl"].name] = self.ctype(c["decl"].type)
        for x in c["pre"]:
            out += self.stmt(x, ind)
        v = nm(c["var"])
        a, b = self.e(c["start"], pre), self.e(c["stop"], pre)
        if c["incl"]:
            b = "%s + 1" % b
        out += [pad + x for x in pre]
        body = [s.stmt] + c["extra"]
        for d in self.declared(s.stmt):
            pass
        asg = {}
        for x in body:
            self.assigned(x, asg)
        decl = set()
        for x in body:
            self.declared(x, decl)
        # types of variables declared in the body are needed to tell pointers from counters
        for x in body:
            self.predeclare(x)
        allnames = set(self.types) | {"." + f for t in self.tdef.values() if isinstance(t, dict) for f in t}
        inv = allnames - set(asg) - decl - {c["var"]}
        ind_vars = []
        self.nloop += 1
        L = self.nloop
        for n in asg:
            if n in decl or own is not None:
                continue
            t = self.types.get(n, "")
            if t != "int" and not t.startswith("ptr:"):
                continue
            if any(isinstance(x, A.Assignment) and x.op == "=" for x in asg[n]):
                continue
            if len(set(self.names(A.Compound(list(body)))) & {n}) == 0:
                continue
            d = self.delta(n, body, inv)
            if d is None:
                continue
            ind_vars.append((nm(n) + ("__o" if t.startswith("ptr:") else ""), d))
        it = "(%s - %s)" % (v, a) if a != "0" else v
        if c["step"] != 1:
            it = "_vc_c_div(%s, %d)" % (it, c["step"])
        for n, d in ind_vars:
            out.append(pad + "_s%d_%s = %s" % (L, n, n))
            out.append(pad + "_d%d_%s = %s" % (L, n, d))
        rng = "range(%s, %s%s)" % (a, b, ", %d" % c["step"] if c["step"] != 1 else "") if a != "0" or c["step"] != 1 else "range(%s)" % b
        out.append(pad + "for %s in %s:" % (v, rng))
        k = ind + 1
        if own is not None:
            out.append(pad + "    if _vc_c_owner(%d, %s) == _vc_tid:" % (own, v))
            k += 1
        for n, d in ind_vars:
            out.append("    " * k + "%s = _s%d_%s + %s * _d%d_%s" % (n, L, n, it, L, n))
        for x in body:
            out += self.block(x, k)
        for n, d in ind_vars:
            out.append(pad + "%s = _s%d_%s + _vc_c_trip(%s, %s, %d) * _d%d_%s" % (n, L, n, a, b, c["step"], L, n))
        if self.used_outside(c["var"]):
            out.append(pad + "%s = %s + _vc_c_trip(%s, %s, %d) * %d" % (v, a, a, b, c["step"], c["step"]))
        return out

    def predeclare(self, x):
        A = self.A
        if isinstance(x, A.Decl) and x.name:
            self.types.setdefault(x.name, self.ctype(x.type))
        for _, c in x.children():
            self.predeclare(c)

    def used_outside(self, var):
        """is the variable read anywhere but inside a canonical loop over it?"""
        A = self.A

        def walk(s):
            if isinstance(s, A.For):
                c = self.canonical(s)
                if c is not None and c["var"] == var:
                    return False
            if isinstance(s, A.Assignment) and isinstance(s.lvalue, A.ID) and s.lvalue.name == var and s.op == "=":
                return walk(s.rvalue)
            if isinstance(s, A.StructRef):
                return walk(s.name)
            if isinstance(s, A.ID):
                return s.name == var
            return any(walk(q) for _, q in s.children())
        return walk(self.fd.body)

    def source(self):
        A = self.A
        d = self.fd.decl
        ps, pro = [], []
        for p in (d.type.args.params if d.type.args else []):
            if isinstance(p, A.EllipsisParam):
                raise Unsupported("variadic function")
            if p.name is None:
                continue
            t = self.ctype(p.type)
            if t.startswith("arr:") and not t[4:].startswith("arr:"):
                t = "ptr:" + t[4:]
            self.types[p.name] = t
            ps.append(nm(p.name))
            if t.startswith("ptr:") and not t[4:].startswith(("struct", "arr")):
                pro.append("    %s__o = 0" % nm(p.name))
        body = self.stmts(self.fd.body.block_items or [], 1)
        return "def %s(%s):\n%s\n" % (nm(d.name), ", ".join(ps), "\n".join(pro + body or ["    pass"]))


# -------------------------------------------------------------------- run-time support of the translated code
def _unk(kind, n):
    import z3
    from .arr import Ax, SArr, Storage, dim
    from .core import fresh_name, I, sort_of
    f = z3.Function(fresh_name("mem"), I, sort_of(kind))
    a = SArr([Ax((dim(n),))], Storage(lambda idx: (f(idx[0][0]), None), kind))
    a.contig = True
    return a


def c_bool(x):
    from .core import SV, zite
    import z3
    if isinstance(x, (bool, int)):
        return int(bool(x))
    return SV("i", zite(x.t, z3.IntVal(1), z3.IntVal(0)))


def c_div(a, b):
    from .core import CTX, SV, lift
    import z3
    if isinstance(a, int) and isinstance(b, int):
        return int(a / b)
    if CTX().valid(z3.And(lift(a)[1] >= 0, lift(b)[1] > 0)):
        return a // b
    raise Unsupported("division of possibly negative C integers")


def c_mod(a, b):
    from .core import CTX, lift
    import z3
    if CTX().valid(z3.And(lift(a)[1] >= 0, lift(b)[1] > 0)):
        return a % b
    raise Unsupported("remainder of possibly negative C integers")


def c_fdiv(a, b):
    return a / b


def c_pow(x, y):
    from .npshim import np
    if y == 2:
        return x * x
    if y == 0.5:
        return np.sqrt(x)
    return x ** y


def c_threads():
    from .core import CTX
    return getattr(CTX(), "c_threads", 1)


def c_owner(loop, i):
    import z3
    from .core import SV, I, zite
    from .arr import zi
    T = c_threads()
    r = z3.IntVal(T - 1)
    for t in reversed(range(T - 1)):
        f = z3.Function("omp_owner_%d_%d" % (loop, t), I, z3.BoolSort())
        r = zite(f(zi(i)), z3.IntVal(t), r)
    return SV("i", r) if T > 1 else 0


def c_malloc(t, cls, n, zero):
    from .core import CTX, SV
    from .arr import zi
    from .ptr import FlatPtr
    from .seq import SList
    c = CTX()
    c.c_mallocs = getattr(c, "c_mallocs", 0) + 1
    if c.c_mallocs in getattr(c, "c_malloc_fails", ()):
        return None
    if t.startswith("struct:"):
        if not isinstance(n, int):
            raise Unsupported("array of structs of unknown length")
        return SList([cls() for _ in range(n)])
    if t not in ("double", "int"):
        raise Unsupported("malloc of " + t)
    if zero:
        from .npshim import np
        return FlatPtr(np.zeros((n,), dtype="float" if t == "double" else "int"))
    return FlatPtr(_unk("f" if t == "double" else "i", n))


def c_at(p, o):
    if p is None or (isinstance(o, int) and o == 0):
        return p
    return p + o


def c_trip(a, b, step):
    from .core import CTX, lift
    import z3
    if isinstance(a, int) and isinstance(b, int):
        return max(0, -((a - b) // step))
    d = b - a
    if not CTX().decide(lift(d)[1] >= 0):
        return 0
    return d if step == 1 else (d + (step - 1)) // step


def c_race(name):
    import z3
    from .core import CTX
    CTX().oblige("no-data-race-on-" + name, z3.BoolVal(False))


def c_array(n, f):
    from .loops import CArray
    if not isinstance(n, int):
        raise Unsupported("C array of variable length")
    return CArray([f() for _ in range(n)])


def c_list(x):
    from .loops import CArray
    return CArray(list(x))


RT = {"_vc_c_" + k: v for k, v in dict(bool=c_bool, div=c_div, mod=c_mod, fdiv=c_fdiv, pow=c_pow, threads=c_threads, owner=c_owner,
                                       malloc=c_malloc, at=c_at, trip=c_trip, race=c_race, array=c_array, list=c_list).items()}
