"""Mechanical translation of Cython source to Python (on every run, from the working tree).

Dropped: C types of variables, parameters and buffers, fused-type dispatch, cimports.  C integer casts become
truncation, pointer casts are kept as pointer values, C array declarations become lists.  C integers are treated
as mathematical integers.
"""
import io
import token as T
import tokenize

from .core import Unsupported

INT = {"int", "long", "short", "char", "Py_ssize_t", "size_t", "unsigned", "ssize_t", "bint"}


def lines_of(src):
    """logical lines: (indent, [tokens])"""
    out, cur, ind = [], [], []
    depth = 0
    for t in tokenize.generate_tokens(io.StringIO(src).readline):
        if t.type == T.INDENT:
            depth += 1
        elif t.type == T.DEDENT:
            depth -= 1
        elif t.type == T.NEWLINE:
            out.append((depth, cur))
            cur = []
        elif t.type in (T.NL, T.COMMENT, T.ENDMARKER):
            continue
        else:
            cur.append((t.type, t.string))
    return out


def match(toks, i):
    """index after the group opened at i"""
    op = toks[i][1]
    cl = {"(": ")", "[": "]", "{": "}"}[op]
    n = 0
    while True:
        s = toks[i][1]
        if s in "([{" and s:
            n += 1
        elif s in ")]}" and s:
            n -= 1
            if n == 0:
                if s != cl:
                    raise Unsupported("unbalanced brackets")
                return i + 1
        i += 1


def split(toks, sep=","):
    out, cur, n = [], [], 0
    for t in toks:
        if t[1] in ("(", "[", "{"):
            n += 1
        elif t[1] in (")", "]", "}"):
            n -= 1
        if t[1] == sep and n == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    out.append(cur)
    return out


def dotted(toks, i):
    """skip NAME(.NAME)* (with leading qualifiers); returns next index"""
    if i >= len(toks) or toks[i][0] != T.NAME:
        return None
    i += 1
    while i + 1 < len(toks) and toks[i][1] == "." and toks[i + 1][0] == T.NAME:
        i += 2
    return i


def typ(toks, i):
    """parse a C type at i: returns (text, next index) where the next token is the declared name"""
    st = i
    while toks[i][1] in ("unsigned", "const", "inline", "struct"):
        i += 1
    j = dotted(toks, i) if toks[i][0] == T.NAME else None
    if j is None:
        return None
    i = j
    while i < len(toks) and toks[i][1] in ("long", "int") and i + 1 < len(toks) and (toks[i + 1][0] == T.NAME or toks[i + 1][1] in ("*", "**")):
        i += 1
    while i < len(toks):
        if toks[i][1] == "[":
            i = match(toks, i)
        elif toks[i][1] in ("*", "**"):
            i += 1
        else:
            break
    return "".join(t[1] for t in toks[st:i]), i


def kind(tx):
    if tx.endswith("*"):
        return "ptr"
    if "[" in tx:
        return "buf"
    b = tx.split(".")[-1]
    if b in INT or b.startswith(("int", "uint", "long", "unsigned")):
        return "int"
    return "other"


def casts(toks):
    """rewrite <type> atom  into  _vc_cast('type', atom)"""
    out = []
    i = 0
    while i < len(toks):
        s = toks[i][1]
        prev = toks[i - 1] if i else None
        operand = prev is not None and (prev[1] in (")", "]", "}") or prev[0] in (T.NUMBER, T.STRING) or
                                        (prev[0] == T.NAME and prev[1] not in ("return", "and", "or", "not", "in", "is", "if", "else", "lambda", "yield")))
        if s == "<" and not operand:
            p = typ(toks, i + 1)
            if p is None or toks[p[1]][1] != ">":
                raise Unsupported("cast")
            tx, j = p
            j += 1
            k = j
            if toks[k][1] in ("-", "+", "~"):
                k += 1
            if toks[k][1] == "<":
                raise Unsupported("nested cast")
            k = match(toks, k) if toks[k][1] in ("(", "[") else k + 1
            while k < len(toks):
                if toks[k][1] == "." and toks[k + 1][0] == T.NAME:
                    k += 2
                elif toks[k][1] in ("(", "["):
                    k = match(toks, k)
                else:
                    break
            out += [(T.NAME, "_vc_cast"), (T.OP, "("), (T.STRING, repr(tx)), (T.OP, ",")] + casts(toks[j:k]) + [(T.OP, ")")]
            i = k
            continue
        out.append(toks[i])
        i += 1
    return out


def text(toks):
    return " ".join(t[1] for t in toks)


def params(toks):
    ps = []
    for p in split(toks):
        if not p:
            continue
        parts = split(p, "=")
        head, dflt = parts[0], parts[1:]
        star = ""
        while head and head[0][1] in ("*", "**"):
            star += head[0][1]
            head = head[1:]
        if not head:
            ps.append(star)
            continue
        names = [t for t in head if t[0] == T.NAME]
        ps.append(star + head[-1][1] + ("=" + text(casts(dflt[0])) if dflt else "") if head[-1][0] == T.NAME else None)
        if ps[-1] is None or not names:
            raise Unsupported("parameter " + text(p))
    return ", ".join(ps)


def header(toks, i):
    """function header at name index i: 'def name(params):'"""
    j = match(toks, i + 1)
    if toks[-1][1] != ":":
        return None
    return "def %s(%s):" % (toks[i][1], params(toks[i + 2:j - 1]))


def translate(src):
    out = []
    skip = None
    need_body = None
    for ind, toks in lines_of(src):
        if not toks:
            continue
        if skip is not None:
            if ind > skip:
                continue
            skip = None
        w = [t[1] for t in toks]
        pad = "    " * ind
        if w[0] == "cimport" or (w[0] == "from" and "cimport" in w):
            continue
        if w[0] == "DEF":
            out.append(pad + text(toks[1:]))
            continue
        if w[0] == "ctypedef":
            if w[-1] == ":":
                skip = ind
            continue
        if w[0] == "cdef" or w[0] == "cpdef":
            if w[1] in ("class", "extern", "enum", "struct"):
                raise Unsupported("cdef " + w[1])
            p = typ(toks, 1)
            if p is None:
                raise Unsupported("cdef line " + text(toks))
            tx, i = p
            if i < len(toks) and toks[i][1] == "(":      # cdef name(...): without a type
                h = header(toks, i - 1)
                if h is None:
                    raise Unsupported("cdef line " + text(toks))
                out.append(pad + h)
                continue
            if i + 1 < len(toks) and toks[i + 1][1] == "(" and toks[-1][1] == ":":
                h = header(toks, i)
                out.append(pad + h)
                continue
            stm = []
            for d in split(toks[i:]):
                parts = split(d, "=")
                nm = parts[0]
                while nm and nm[0][1] in ("*", "**"):
                    tx += "*"
                    nm = nm[1:]
                if len(nm) == 1 and nm[0][0] == T.NAME:
                    if len(parts) > 1:
                        e = text(casts(parts[1]))
                        stm.append("%s = %s" % (nm[0][1], "_vc_cast('long', %s)" % e if kind(tx) == "int" else e))
                elif len(nm) > 3 and nm[1][1] == "[" and len(parts) == 1:
                    stm.append("%s = [None] * (%s)" % (nm[0][1], text(nm[2:-1])))
                else:
                    raise Unsupported("declaration " + text(d))
            for x in stm:
                out.append(pad + x)
            if not stm:
                out.append(pad + "pass")
            continue
        if w[0] == "def":
            h = header(toks, 1)
            if h is None:
                raise Unsupported("def line")
            out.append(pad + h)
            continue
        out.append(pad + text(casts(toks)))
    return "\n".join(out) + "\n"
