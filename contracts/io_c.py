"""Contracts: powder pattern files, Fit2D masks and raw binary arrays (skbeam/io)."""
import types

import z3

from pyvc import text
from pyvc.arr import SArr
from pyvc.core import SV, Unsupported, uf, zand, zb, zimp, znot, zor
from pyvc.verify import contract

SPO = "skbeam.io.save_powder_output"
GSR = "skbeam.io.gsas_file_reader"


def setup(V, dirs=("/data",), files=(), mods=(SPO,)):
    text.on(V.ctx)
    ms = [V.module(m) for m in mods]
    box = {}

    def fresh():
        text.on(V.ctx)
        box["fs"] = fs = text.FS(dirs, files)
        for m in ms:
            m.os, m.open = fs.os(), fs.open
        return fs
    return ms, fresh


# ---------------------------------------------------------------- validation and paths
@contract("P23", SPO + ":_validate_input", op=["rejects", "save_output"])
def validate(V):
    n, m, e = V.int("n", 0), V.int("m", 0), V.int("e", 0)
    x, y, err = V.arr("x", (n,)), V.arr("y", (m,)), V.arr("err", (e,))
    f = V.fn()
    for ext in (".chi", ".dat", ".xye", ".gsas"):
        for has in (True, False):
            for p in V.paths(lambda: f(x, y, err if has else None, ext)):
                bad = zor(n != m, m != e) if has else zor(n != m, ext == ".xye")
                tag = "%s-%s" % (ext, "err" if has else "none")
                if p.kind == "exc":
                    p.raises(ValueError)
                    p.ensure("rejects-only-bad" + tag, bad)
                else:
                    p.ensure("accepts-only-good" + tag, znot(bad))
                V.frame(p)


@contract("P23", SPO + ":_create_file_path", op=["save_output", "save_output_cwd", "rejects"])
def path(V):
    for d in (None, "/data", "/data/", "/missing"):
        for name in ("run1", "a.b", "s.v2.x"):
            for ext in (".chi", ".xye", ".gsas", ".msk"):
                want = name + ext if d is None else "/data/" + name + ext
                for files in ((), (want,), (want + "x", "/data/" + name)):
                    ms, fresh = setup(V, ("/data", "/data/"), files)

                    def call():
                        fs = fresh()
                        return ms[0]._create_file_path(d, name, ext), fs
                    tag = "(%s,%s%s)" % (d, name, ext)
                    for p in V.paths(call):
                        if d == "/missing":
                            p.raises(ValueError, "missing-directory" + tag)
                            continue
                        if not p.returned("no-exception" + tag):
                            continue
                        r, fs = p.ret
                        p.ensure("base-name-and-extension" + tag, r == want)
                        p.ensure("replaces-only-this-file" + tag, fs.removed == [f for f in files if f == want])


# ---------------------------------------------------------------- chi / dat / xye
def _save(ext, kind, has, old):
    def c(V):
        n = V.int("n", 1)
        x, y, e = V.arr("x", (n,)), V.arr("y", (n,)), V.arr("err", (n,))
        want = "/data/run.1" + (ext or ".chi")
        ms, fresh = setup(V, ("/data",), (want, "/data/run.1") if old else ())

        def call():
            fs = fresh()
            kw = {} if ext is None else {"ext": ext}
            ms[0].save_output(x, y, "run.1", kind, err=e if has else None, dir_path="/data", **kw)
            return fs
        for p in V.paths(call):
            if not p.returned():
                continue
            V.frame(p)
            fs = p.ret
            p.ensure("one-file", sorted(fs.files) == sorted({want} | ({"/data/run.1"} if old else set())))
            parts = fs.files.get(want, [])
            tabs = [t for t in parts if isinstance(t, text.Table)]
            if len(tabs) != 1 or not isinstance(parts[-1], text.Table):
                raise Unsupported("file not written by one savetxt after the header")
            t = tabs[0]
            p.ensure("exact-text", t.exact())
            cols = [x, y] + ([e] if has else [])
            p.ensure("shape", zand(t.arr.ndim == 2, V.len(t.arr) == n, V.len(t.arr.T) == len(cols)))
            i = V.index(n)
            for q, a in enumerate(cols):
                p.ensure("column-%d" % q, t.arr.at(i, q) == a.at(i))
            head = "".join(parts[:-1])
            p.ensure("header-names-file", head.split("\n")[0].strip() == "run.1")
            p.ensure("header-ends-line", head.endswith("\n"))
            low = " ".join(head.split())
            p.ensure("header-kind", ("Q values" in low) == (kind == "Q") and ("two theta values" in low) == (kind == "2theta"))
            runs = [w for w in head.split() if text.has_run(w)]
            p.ensure("header-count", len(runs) == 1 and text.parse(runs[0], "i") == n)
    c.__name__ = "save_%s_%s_%s%s" % ((ext or "default").strip("."), kind, "err" if has else "noerr", "_replace" if old else "")
    return c


for _ext in (None, ".chi", ".dat", ".xye"):
    for _kind in ("Q", "2theta"):
        for _has in (True, False):
            if _ext == ".xye" and not _has:
                continue
            _old = _kind == "Q"
            contract("P23", SPO + ":save_output", op=["save_output", "save_output_cwd"])(_save(_ext, _kind, _has, _old))


@contract("P23", SPO + ":save_output", op="rejects")
def save_rejects(V):
    n, m, k = V.int("n", 1), V.int("m", 1), V.int("k", 1)
    x, y, e = V.arr("x", (n,)), V.arr("y", (m,)), V.arr("err", (k,))
    cases = {"kind": ((x, y, "f", "twotheta"), {"dir_path": "/data"}, True),
             "directory": ((x, y, "f", "Q"), {"dir_path": "/nowhere"}, True),
             "xye": ((x, y, "f", "Q"), {"dir_path": "/data", "ext": ".xye"}, True),
             "lengths": ((x, y, "f", "Q"), {"dir_path": "/data"}, n != m),
             "errors": ((x, y, "f", "2theta"), {"dir_path": "/data", "err": e}, zor(n != m, m != k))}
    for nm, (a, kw, bad) in cases.items():
        ms, fresh = setup(V)
        box = []

        def call():
            fs = fresh()
            try:
                ms[0].save_output(*a, **kw)
                return fs, None
            except ValueError as ex:
                return fs, ex
        for p in V.paths(call):
            if not p.returned():
                continue
            fs, ex = p.ret
            if ex is None:
                p.ensure("accepted-only-good:" + nm, znot(bad))
            else:
                p.ensure("rejected-only-bad:" + nm, bad)
                p.ensure("no-file-left:" + nm, fs.files == {})


# ---------------------------------------------------------------- GSAS
TOL = {"STD": (0, 5), "ESD": (0, 5), "FXYE": (10, 10)}


def _gsas(mode, n, given=True):
    """writer then reader: the same points up to the printed precision (n concrete, every value)"""
    def c(V):
        has = given and mode is not None
        eff = mode or "STD"
        x0, dx = V.real("x0"), V.real("dx")
        big = n == 2
        if big and eff == "STD":
            V.assume(zand(x0 > -10, x0 < 100, dx > 0, dx < 9))
        else:
            V.assume(zand(x0 > 11, x0 < 99, dx > 0, dx * 10 < 9))
        y, e = V.arr("y", (n,)), V.arr("err", (n,))
        x = (SArr_line(V, x0, dx, n) if eff != "FXYE" else V.arr("x", (n,)))
        for i in range(n):
            V.assume(zand(y.at(i) >= 0, e.at(i) >= 0))
            if eff == "FXYE":
                V.assume(zand(x.at(i) > 11, x.at(i) < 99, e.at(i) < 1000000000))
                if i:
                    V.assume(zand(x.at(i) > x.at(i - 1), x.at(i) * 10 < x.at(i - 1) * 10 + 9))
            else:
                V.assume(e.at(i) < 99999999)
            if not big:     # one path: counts within the format, at least one everywhere but in the last point
                V.assume(zand(y.at(i) <= 999999, zor(i == n - 1, zand(y.at(i) >= 1, e.at(i) >= 1))))
        V.assume(zor(*[y.at(i) > 0 for i in range(n)]))
        mx = y.max()
        for i in range(n):
            V.ensure("largest-%d" % i, y.at(i) <= mx)
            V.assume(y.at(i) <= mx)
        V.ensure("largest-positive", mx > 0)
        V.assume(mx > 0)
        if not big:
            V.ensure("largest-fits", mx <= 999999)
            V.assume(mx <= 999999)
        ms, fresh = setup(V, mods=(SPO, GSR))

        def call():
            fs = fresh()
            kw = {} if mode is None else {"mode": mode}
            ms[0].gsas_writer(x, y, "run.1", err=e if has else None, dir_path="/data", **kw)
            names = sorted(fs.files)
            return names, ms[1].gsas_reader("/data/run.1.gsas")
        for p in V.paths(call):
            if not p.returned():
                continue
            V.frame(p)
            names, r = p.ret
            p.ensure("file-name", names == ["/data/run.1.gsas"])
            X, Y, W = r
            for nm, a in (("tth", X), ("intensity", Y), ("weights", W)):
                p.ensure("count-" + nm, V.len(a) == n)
                if not V.ctx.valid(zb(V.len(a) == n)):
                    return
            # the scale: a power of ten, at most one, bringing the largest intensity below a million and no smaller than needed
            sc = scale_of(V)
            if sc is None:
                s, ex = SV("f", z3.RealVal(1)), None
                p.ensure("no-scaling-needed", mx <= 999999)
            else:
                s, ex = sc
                p.ensure("scale-fits", mx * s <= 999999)
                p.ensure("scale-at-most-one", s <= 1)
                p.ensure("scale-no-smaller-than-needed", zor(s == 1, mx * s * 10 > 999999))
            py, px = TOL[eff]
            half = z3.RealVal("1/2") / z3.RealVal(10 ** py)
            for i in range(n):
                w = y.at(i) * s
                p.ensure("intensity-%d" % i, zand(Y.at(i) - w <= SV("f", half), w - Y.at(i) <= SV("f", half)))
                tx = SV("f", z3.RealVal("1/20000000") * (1 + i)) if eff != "FXYE" else SV("f", z3.RealVal("1/20000000000"))
                p.ensure("two-theta-%d" % i, zand(X.at(i) - x.at(i) <= tx, x.at(i) - X.at(i) <= tx))
                if eff == "STD":
                    p.ensure("weight-%d" % i, W.at(i) * Y.at(i) == V.ite(Y.at(i) > 0, 1.0, 0.0))
                    p.ensure("weight-zero-%d" % i, zimp(Y.at(i) <= 0, W.at(i) == 0))
                else:
                    # weight = 1 / E**2 for some E > 0 within the printed precision of the scaled error (0 for E <= 0)
                    es, h = e.at(i) * s, SV("f", half)
                    if V.ctx.valid(zb(W.at(i) == 0)):
                        p.ensure("weight-zero-%d" % i, es <= h)
                        continue
                    E = printed_error(W.at(i).t)
                    p.ensure("weight-%d" % i, zand(W.at(i) * E * E == 1))
                    p.ensure("weight-error-%d" % i, zand(E > 0, E - es <= h, es - E <= h))
    c.__name__ = "roundtrip_%s_%d" % (mode or "default", n)
    return c


def printed_error(w):
    """a witness for E in w == 1 / E**2: the number the reader squared"""
    todo, seen = [z3.simplify(w, expand_power=False), w], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DIV and z3.is_app(t.arg(1)) and t.arg(1).decl().kind() == z3.Z3_OP_MUL and \
                t.arg(1).num_args() == 2 and t.arg(1).arg(0).eq(t.arg(1).arg(1)):
            return SV("f", t.arg(1).arg(0))
        todo += t.children()
    raise Unsupported("weight not written as one over a square")


def SArr_line(V, x0, dx, n):
    from pyvc.npshim import np as N
    return x0 + dx * N.arange(n)


def scale_of(V):
    """the power of ten the writer multiplied by, if it computed one symbolically on this path"""
    seen = {}

    def walk(t):
        if t.get_id() in seen:
            return
        seen[t.get_id()] = t
        for ch in t.children():
            walk(ch)
    for f in V.ctx.pc:
        walk(f)
    ps = [t for t in seen.values() if z3.is_app(t) and t.decl().eq(uf("pow")) and z3.is_rational_value(z3.simplify(t.arg(0)))]
    if len(ps) > 1:
        raise Unsupported("several powers of ten")
    return (SV("f", ps[0]), None) if ps else None


for _mode, _ns in (("STD", (2, 10, 11)), (None, (3,)), ("ESD", (2, 5, 6)), ("FXYE", (2, 3))):
    for _n in _ns:
        contract("P23", SPO + ":gsas_writer", op="gsas", covers=(GSR + ":gsas_reader",))(_gsas(_mode, _n))


@contract("P23", SPO + ":gsas_writer", op="rejects", covers=(GSR + ":gsas_reader",))
def gsas_rejects(V):
    n, m, k = V.int("n", 2), V.int("m", 2), V.int("k", 2)
    x, y, e = V.arr("x", (n,)), V.arr("y", (m,)), V.arr("err", (k,))
    V.assume(V.exists((m,), lambda i: y.at(i) > 0))
    cases = {"directory": ((x, y, "f"), {"dir_path": "/nowhere"}, True),
             "lengths": ((x, y, "f"), {"dir_path": "/data", "mode": "STD"}, n != m),
             "errors": ((x, y, "f"), {"dir_path": "/data", "mode": "ESD", "err": e}, zor(n != m, m != k))}
    for nm, (a, kw, bad) in cases.items():
        ms, fresh = setup(V)
        if nm == "directory":
            ctxs = (z3.BoolVal(True),)
        else:
            ctxs = (zb(bad),)
        for cond in ctxs:
            with V.suppose(cond):
                def call():
                    fs = fresh()
                    try:
                        ms[0].gsas_writer(*a, **kw)
                        return fs, None
                    except ValueError as ex:
                        return fs, ex
                for p in V.paths(call):
                    if not p.returned():
                        continue
                    fs, ex = p.ret
                    p.ensure("rejected:" + nm, ex is not None)
                    p.ensure("no-file-left:" + nm, fs.files == {})


@contract("P23", SPO + ":gsas_writer", op="rejects", covers=(GSR + ":gsas_reader",))
def gsas_modes(V):
    """an unknown mode, a wrong extension or an unknown mode in a file is refused"""
    y, e = V.arr("y", (3,)), V.arr("err", (3,))
    for i in range(3):
        V.assume(zand(y.at(i) > 0, y.at(i) < 1000, e.at(i) > 0, e.at(i) < 1000))
    x = SArr_line(V, V.real("x0", lo=11), 1, 3)
    V.assume(zand(x.at(0) < 90, y.max() > 0, y.max() < 1000))
    ms, fresh = setup(V, mods=(SPO, GSR))

    def call():
        fs = fresh()
        try:
            ms[0].gsas_writer(x, y, "f", mode="XYZ", err=e, dir_path="/data")
        except ValueError as ex:
            return fs, ex
        return fs, None
    for p in V.paths(call):
        if p.returned():
            p.ensure("unknown-mode-rejected", p.ret[1] is not None)
            p.ensure("no-file-left", p.ret[0].files == {})

    def ext():
        fs = fresh()
        fs.files["/data/x.dat"] = ["a\nb\n"]
        return ms[1].gsas_reader("/data/x.dat")
    for p in V.paths(ext):
        p.raises(OSError, "extension-rejected")

    def odd():
        fs = fresh()
        fs.files["/data/x.gsas"] = ["t\nBANK 1 2 2 CONST 0.0 1.0 0.0 0.0 ODD\n"]
        return ms[1].gsas_reader("/data/x.gsas")
    for p in V.paths(odd):
        p.raises(ValueError, "unknown-mode-in-file-rejected")


# ---------------------------------------------------------------- Fit2D masks and raw binary
@contract("P23", "skbeam.io.fit2d:fit2d_save", op="fit2d_mask", covers=("skbeam.io.fit2d:read_fit2d_msk",))
def fit2d(V):
    r, c = V.int("rows", 1), V.int("cols", 1)
    mask = V.arr("mask", (r, c), "b")
    for old in (False, True):
        m, spo = V.module(), None
        want = "/data/run.1.msk"
        box = {}

        class Image:
            def __init__(self, data=None, header=None):
                self.data = data.copy()

            def write(self, path):
                box["fs"].files[path] = [self.data]

        def fopen(path):
            return types.SimpleNamespace(data=box["fs"].files[path][0])

        def call():
            box["fs"] = fs = text.FS(("/data",), (want,) if old else ())
            m._create_file_path.__globals__["os"] = fs.os()
            m.Fit2dMaskImage, m.fabio = Image, types.SimpleNamespace(open=fopen)
            m.fit2d_save(mask, "run.1", "/data")
            names = sorted(fs.files)
            return names, m.read_fit2d_msk(want)
        for p in V.paths(call):
            if not p.returned():
                continue
            V.frame(p)
            names, got = p.ret
            p.ensure("file-name", names == [want])
            p.ensure("shape", zand(got.ndim == 2, got.shape[0] == r, got.shape[1] == c))
            i, j = V.indices(r, c)
            p.ensure("mask-read-back", got.at(i, j) == mask.at(i, j))


def _raw(nd):
    """a raw file of nx*ny*nz numbers after a header, read back in C order"""
    def c(V):
        nx, ny, nz = V.int("nx", 1), V.int("ny", 1), V.int("nz", 1)
        V.assume(zand(nz == 1 if nd < 3 else nz != 1, ny == 1 if nd == 1 else ny != 1 if nd == 2 else True))
        dims = ((nx,), (nx, ny), (nx, ny, nz))[nd - 1]
        src = V.arr("data", dims)
        hs = V.int("headersize", 0)
        m = V.module()

        class Raw:
            """the one-dimensional array numpy.fromfile returns"""

            def __init__(self):
                self.val = src.ravel()

            def resize(self, *shape, refcheck=True):
                shape = shape[0] if len(shape) == 1 and isinstance(shape[0], tuple) else shape
                self.val = self.val.reshape(shape)

            def reshape(self, *shape):
                r = Raw()
                r.val = self.val.reshape(*shape)
                return r

        class F:
            pos = 0
            reads = 0

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def read(self, n=None):
                if n is None or F.reads:
                    raise Unsupported("read")
                F.reads += 1
                return ("header", n)

        def fromfile(file=None, dtype=None, count=-1, sep="", offset=0):
            if not isinstance(file, F) or count != -1 or offset or not F.reads:
                raise Unsupported("fromfile")
            return Raw()

        class Np:
            dtype = staticmethod(lambda s: s)

            def __getattr__(self, n):
                if n == "fromfile":
                    return fromfile
                raise Unsupported("numpy." + n)
        m.np = Np()

        def opener(name, mode="r"):
            if name != "f.raw" or mode != "rb":
                raise Unsupported("open")
            F.reads = 0
            return F()
        m.open = opener
        for p in V.paths(lambda: m.read_binary("f.raw", nx, ny, nz, "<f8", hs)):
            if not p.returned():
                continue
            V.frame(p)
            r, head = p.ret
            if not isinstance(r, Raw):
                raise Unsupported("result")
            p.ensure("header", head == ("header", hs) if not isinstance(head[1], SV) else zb(head[1] == hs))
            p.ensure("dimensions", r.val.ndim == nd)
            if r.val.ndim != nd:
                continue
            for q, d in enumerate(dims):
                p.ensure("shape-%d" % q, r.val.shape[q] == d)
            ix = V.indices(*dims)
            p.ensure("element", r.val.at(*ix) == src.at(*ix))
    c.__name__ = "raw_%dd" % nd
    return c


for _nd in (1, 2, 3):
    contract("P23", "skbeam.io.binary:read_binary", op="read_binary")(_raw(_nd))
