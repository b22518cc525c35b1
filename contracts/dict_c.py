"""Contracts: nested metadata dictionaries (skbeam/core/utils.py), over every tree of the listed shapes with arbitrary leaf values."""
import itertools

from pyvc.core import SV, Unsupported, zand, zb
from pyvc.verify import contract

UT = "skbeam.core.utils"
SHAPES = [(), ("a",), ("a", "b"), ("a.b",), ("a.b", "a.c"), ("a.b", "c"), ("a.b.c",), ("a.b.c", "a.b.d", "a.e"), ("b.a", "a.b.c", "d")]
PATHS = ["a", "b", "a.b", "a.c", "a.b.c", "a.e", "d.a", "a.b.c.d"]


def under(k, p):
    return k == p or k.startswith(p + ".")


def _hist(clsname, opname):
    """one operation on a dictionary holding any leaves: effect on the addressed path, frame on every other path"""
    def c(V):
        mod = V.module()
        cls = getattr(mod, clsname)
        md = clsname == "MD_dict"
        vals = [V.real("leaf%d" % k) for k in range(4)]
        new = V.real("new")

        def val(x):
            return x.value if md else x
        for shape, path in itertools.product(SHAPES, PATHS):
            def call():
                d = cls()
                for k, v in zip(shape, vals):
                    d[k] = v
                res, err = None, None
                try:
                    if opname == "set":
                        d[path] = new
                    elif opname == "get":
                        res = d[path]
                    else:
                        del d[path]
                except (KeyError, TypeError, AttributeError) as e:
                    err = e
                return res, err, sorted(d), {k: d[k] for k in list(d)}, len(d)
            tag = "%s-%s" % ("+".join(shape) or "empty", path)
            old = dict(zip(shape, vals))
            through = [k for k in shape if under(path, k) and k != path]
            sub = [k for k in shape if under(k, path)]
            branch = any(k.startswith(path + ".") for k in shape)
            for p in V.paths(call):
                if not p.returned():
                    continue
                res, err, names, leaves, n = p.ret
                want = dict(old)
                if through:
                    p.ensure("leaf-not-a-branch:" + tag, isinstance(err, KeyError) or (opname != "set" and not md and err is not None) or (opname == "del" and err is not None))
                elif opname == "set":
                    p.ensure("stored:" + tag, err is None)
                    for k in sub:
                        del want[k]
                    want[path] = new
                elif opname == "del":
                    p.ensure("deleted:" + tag, (err is None) == (path in old or branch))
                    if err is None:
                        for k in sub:
                            del want[k]
                elif path in old:
                    p.ensure("read-back:" + tag, zand(err is None, zb(val(res) == old[path]) if res is not None else zb(False)))
                elif branch:
                    p.ensure("branch:" + tag, err is None and isinstance(res, cls) and sorted(res) == sorted(k[len(path) + 1:] for k in sub))
                else:
                    p.ensure("missing:" + tag, (err is None and res is None) if md else isinstance(err, KeyError))
                p.ensure("leaf-names:" + tag, names == sorted(want) and n == len(want))
                for k, v in want.items():
                    p.ensure("leaf-value:%s:%s" % (tag, k), zb(val(leaves[k]) == v) if k in leaves else zb(False))
    c.__name__ = "%s_%s" % (clsname, opname)
    return c


for _c in ("MD_dict", "RCParamDict"):
    for _o in ("set", "get", "del"):
        contract("P27", UT + ":" + _c)(_hist(_c, _o))
