"""P27 runtime contracts: nested metadata dictionaries under arbitrary operation histories"""
import contextlib
import io

import numpy as np

from rt.common import ensure, op
from skbeam.core.utils import MD_dict, RCParamDict, md_value, verbosedict

PARTS = ["a", "b", "c", "name"]


def g(rng):
    ops = []
    for _ in range(rng.randint(1, 18)):
        path = ".".join(rng.choice(PARTS) for _ in range(rng.choice([1, 1, 2, 2, 3, 4])))
        kind = rng.choice(["set", "set", "set", "get", "get", "del", "iter"])
        val = rng.choice([5, "text", 2.5, None, [5, "m"], [7, None], [3, 4], [1, 2, 3], [1, "x", 3], [9], [], {"k": 1}, ["p", "q"], "uv", ""])
        ops.append([kind, path, val, rng.random() < 0.2])
    return {"ops": ops}


def stored(val):
    """the value a metadata entry holds"""
    if isinstance(val, str):
        return (val, "text")
    if isinstance(val, (list, tuple)) and len(val) == 2 and (isinstance(val[1], str) or val[1] is None):
        return (val[0], val[1])
    return (val, None)


def below(model, path):
    """stored leaves that are proper prefixes of path / leaves under path"""
    p = path.split(".")
    pre = [k for k in model if k.split(".") == p[:len(k.split("."))] and k != path]
    sub = [k for k in model if k.startswith(path + ".")]
    return pre, sub


def run(i, make, isrc):
    d = make()
    model, branches = {}, set()
    seen = io.StringIO()
    for kind, path, val, wrap in i["ops"]:
        pre, sub = below(model, path)
        val = tuple(val) if isinstance(val, list) and wrap else val
        given = md_value(val, "u") if (wrap and not isrc) else val
        want = given if isrc else (md_value(val, "u") if wrap else md_value(*stored(val)))
        with contextlib.redirect_stdout(seen):
            try:
                if kind == "set":
                    d[path] = given
                    res = None
                elif kind == "get":
                    res = d[path]
                elif kind == "del":
                    del d[path]
                    res = None
                else:
                    res = sorted(d)
                err = None
            except Exception as e:
                err, res = e, None
        what = "%s %r after %s" % (kind, path, [o[:3] for o in i["ops"]])
        isbranch = path in branches
        if kind == "set":
            if pre:
                ensure(isinstance(err, KeyError), "%s: storing through the leaf %s did not raise KeyError: %r", what, pre, err)
            else:
                ensure(err is None, "%s raised %r", what, err)
                for k in sub:
                    del model[k]
                branches = {b for b in branches if not (b == path or b.startswith(path + "."))}
                model[path] = want
                p = path.split(".")
                for n in range(1, len(p)):
                    branches.add(".".join(p[:n]))
        elif kind == "get":
            if pre:
                ensure(isinstance(err, KeyError), "%s: reading through the leaf %s gave %r / %r", what, pre, res, err)
            elif path in model:
                ensure(err is None and type(res) is type(model[path]) and res == model[path], "%s gave %r (%r), stored %r", what, res, err, model[path])
            elif isbranch:
                ensure(err is None and isinstance(res, type(d)) and sorted(res) == sorted(k[len(path) + 1:] for k in sub), "%s: branch holds %r", what, res)
            elif isrc:
                ensure(isinstance(err, KeyError), "%s: missing key gave %r / %r", what, res, err)
            else:
                ensure(err is None and res is None, "%s: missing key gave %r / %r", what, res, err)
        elif kind == "del":
            if path in model or isbranch:
                ensure(err is None, "%s raised %r", what, err)
                for k in sub + ([path] if path in model else []):
                    del model[k]
                branches = {b for b in branches if not (b == path or b.startswith(path + "."))}
            else:
                ensure(err is not None, "%s: deleting a missing key did not raise", what)
        else:
            ensure(res == sorted(model), "%s lists %s, stored %s", what, res, sorted(model))
        # the whole state after every step
        ensure(sorted(d) == sorted(model) and len(d) == len(model), "%s left leaves %s, expected %s", what, sorted(d), sorted(model))
        for k, v in model.items():
            ensure(d[k] == v, "%s changed leaf %s to %r", what, k, d[k])
    ensure(seen.getvalue() == "", "dictionary operations print %r", seen.getvalue())


@op("md_dict", g, 250)
def md_dict(i):
    run(i, MD_dict, False)


@op("rc_param_dict", g, 250)
def rc_param_dict(i):
    run(i, RCParamDict, True)


@op("md_other", lambda rng: {"n": rng.randint(0, 5)}, 10)
def md_other(i):
    d = MD_dict()
    v = np.arange(i["n"])
    d["x.y"] = v
    ensure(isinstance(d["x.y"], md_value) and d["x.y"].value is v and d["x.y"].units is None, "array value changed: %r", d["x.y"])
    one, two = MD_dict(), MD_dict()
    one["k"] = 1
    ensure(list(two) == [], "two dictionaries share their content")


@op("verbosedict", lambda rng: {"n": rng.choice([0, 1, 5, 24, 25, 26, 60]), "k": rng.choice(["k1", "zz", 7, None])}, 30)
def verbose(i):
    d = verbosedict(("k%d" % k, k) for k in range(i["n"]))
    for k in range(i["n"]):
        ensure(d["k%d" % k] == k, "value lost")
    key = i["k"]
    if key in d:
        return
    try:
        d[key]
    except KeyError as e:
        ensure(str(key) in str(e), "message does not name the key: %s", e)
    else:
        ensure(False, "missing key accepted")
    ensure(len(d) == i["n"], "lookup changed the dictionary")
