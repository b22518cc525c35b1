"""P04 runtime contracts: ring_edges"""
import numpy as np

from rt.common import A, Frozen, ensure, op, raises, require
from skbeam.core import roi


def g(rng):
    n = rng.choice([1, 1, 2, 3, 6])
    wl, sl = rng.random() < 0.5, rng.random() < 0.5
    given = rng.random() < 0.5 or not (wl or sl)
    i = {"n": n, "inner": rng.dy(0, 9), "given": given, "aslist": rng.random() < 0.5}
    i["width"] = rng.arr((n,), 0, 4) if wl else rng.dy(0, 4)
    i["spacing"] = rng.arr((n - 1,), 0, 4) if sl else rng.dy(0, 4)
    return i


def _scalar(x):
    return not isinstance(x, dict)


@op("ring_edges", g, 300)
def ring_edges(i):
    wl, sl = not _scalar(i["width"]), not _scalar(i["spacing"])
    n = i["n"]
    w = A(i["width"]) if wl else float(i["width"])
    s = A(i["spacing"]) if sl else float(i["spacing"])
    require(n >= 1 and (not wl or len(w) == n) and (not sl or len(s) == n - 1))
    given = i.get("given", not (wl or sl)) or not (wl or sl)
    if i.get("aslist"):
        w = w.tolist() if wl else w
        s = s.tolist() if sl else s
    fz = Frozen(w, s)
    e = roi.ring_edges(i["inner"], w, s, n if given else None)
    fz.check()
    ensure(e.shape == (n, 2), "shape %s", e.shape)
    pos = i["inner"]
    for k in range(n):
        wk = w[k] if wl else w
        ensure(abs(e[k, 0] - pos) <= 1e-9 * (1 + abs(pos)), "inner edge of ring %d is %s, expected %s", k, e[k, 0], pos)
        pos += wk
        ensure(abs(e[k, 1] - pos) <= 1e-9 * (1 + abs(pos)), "outer edge of ring %d is %s, expected %s", k, e[k, 1], pos)
        if k < n - 1:
            pos += s[k] if sl else s


for nm in ("edges_const", "edges_wlist", "edges_slist", "edges_both", "edges_both_n", "edges_wlist_n", "edges_slist_n"):
    op(nm, g, 0)(lambda i, nm=nm: ring_edges(dict(i, given=nm.endswith("_n"))))


def g_bad(rng):
    return {"n": rng.randint(1, 5), "m": rng.randint(0, 5), "k": rng.randint(1, 5), "mode": rng.choice(["both", "w", "s", "none"])}


@op("edges_mismatch", g_bad, 100)
def edges_mismatch(i):
    n, m, k = i["n"], i["m"], i["k"]
    mode = i.get("mode", "both")
    if mode == "both":
        require(m != n - 1 or k != n)
        a = (1.0, [1.0] * n, [1.0] * m, k)
    elif mode == "w":
        require(k != n)
        a = (1.0, [1.0] * n, 1.0, k)
    elif mode == "s":
        require(k != m + 1)
        a = (1.0, 1.0, [1.0] * m, k)
    else:
        a = (1.0, 1.0, 1.0)
    ensure(raises(ValueError, roi.ring_edges, *a) is True, "inconsistent arguments %s accepted", a)
