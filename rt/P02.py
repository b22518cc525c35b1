"""P02 runtime contracts: rectangle and box labels"""
import numpy as np

from rt.common import A, Frozen, ensure, op, require
from skbeam.core import roi


def expected(coords, shape):
    lab = np.zeros(shape, dtype=int)
    clash = False
    for k, (a, b, w, h) in enumerate(coords):
        for i in range(max(a, 0), min(a + w, shape[0])):
            for j in range(max(b, 0), min(b + h, shape[1])):
                if lab[i, j]:
                    clash = True
                lab[i, j] = k + 1
    return lab, clash


def g_rect(rng):
    n = rng.choice([0, 1, 1, 2, 2, 3, 4])
    rows, cols = rng.randint(1, 12), rng.randint(1, 12)
    big = rng.choice([3, 6, 14])
    data = []
    for _ in range(n):
        data += [rng.randint(-6, rows + 3), rng.randint(-6, cols + 3), rng.randint(0, big), rng.randint(0, big)]
    return {"n": n, "rows": rows, "cols": cols, "coords": {"shape": [n, 4], "kind": "i", "data": data}, "aslist": rng.random() < 0.5}


@op("rectangles", g_rect, 300)
def rectangles(i):
    co = A(i["coords"]).astype(np.int64).reshape(-1, 4)
    rows, cols = i["rows"], i["cols"]
    require(rows >= 1 and cols >= 1 and rows * cols < 1e4 and (len(co) == 0 or (co[:, 2:] >= 0).all()))
    ex, clash = expected(co.tolist(), (rows, cols))
    arg = [tuple(c) for c in co.tolist()] if i.get("aslist") else co
    fz = Frozen(arg)
    try:
        lab = roi.rectangles(arg, (rows, cols))
    except ValueError:
        ensure(clash, "ValueError for non-overlapping rectangles %s in %s", co.tolist(), (rows, cols))
        return
    fz.check("coords")
    ensure(not clash, "overlapping rectangles %s accepted", co.tolist())
    ensure(lab.shape == (rows, cols), "shape")
    ensure(np.array_equal(lab, ex), "labels %s, expected %s", lab.tolist(), ex.tolist())


def g_box(rng):
    rows, cols = rng.randint(1, 12), rng.randint(1, 12)

    def ed(m, hi):
        if rng.random() < 0.8:
            e = sorted(rng.randint(-3, hi + 3) for _ in range(2 * m))
            pairs = [e[2 * k:2 * k + 2] for k in range(m)]
            rng.shuffle(pairs)
        else:
            pairs = [sorted([rng.randint(-3, hi + 3), rng.randint(-3, hi + 3)]) for _ in range(m)]
        return {"shape": [m, 2], "kind": "i", "data": [x for p in pairs for x in p]}
    mh, mv = rng.randint(1, 3), rng.randint(1, 3)
    return {"mh": mh, "mv": mv, "rows": rows, "cols": cols, "h_edges": ed(mh, rows), "v_edges": ed(mv, cols), "same": rng.random() < 0.2}


@op("box", g_box, 150)
def box(i):
    v = A(i["v_edges"]).reshape(-1, 2)
    h = A(i["h_edges"]).reshape(-1, 2) if "h_edges" in i else v
    i.setdefault("same", "h_edges" not in i)
    rows, cols = i["rows"], i["cols"]
    require((h[:, 0] <= h[:, 1]).all() and (v[:, 0] <= v[:, 1]).all() and rows * cols < 1e4 and len(h) and len(v))
    if i.get("same"):
        h = v
    co = [(a[0], b[0], a[1] - a[0], b[1] - b[0]) for a in h.tolist() for b in v.tolist()]
    ex, clash = expected(co, (rows, cols))
    try:
        lab = roi.box((rows, cols), v.tolist(), None if i.get("same") else h.tolist())
    except ValueError:
        ensure(clash, "ValueError for non-overlapping boxes")
        return
    ensure(not clash, "overlapping boxes accepted")
    ensure(np.array_equal(lab, ex), "labels %s expected %s", lab.tolist(), ex.tolist())


op("box_same_edges", g_box, 0)(box)


def g_boxv(rng):
    return {"r0": rng.randint(1, 4), "c0": rng.randint(1, 4), "n": rng.randint(6, 10)}


@op("box_values", g_boxv, 2)
def box_values(i):
    n = i["n"]
    v, h = np.mgrid[:n, :n]
    v, h = v + i["r0"], h + i["c0"]
    lab = roi.box((n, n), [[5, 7]], [[5, 7]], h_values=h, v_values=v)
    ex = (5 <= v) & (v < 7) & (5 <= h) & (h < 7)
    ensure(np.array_equal(lab == 1, ex), "box labels ignore the supplied pixel coordinates")
