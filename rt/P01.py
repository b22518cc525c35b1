"""P01 runtime contracts: ring and bar labels"""
import numpy as np

from rt.common import A, E, Bad, Frozen, ensure, op, raises, require

from skbeam.core import roi, utils


def expected(vals, edges):
    out = np.zeros(vals.shape, dtype=int)
    for k in range(len(edges) // 2):
        out[(edges[2 * k] <= vals) & (vals < edges[2 * k + 1])] = k + 1
    return out


def g_edges(rng, m, lo=-1, hi=14):
    e = sorted(rng.dy(lo, hi) for _ in range(2 * m))
    return {"shape": [2 * m], "kind": "f", "data": e}


def g_rings(rng):
    m = rng.choice([1, 1, 2, 3, 5])
    rows, cols = rng.randint(1, 14), rng.randint(1, 14)
    i = {"m": m, "rows": rows, "cols": cols, "cx": rng.dy(-4, 16), "cy": rng.dy(-4, 16), "edges": g_edges(rng, m, 0)}
    if rng.random() < 0.4:   # radii that hit pixels exactly
        i["cx"], i["cy"] = float(rng.randint(-2, 12)), float(rng.randint(-2, 12))
        i["edges"]["data"] = sorted(float(rng.randint(0, 12)) for _ in range(2 * m))
    i["twod"] = rng.random() < 0.5
    return i


@op("rings", g_rings, 120)
def rings(i):
    e = A(i["edges"])
    require(len(e) % 2 == 0 and len(e) > 0 and np.all(np.diff(e) >= 0))
    rows, cols = i["rows"], i["cols"]
    require(rows * cols < 1e6)
    ee = e.reshape(-1, 2) if i.get("twod") else e
    fz = Frozen(ee)
    lab = roi.rings(ee, (i["cx"], i["cy"]), (rows, cols))
    fz.check("edges")
    ensure(lab.shape == (rows, cols), "shape %s", lab.shape)
    ensure(lab.dtype.kind in "iu", "dtype")
    x, y = np.meshgrid(np.arange(rows), np.arange(cols), indexing="ij")
    d2 = (x - i["cx"]) ** 2 + (y - i["cy"]) ** 2
    d = np.sqrt(d2)
    amb = np.zeros(d.shape, bool)
    for v in e:
        amb |= (np.abs(d - v) < 1e-12 * (1 + d)) & (np.round(d) != d)
    ex = expected(d, e)
    bad = (lab != ex) & ~amb
    ensure(not bad.any(), "pixel %s at distance %s labelled %s, expected %s", np.argwhere(bad)[:1], d[bad][:1], lab[bad][:1], ex[bad][:1])


def g_rg(rng):
    return {"rows": rng.randint(1, 12), "cols": rng.randint(1, 12), "cx": rng.dy(-4, 16), "cy": rng.dy(-4, 16),
            "px": rng.dy(0.25, 3), "py": rng.dy(0.25, 3)}


@op("radial_grid", g_rg, 60)
def radial_grid(i):
    require(i["px"] > 0 and i["py"] > 0 and i["rows"] * i["cols"] < 1e6)
    g = utils.radial_grid((i["cx"], i["cy"]), (i["rows"], i["cols"]), (i["px"], i["py"]))
    ensure(g.shape == (i["rows"], i["cols"]), "shape %s", g.shape)
    x, y = np.meshgrid(np.arange(i["rows"]), np.arange(i["cols"]), indexing="ij")
    ex = np.hypot(i["px"] * (x - i["cx"]), i["py"] * (y - i["cy"]))
    ensure(np.allclose(g, ex, rtol=1e-9, atol=1e-12), "distance differs")


def g_bar(rng):
    m = rng.choice([1, 2, 3])
    return {"m": m, "rows": rng.randint(1, 12), "cols": rng.randint(1, 12), "edges": g_edges(rng, m, 0, 12),
            "horizontal": rng.random() < 0.5}


@op("bar", g_bar, 80)
def bar(i):
    e = A(i["edges"])
    require(len(e) % 2 == 0 and len(e) > 0 and np.all(np.diff(e) >= 0))
    rows, cols = i["rows"], i["cols"]
    require(rows * cols < 1e6)
    lab = roi.bar(e, (rows, cols), horizontal=bool(i["horizontal"]))
    ensure(lab.shape == (rows, cols), "shape %s", lab.shape)
    r, c = np.meshgrid(np.arange(rows), np.arange(cols), indexing="ij")
    ex = expected(r if i["horizontal"] else c, e)
    ensure(np.array_equal(lab, ex), "labels differ: %s expected %s", lab.tolist(), ex.tolist())


def g_barv(rng):
    i = g_bar(rng)
    i["values"] = rng.arr((i["rows"], i["cols"]), -1, 13)
    return i


@op("bar_values", g_barv, 60)
def bar_values(i):
    e, v = A(i["edges"]), A(i["values"])
    require(len(e) % 2 == 0 and len(e) > 0 and np.all(np.diff(e) >= 0))
    fz = Frozen(v, e)
    lab = roi.bar(e, v.shape, horizontal=bool(i["horizontal"]), values=v.ravel())
    fz.check()
    ensure(np.array_equal(lab, expected(v, e)), "labels ignore the supplied pixel values")


def g_bad(rng):
    return {"edges": {"shape": [k], "kind": "f", "data": [rng.dy(0, 9) for _ in range(k)]} if (k := rng.randint(2, 6)) else None,
            "which": rng.choice(["rings", "bar"])}


@op("bad_edges", g_bad, 60)
def bad_edges(i):
    e = A(i["edges"])
    require(len(e) % 2 == 1 or np.any(np.diff(e) < 0))
    r = raises(ValueError, roi.rings, e, (3, 3), (6, 6)) if i["which"] == "rings" else raises(ValueError, roi.bar, e, (6, 6))
    ensure(r is True, "%s accepted invalid edges %s (%s)", i["which"], e.tolist(), r)
