"""P23 runtime contracts: powder pattern files (all files in a scratch directory removed afterwards)"""
import os
import tempfile

import numpy as np

from rt.common import A, Frozen, ensure, eqv, op, raises, require
from skbeam.io.gsas_file_reader import gsas_reader
from skbeam.io.save_powder_output import gsas_writer, save_output


def go(rng):
    n = rng.randint(1, 25)
    return {"x": [rng.uniform(-3, 90) for _ in range(n)], "y": [rng.choice([0.0, rng.uniform(-5, 1e6), rng.uniform(0, 1e-6)]) for _ in range(n)],
            "e": None if rng.random() < .4 else [rng.uniform(0, 99) for _ in range(n)], "ext": rng.choice([".chi", ".chi", ".dat", ".xye", None]),
            "kind": rng.choice(["Q", "2theta"]), "name": rng.choice(["run1", "a.b", "x_y-2", "sample.v2"]), "again": rng.random() < .3}


class Dir:
    def __enter__(self):
        self.t = tempfile.TemporaryDirectory(prefix="verif-io-")
        self.old = os.getcwd()
        return self.t.name

    def __exit__(self, *a):
        os.chdir(self.old)
        self.t.cleanup()


@op("save_output", go, 120)
def check_save(i):
    x, y = A(i["x"]), A(i["y"])
    e = None if i["e"] is None else A(i["e"])
    kw = {} if i["ext"] is None else {"ext": i["ext"]}
    ext = i["ext"] or ".chi"
    with Dir() as d:
        if ext == ".xye" and e is None:
            ensure(raises(ValueError, save_output, x, y, i["name"], i["kind"], err=None, dir_path=d, **kw) is True, "xye without errors accepted")
            ensure(os.listdir(d) == [], "rejected call wrote a file")
            return
        fz = Frozen(x, y, *([] if e is None else [e]))
        for rep in range(2 if i["again"] else 1):
            if rep == 0 and i["again"]:
                save_output(x[:1], y[:1], i["name"], i["kind"], err=None if e is None else e[:1], dir_path=d, **kw)
                continue
            save_output(x, y, i["name"], i["kind"], err=e, dir_path=d, **kw)
        fz.check()
        ensure(os.listdir(d) == [i["name"] + ext], "files written: %s", os.listdir(d))
        lines = open(os.path.join(d, i["name"] + ext)).read().split("\n")
    rows = []
    for k, ln in enumerate(lines):
        try:
            v = [float(t) for t in ln.split()]
        except ValueError:
            continue
        if len(v) == (2 if e is None else 3):
            rows.append((k, v))
    ensure(len(rows) == len(x), "%d data rows, expected %d", len(rows), len(x))
    got = np.array([v for _, v in rows])
    want = np.column_stack([x, y] + ([] if e is None else [e]))
    ensure(np.array_equal(got, want), "columns read back differ: %s", np.abs(got - want).max())
    head = "\n".join(lines[:rows[0][0]])
    ensure(str(len(x)) in head and i["name"] in head, "header")
    ensure(("Q values" in head) == (i["kind"] == "Q") and ("two theta" in head) == (i["kind"] == "2theta"), "header names the x column")


@op("save_output_cwd", lambda rng: {"mode": rng.choice(["chi", "gsas"])}, 3)
def save_output_cwd(i):
    """no directory given: current directory"""
    with Dir() as d:
        os.chdir(d)
        if i["mode"] == "chi":
            save_output(np.arange(3.), np.arange(3.), "here", "Q")
        else:
            gsas_writer(np.arange(3.), np.arange(3.), "here")
        ensure(os.listdir(d) == ["here" + (".chi" if i["mode"] == "chi" else ".gsas")], "file %s", os.listdir(d))


@op("rejects", lambda rng: {"n": rng.randint(2, 6), "m": rng.randint(2, 6)}, 15)
def rejects(i):
    a, b = np.arange(float(i["n"])), np.arange(float(i["m"]))
    require(len(a) != len(b))
    with Dir() as d:
        ensure(raises(ValueError, save_output, a, b, "f", "Q", dir_path=d) is True, "mismatched lengths accepted")
        ensure(raises(ValueError, save_output, a, a, "f", "Q", err=b, dir_path=d) is True, "mismatched errors accepted")
        ensure(raises(ValueError, save_output, a, a, "f", "twotheta", dir_path=d) is True, "unknown x kind accepted")
        ensure(raises(ValueError, save_output, a, a, "f", "Q", dir_path=os.path.join(d, "nowhere")) is True, "missing directory accepted")
        ensure(raises(ValueError, gsas_writer, a, b, "f", dir_path=d) is True, "mismatched lengths accepted by the GSAS writer")
        ensure(raises(ValueError, gsas_writer, a, a, "f", mode="ESD", err=b, dir_path=d) is True, "mismatched errors accepted by the GSAS writer")
        ensure(raises(ValueError, gsas_writer, a, a, "f", mode="XYZ", err=a, dir_path=d) is True, "unknown GSAS mode accepted")
        ensure(os.listdir(d) == [], "a rejected call left a file: %s", os.listdir(d))
        p = os.path.join(d, "x.dat")
        open(p, "w").write("a\nb\n")
        ensure(raises(IOError, gsas_reader, p) is True, "extension other than .gsas accepted")
        p = os.path.join(d, "x.gsas")
        open(p, "w").write("t\nBANK 1 2 2 CONST 0.0 1.0 0.0 0.0 ODD\n")
        ensure(raises(ValueError, gsas_reader, p) is True, "unknown mode in a file accepted")


def gg(rng):
    n = rng.randint(2, 33)
    big = rng.choice([50, 9e5, 5e6, 3e9])
    return {"n": n, "x0": rng.dy(0, 40, 4), "dx": rng.dy(.125, 2, 8), "y": [rng.choice([0.0, rng.uniform(0, big), float(rng.randint(0, int(big)))]) for _ in range(n)],
            "e": [rng.uniform(1, 300) for _ in range(n)], "mode": rng.choice(["STD", "ESD", "FXYE", None, "ESD", "FXYE"]), "name": rng.choice(["run", "s.1", "long_name_" * 9])}


@op("gsas", gg, 150)
def gsas(i):
    n = i["n"]
    x = i["x0"] + i["dx"] * np.arange(n)
    y, e = A(i["y"]), A(i["e"])
    require(y.max() > 0)
    mode = i["mode"]
    err = None if mode is None else e
    fz = Frozen(x, y, e)
    with Dir() as d:
        gsas_writer(x, y, i["name"], mode=mode, err=err, dir_path=d)
        fz.check()
        ensure(os.listdir(d) == [i["name"] + ".gsas"], "file %s", os.listdir(d))
        p = os.path.join(d, i["name"] + ".gsas")
        raw = open(p, newline="").read()
        tt, yy, ee = gsas_reader(p)
    ensure(all(len(ln) == 80 for ln in raw.split("\r\n")[:-1]), "record length")
    # intensities above 999999 are scaled down by the power of ten that makes them fit
    scale = 1.0
    while y.max() * scale > 999999:
        scale /= 10
    ensure(len(tt) == len(yy) == len(ee) == n, "%d values read back, expected %d", len(tt), n)
    eqv(tt, x, "two theta", 1e-7, 1e-6)
    if mode == "FXYE":
        eqv(yy, y * scale, "intensity", 1e-9, 1e-9)
        eqv(ee, 1 / (e * scale) ** 2, "error", 1e-5)
        return
    ys = np.round(y * scale)
    ensure(np.abs(yy - y * scale).max() <= .5 + 1e-6, "intensity off by %s", np.abs(yy - y * scale).max())
    if mode == "ESD":
        es = np.round(e * scale)
        ok = np.abs(e * scale - np.floor(e * scale) - .5) > 1e-6
        eqv(ee[ok], np.where(es > 0, 1 / np.maximum(es, 1) ** 2, 0)[ok], "error")
    else:
        eqv(ee, np.where(yy > 0, 1 / np.maximum(yy, 1), 0), "error")
    ensure(np.array_equal(yy, np.round(yy)), "intensity not printed as an integer")


@op("fit2d_mask", lambda rng: {"m": rng.arr((rng.randint(1, 40), rng.randint(1, 40)), kind="b")}, 10)
def fit2d_mask(i):
    from rt.common import A
    try:
        from skbeam.io.fit2d import fit2d_save, read_fit2d_msk
    except ImportError:
        require(False)
    m = A(i["m"])
    fz = Frozen(m)
    with Dir() as d:
        fit2d_save(m, "mask", dir_path=d)
        fz.check()
        ensure(os.listdir(d) == ["mask.msk"], "file %s", os.listdir(d))
        ensure(np.array_equal(read_fit2d_msk(os.path.join(d, "mask.msk")), m), "mask read back differs")


@op("read_binary", lambda rng: {"a": rng.arr((rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 4))), "h": rng.randint(0, 20), "dt": rng.choice(["<f8", "<i4", "<f4", ">f4", "<u2"])}, 20)
def check_binary(i):
    from rt.common import A
    from skbeam.io.binary import read_binary
    a = np.abs(A(i["a"])).astype(i["dt"])
    if a.shape[1] == 1 and a.shape[2] != 1:
        pass
    head = bytes(range(65, 65 + i["h"]))
    with Dir() as d:
        p = os.path.join(d, "f.bin")
        with open(p, "wb") as f:
            f.write(head + a.tobytes())
        data, h = read_binary(p, a.shape[0], a.shape[1], a.shape[2], i["dt"], i["h"])
    ensure(h == head, "header bytes %s", h)
    want = a if a.shape[2] != 1 else a[:, :, 0] if a.shape[1] != 1 else a[:, 0, 0]
    ensure(data.dtype == want.dtype and np.array_equal(data, want), "data differ")
