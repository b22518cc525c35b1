"""P15 runtime contracts: lag schedules"""
import numpy as np

from rt.common import ensure, op, raises, require
from skbeam.core import utils


def g(rng):
    return {"levels": rng.randint(1, 9), "half": rng.randint(1, 12)}


@op("multi_tau_lags", g, 100)
def multi_tau_lags(i):
    L, h = i.get("levels", 8), i["half"]
    require(1 <= L <= 20 and 1 <= h <= 50)
    tot, lags, d = utils.multi_tau_lags(L, 2 * h)
    want = list(range(2 * h)) + [(h + j) * 2 ** (lv - 1) for lv in range(2, L + 1) for j in range(h)]
    ensure(tot == (L + 1) * h and len(lags) == tot, "total %s, %d lags", tot, len(lags))
    ensure([int(x) for x in lags] == want and np.all(np.asarray(lags) == np.asarray(want)), "lags %s", lags)
    ensure(set(d) == set(range(1, L + 1)), "levels %s", list(d))
    ensure([int(x) for x in d[1]] == want[:2 * h], "level 1 %s", d[1])
    for lv in range(2, L + 1):
        ensure([int(x) for x in d[lv]] == [(h + j) * 2 ** (lv - 1) for j in range(h)], "level %d %s", lv, d[lv])


@op("multi_tau_lags_odd", g, 30)
def multi_tau_lags_odd(i):
    ensure(raises(ValueError, utils.multi_tau_lags, i["levels"], 2 * i["half"] + 1) is True, "odd channel number accepted")


def gg(rng):
    return {"ratio": rng.choice([2, 2, 3, 4, 5, 10, 1.5]), "limit": rng.choice([1, 2, 3, 4, 8, 9, 16, 27, 64, 100, rng.randint(1, 5000)]), "first": rng.choice([1, 1, 2, 3, 5, 0.5])}


@op("geometric_series", gg, 150)
def geometric_series(i):
    r, n, a = i["ratio"], i["limit"], i["first"]
    require(r > 1 and a > 0)
    want = [a]
    while want[-1] * r < n:
        want.append(want[-1] * r)
    s = utils.geometric_series(r, n, a)
    ensure(list(s) == want, "series %s expected %s", s, want)
    if a == 1:
        ensure(list(utils.geometric_series(r, n)) == want, "default first term")
