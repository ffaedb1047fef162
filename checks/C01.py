"""Centres and distances against exact rational/compensated arithmetic."""

import math
from fractions import Fraction

import numpy as np
import shapely

from pointpats import centrography as cg
from pv import gen
from pv.core import scenario

SCENARIOS = []
FILES = ["centrography.py"]


def exact_mean(p):
    n = len(p)
    return np.array([float(sum(map(Fraction, col)) / n) for col in p.T.tolist()])


def exact_std(p):
    tot = Fraction(0)
    n = len(p)
    for col in p.T.tolist():
        col = [Fraction(c) for c in col]
        m = sum(col) / n
        tot += sum((c - m) ** 2 for c in col)
    return math.sqrt(tot / n)


def median(p):
    out = []
    for col in p.T.tolist():
        col = sorted(col)
        m = len(col)
        out.append(col[m // 2] if m % 2 else (col[m // 2 - 1] + col[m // 2]) / 2)
    return np.array(out)


def as_form(mon, rng, p):
    """the events in one of the accepted forms, plus how to read locations"""
    k = int(rng.integers(0, 6))
    if k == 5 and p.dtype.kind == "f":
        mon.feature("form:multipoints")
        return gen.multipoints(rng, p), lambda q: shapely.get_coordinates(q)[0]
    if k == 0:
        mon.feature("form:list")
        return p.tolist(), np.asarray
    if k == 1:
        mon.feature("form:geoseries")
        return gen.geoseries(rng, p), lambda q: shapely.get_coordinates(q)[0]
    if k == 2:
        mon.feature("form:geoframe")
        return gen.geoframe(rng, p), lambda q: shapely.get_coordinates(q)[0]
    mon.feature("form:array")
    return gen.array_layout(rng, p)[0], np.asarray


def sizes(mon, rng):
    return gen.now_and_then(rng, mon, rng.choice([1, 2, 3, 4, 5, 7, 8, 12, 25, 60, 150]), rng.integers(1000, 5000))


@scenario(SCENARIOS, 2400, 30000)
def definitions(mon, rng):
    n = sizes(mon, rng)
    p = gen.points(rng, n, mon=mon)
    if rng.random() < 0.25:
        p = np.round(p)
        if rng.random() < 0.5:
            mon.feature("dtype:int")
            p = p.astype(np.int64)
            if rng.random() < 0.5:
                # a small type, which sums and differences need not fit
                dt = (np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32)[int(rng.integers(6))]
                mon.feature("dtype:" + dt.__name__)
                p = (p % (np.iinfo(dt).max + 1)).astype(dt)
    f = p.astype(float)
    tol = dict(rtol=1e-12, atol=1e-13 * gen.mag(f))
    x, loc = as_form(mon, rng, p)
    mon.close(loc(mon.call(cg.mean_center, x)), exact_mean(f), "mean_center", **tol)

    got = loc(mon.call(cg.manhattan_median, x))
    mon.close(got, median(f), "manhattan_median", **tol)
    mon.expect(
        mon.warned_with(UserWarning, "not unique") == (n % 2 == 0),
        "manhattan_median warning: exactly for even n",
        n=n,
        warnings=[str(w.message) for w in mon.last_warnings],
    )

    w = rng.random(n) * 10 ** float(rng.integers(-3, 4)) + 1e-6
    if rng.random() < 0.3:
        w = rng.integers(1, 9, n) if rng.random() < 0.5 else rng.integers(1, 120, n).astype((np.int8, np.uint8, np.int16, np.uint32, np.float32)[int(rng.integers(5))])
    elif rng.random() < 0.2:
        w = np.ones(n) * 3.0
    elif rng.random() < 0.2:
        mon.feature("normalised weights")
        w = w / w.sum() if rng.random() < 0.5 else np.where(np.arange(n) < n // 2 * 2, np.tile([0.5, 1.5], n)[:n], 1.0)
    fw = [Fraction(float(v)) for v in w]
    want = [
        float(sum(a * Fraction(b) for a, b in zip(fw, col)) / sum(fw))
        for col in f.T.tolist()
    ]
    warg = w.tolist() if rng.random() < 0.4 else w
    got = loc(mon.call(cg.weighted_mean_center, x, warg))
    mon.close(got, want, "weighted_mean_center", rtol=1e-12, atol=(1e-12 if np.asarray(w).dtype != np.float32 else 1e-4) * gen.mag(f))

    got = mon.call(cg.std_distance, x)
    mon.expect(np.ndim(got) == 0, "std_distance: scalar", got=got)
    mon.close(got, exact_std(f), "std_distance", rtol=1e-9, atol=1e-13 * gen.mag(f))

    kind = int(rng.integers(0, 3))
    c = (f[int(rng.integers(n))], f.mean(axis=0), f.mean(axis=0) + rng.normal(size=2) * (gen.spread(f) + 1))[kind]
    want = math.fsum(math.hypot(a - c[0], b - c[1]) for a, b in f.tolist())
    if p.dtype.kind in "iu" and rng.random() < 0.5:
        c = p[int(rng.integers(n))]
        want = math.fsum(math.hypot(a - float(c[0]), b - float(c[1])) for a, b in f.tolist())
    geo = not isinstance(x, (list, np.ndarray))
    carg = shapely.Point(*c) if geo else (c.tolist() if isinstance(x, list) else c)
    got = mon.call(cg.dtot, carg, x)
    mon.close(got, want, "dtot", rtol=1e-10, atol=1e-13 * gen.mag(f) * n)


@scenario(SCENARIOS, 700, 9000)
def transformations(mon, rng):
    """shift, scale and reorder"""
    n = sizes(mon, rng)
    p = gen.points(rng, n, mon=mon)
    w = rng.random(n) + 0.1
    shift = rng.normal(size=2) * 10.0 ** rng.integers(0, 7)
    scale = float(10.0 ** rng.integers(-2, 4) * (0.5 + rng.random()))
    order = rng.permutation(n)
    q = p[order] * scale + shift
    m = 1e-11 * (gen.mag(q) + gen.mag(p) * scale)
    mon.close(mon.call(cg.mean_center, q), mon.call(cg.mean_center, p) * scale + shift, "mean_center: equivariance", atol=m)
    mon.close(mon.call(cg.manhattan_median, q), mon.call(cg.manhattan_median, p) * scale + shift, "manhattan_median: equivariance", atol=m)
    mon.close(mon.call(cg.weighted_mean_center, q, w[order]), mon.call(cg.weighted_mean_center, p, w) * scale + shift, "weighted_mean_center: equivariance", atol=m)
    mon.close(mon.call(cg.weighted_mean_center, p, w * 7.5), mon.call(cg.weighted_mean_center, p, w), "weighted_mean_center: only relative weights count", atol=1e-12 * gen.mag(p))
    mon.close(mon.call(cg.std_distance, q), mon.call(cg.std_distance, p) * scale, "std_distance: equivariance", rtol=1e-9, atol=m)
    c = p.mean(axis=0) + rng.normal(size=2) * gen.spread(p)
    mon.close(mon.call(cg.dtot, c * scale + shift, q), mon.call(cg.dtot, c, p) * scale, "dtot: equivariance", rtol=1e-9, atol=m * n)


@scenario(SCENARIOS, 100)
def coincident(mon, rng):
    """all events at one place"""
    n = sizes(mon, rng)
    c = rng.normal(size=2) * 10.0 ** rng.integers(0, 7)
    p = np.tile(c, (n, 1))
    mon.feature("coincident")
    m = 1e-12 * np.abs(c).max()
    for fn in (cg.mean_center, cg.manhattan_median):
        mon.close(mon.call(fn, p), c, fn.__name__ + ": coincident", atol=m)
    mon.close(mon.call(cg.weighted_mean_center, p, rng.random(n) + 0.1), c, "weighted_mean_center: coincident", atol=m)
    mon.close(mon.call(cg.std_distance, p), 0.0, "std_distance: coincident", atol=m)
    mon.close(mon.call(cg.dtot, c, p), 0.0, "dtot: coincident", atol=m)
