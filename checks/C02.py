"""The returned location's total distance against competitors and a Weiszfeld solver."""

import numpy as np
import shapely

from pointpats import centrography as cg
from pv import gen
from pv.core import scenario

SCENARIOS = []
FILES = ["centrography.py"]
ASSUMPTIONS = [
    "the solver's own accuracy: a total distance within a relative 1e-4 (plus 1e-6 of the spread per event) of the optimum counts as minimal",
]


def total(c, p):
    return float(np.hypot(p[:, 0] - c[0], p[:, 1] - c[1]).sum())


def weiszfeld(p):
    """geometric median of (centred) points, with the vertex step of Vardi-Zhang"""
    if gen.spread(p) == 0:
        return 0.0, tuple(p[0])
    y = np.median(p, axis=0) + 1e-9 * gen.spread(p)
    best = min((total(q, p), tuple(q)) for q in p)
    for _ in range(2000):
        d = np.hypot(*(p - y).T)
        at = d < 1e-14 * gen.spread(p)
        if at.all():
            break
        w = 1 / d[~at]
        t = (p[~at] * w[:, None]).sum(axis=0) / w.sum()
        if at.any():
            r = ((p[~at] - y) * w[:, None]).sum(axis=0)
            rn = np.hypot(*r)
            eta = at.sum()
            if rn <= eta:
                break
            t = (1 - eta / rn) * t + eta / rn * y
        if np.abs(t - y).max() < 1e-14 * gen.spread(p):
            y = t
            break
        y = t
    return min(best, (total(y, p), tuple(y)))


@scenario(SCENARIOS, 1000, 12000)
def optimal(mon, rng):
    n = gen.now_and_then(rng, mon, rng.choice([1, 2, 3, 4, 5, 6, 9, 15, 30, 60]), 1501)
    kinds = gen.KINDS
    p = gen.points(rng, n, kinds, mon=mon)
    k = rng.random()
    if k < 0.1:
        mon.feature("collinear")
        p = p.mean(axis=0) + np.outer(np.round(rng.normal(size=n), 3), rng.normal(size=2)) * (gen.spread(p) + 1)
    elif k < 0.2 and n >= 3:
        mon.feature("median at an event")
        p[: n // 2 + 1] = p[0]
    elif k < 0.3 and n >= 3:
        mon.feature("mean at an event")
        p[0] = p[1:].mean(axis=0)
    if mon.index % 25 == 9:
        # skewed, and tiny against the coordinates
        mon.feature("far away")
        p = rng.integers(-4, 5, 2) * 1e6 + 3e5 + rng.exponential(size=(n, 2)) ** 2 * 10.0 ** rng.uniform(-4, -1)
    elif rng.random() < 0.15:
        p = np.round(p).astype(int)
        mon.feature("dtype:int")
    f = p.astype(float)
    form = int(rng.integers(0, 4))
    x = (p, p.tolist(), gen.geoseries(rng, f), gen.geoframe(rng, f))[form]
    got = mon.call(cg.euclidean_median, x)
    if form >= 2:
        mon.expect(isinstance(got, shapely.Point), "a point geometry", got=got)
        got = shapely.get_coordinates(got)[0]
    got = np.asarray(got, float)
    mon.expect(got.shape == (2,) and np.isfinite(got).all(), "finite location", got=got)
    o = f.mean(axis=0)
    q = f - o
    s = gen.spread(q)
    tol = 1e-4
    slack = 1e-6 * s * n + 1e-12 * gen.mag(f) * n
    mine = total(got - o, q)
    best, at = weiszfeld(q)
    mon.expect(mine <= best * (1 + tol) + slack, "independent optimum", mine=mine, best=best, at=np.array(at) + o, got=got)
    for name, c in (("mean", np.zeros(2)), ("coordinate-wise median", np.median(q, axis=0))):
        mon.expect(mine <= total(c, q) * (1 + tol) + slack, "not undercut: " + name, mine=mine, other=total(c, q))
    worst = min(total(c, q) for c in q)
    mon.expect(mine <= worst * (1 + tol) + slack, "not undercut: event", mine=mine, other=worst)
    m = 1e-3 * s + 1e-9 * gen.mag(f)
    inside = (got >= f.min(axis=0) - m).all() and (got <= f.max(axis=0) + m).all()
    mon.expect(inside, "inside the bounding box", got=got, lo=f.min(axis=0), hi=f.max(axis=0))


@scenario(SCENARIOS, 200, 2000)
def moves_along(mon, rng):
    n = int(rng.integers(3, 30))
    p = gen.points(rng, n, ("uniform", "normal", "clusters"), transform=False, mon=mon)
    if not gen.noncollinear(p, 0.05):
        p = rng.normal(size=(n, 2))
    shift = rng.normal(size=2) * 10.0 ** rng.integers(0, 6)
    a = np.asarray(mon.call(cg.euclidean_median, p))
    b = np.asarray(mon.call(cg.euclidean_median, p + shift)) - shift
    s = gen.spread(p)
    # locations may differ where the objective is flat, objectives may not
    ta, tb = total(a, p), total(b, p)
    mon.close(tb, ta, "shifted events: same total distance", rtol=2e-4, atol=2e-6 * s * n)
