"""What the checks of the distance functions share: metrics, supports, event sets."""

import numpy as np
import shapely
from scipy.spatial import ConvexHull, KDTree

from pv import gen


def euclid(a, b):
    return np.hypot(a[:, None, 0] - b[None, :, 0], a[:, None, 1] - b[None, :, 1])


def city(a, b):
    return np.abs(a[:, None] - b[None]).sum(axis=2)


def cheby(a, b):
    return np.abs(a[:, None] - b[None]).max(axis=2)


def weighted(a, b):
    d = np.abs(a[:, None] - b[None])
    return d[..., 0] + 3 * d[..., 1]


def weighted_call(a, b):
    return abs(a[0] - b[0]) + 3 * abs(a[1] - b[1])


TREE_METRICS = [
    ("euclidean", euclid), ("l2", euclid), ("manhattan", city), ("cityblock", city), ("l1", city), ("chebyshev", cheby), ("infinity", cheby),
]
PAIR_METRICS = [("euclidean", euclid), ("cityblock", city), ("chebyshev", cheby), (weighted_call, weighted)]


def tree_metric(mon, rng, call=0.1, plain=0.5):
    u = rng.random()
    if u < plain:
        m = TREE_METRICS[0]
    elif u < plain + call:
        m = (weighted_call, weighted)
    else:
        m = TREE_METRICS[int(rng.integers(1, len(TREE_METRICS)))]
    mon.feature(f"metric:{getattr(m[0], '__name__', m[0])}")
    return m


def nearest_other(p, dist):
    d = dist(p, p).astype(float)
    np.fill_diagonal(d, np.inf)
    return d.min(axis=1)


def events(mon, rng, nmin=2, nmax=60):
    n = max(nmin, gen.now_and_then(rng, mon, rng.choice([2, 3, 5, 10, 25, nmax]), 500, 0.01))
    p = gen.points(rng, n, mon=mon)
    if rng.random() < 0.1:
        mon.feature("piles of coincident events")
        p = p[rng.integers(0, max(2, n // 3), n)]
    elif n >= 10 and rng.random() < 0.15:
        mon.feature("one coincident pair")
        p[int(rng.integers(1, n))] = p[0]
    return p


def support(mon, rng, scale, largest, kinds=(0, 1, 2, 3, 4, 5)):
    """the argument, the values it asks for; scale: a typical distance"""
    k = int(rng.choice(kinds))
    mon.feature("support:" + ("default", "steps", "(stop,)", "(start, stop)", "(start, stop, steps)", "values")[k])
    top = scale * (0.2 + 2 * rng.random())
    low = top * rng.choice([0, 0.1, 0.5])
    m = int(rng.choice([1, 2, 3, 7, 20, 50])) if rng.random() < 0.97 else int(rng.choice([150, 1000]))
    if k == 0:
        return None, np.linspace(0, largest, 20)
    if k == 1:
        return m, np.linspace(0, largest, m)
    if k == 2:
        return (top,), np.linspace(0, top, 20)
    if k == 3:
        return (low, top), np.linspace(low, top, 20)
    if k == 4:
        return (low, top, m), np.linspace(low, top, m)
    v = np.sort(rng.uniform(0, top, m))
    if m > 2 and rng.random() < 0.2:
        mon.feature("support:repeated values")
        v = np.sort(v[rng.integers(0, m, m)])
    if rng.random() < 0.3:
        mon.feature("support:list")
        return v.tolist(), v
    return v, v


def study_area(mon, rng, p):
    """a hull argument and the polygon meant by it"""
    b = np.r_[p.min(axis=0), p.max(axis=0)]
    w = b[2:] - b[:2]
    k = int(rng.integers(0, 6))
    if (w <= 0).any() or not gen.noncollinear(p, 1e-2):
        k = 3
        w = np.maximum(w, 0.3 * max(w.max(), 1.0))
    mon.feature("hull:" + ("default", "bbox", "convex", "box", "polygon", "ConvexHull")[k])
    if k == 0:
        return None, shapely.box(*b)
    if k == 1:
        return "bbox", shapely.box(*b)
    if k in (2, 5):
        h = ConvexHull(p - p.mean(axis=0))
        g = shapely.Polygon(p[h.vertices])
        return ("convex" if k == 2 else ConvexHull(p)), g
    if k == 3:
        a = w * rng.uniform(0, 0.5, 2)
        box = np.r_[b[:2] - a, b[2:] + a[::-1]]
        return box, shapely.box(*box)
    c = (b[:2] + b[2:]) / 2
    r = float(w.max())
    g = gen.star_polygon(rng, None, c, r) if rng.random() < 0.5 else gen.multipolygon(rng, c, r)
    return g, g


def tree_of(p):
    return KDTree(p)
