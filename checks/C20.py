"""Trees and the neighbour search without self against exhaustive distances."""

import builtins
import contextlib
import functools
import sys

import numpy as np
from scipy import spatial
from scipy.spatial import distance

from checks import ripley
from checks.C07 import make
from pointpats import geometry as geo
from pv import gen
from pv.core import Skip, scenario

SCENARIOS = []
FILES = ["geometry.py"]


def great_circle(a, b):
    """on a unit sphere, of latitudes and longitudes in radians"""
    la, lb = a[:, None, 0], b[None, :, 0]
    h = np.sin((la - lb) / 2) ** 2 + np.cos(la) * np.cos(lb) * np.sin((a[:, None, 1] - b[None, :, 1]) / 2) ** 2
    return 2 * np.arcsin(np.sqrt(np.clip(h, 0, 1)))


TREE = {
    **{n: ripley.euclid for n in ("euclidean", "l2", "minkowski", "p")},
    **{n: ripley.city for n in ("manhattan", "cityblock", "l1")},
    **{n: ripley.cheby for n in ("chebyshev", "infinity")},
    "canberra": lambda a, b: distance.cdist(a, b, "canberra"),
    "braycurtis": lambda a, b: distance.cdist(a, b, "braycurtis"),
    "hamming": lambda a, b: distance.cdist(a, b, "hamming"),
    "haversine": lambda a, b: great_circle(a, b),
}


def slope(a, b):
    return float(np.sqrt(((a - b) ** 2).sum()))


class Stretched:
    """a metric with a state"""

    def __init__(self, f):
        self.f = f

    def __call__(self, a, b):
        return self.f * slope(a, b)

    def plain(self, a, b):
        return slope(a, b)


def powered(p, a, b):
    return float((np.abs(a - b) ** p).sum() ** (1 / p))


CALLS = (
    (ripley.weighted_call, ripley.weighted), (slope, ripley.euclid), (lambda a, b: float(np.abs(a - b).max()), ripley.cheby),
    (functools.partial(powered, 1), ripley.city), (Stretched(2.0), lambda a, b: 2 * ripley.euclid(a, b)), (Stretched(3.0).plain, ripley.euclid), (distance.cityblock, ripley.city),
)


def judge_query(mon, tree, p, q, dist, k, what):
    d, i = mon.call(tree.query, q, k=k)
    d, i = np.asarray(d, float), np.asarray(i)
    full = dist(q, p)
    want = np.sort(full, axis=1)[:, :k]
    if k == 1 and d.ndim == 1:
        d, i = d[:, None], i[:, None]
    mon.expect(d.shape == i.shape == (len(q), k), what + ": shape", got=d.shape)
    tol = 1e-9 * want.max() + 1e-13 * gen.mag(p)
    mon.close(d, want, what + ": the smallest distances", rtol=1e-9, atol=tol)
    mon.close(np.take_along_axis(full, i, axis=1), want, what + ": events at these distances", rtol=1e-9, atol=tol)
    mon.expect(all(len(set(r)) == k for r in i), what + ": distinct events")


def queries(rng, p, m=15):
    b = np.r_[p.min(axis=0), p.max(axis=0)]
    w = np.maximum(b[2:] - b[:2], 1e-3)
    q = rng.uniform(b[:2] - w, b[2:] + w, (m, 2))
    q[:3] = p[rng.integers(0, len(p), 3)]
    return q


def events(mon, rng, name):
    p = make(mon, rng)
    if name == "haversine":
        lo, w = p.min(axis=0), max(np.ptp(p, axis=0).max(), 1e-300)
        return (p - lo) / w * [3.0, 6.0] - [1.5, 3.0]
    if name in ("canberra", "braycurtis"):
        # metrics of positive coordinates only
        p = np.abs(p) + 0.1
        if name == "braycurtis":
            raise Skip
    return p


@scenario(SCENARIOS, 500, 14000)
def by_name(mon, rng):
    names = [n for n in TREE if n != "braycurtis"]
    name = names[int(rng.integers(len(names)))]
    mon.feature("metric:" + name)
    p = events(mon, rng, name)
    if name != "haversine" and name != "canberra" and rng.random() < 0.12:
        # whole numbers, also such as short floats cannot tell apart
        mon.feature("whole numbers")
        big = int(rng.choice([10, 1000, 2**24, 2**31, -50, 150]))
        t = np.int64 if big > 2**30 or rng.random() < 0.5 else np.int32
        t = {-50: np.int8, 150: np.uint8}.get(big, t)
        p = (rng.integers(0, 60, p.shape) + big).astype(t)
    elif rng.random() < 0.05:
        p = p.astype(np.float32)
    x = (p, p.tolist(), np.asfortranarray(p))[int(rng.integers(3))]
    tree = mon.call(geo.build_best_tree, x, name)
    p = np.asarray(p, float)
    mon.expect(not mon.warned_with(UserWarning, "unacceptable performance"), "no warning for a named metric")
    mon.expect(isinstance(tree, geo.TREE_TYPES), "a tree", got=type(tree))
    q = queries(rng, p)
    if name == "haversine":
        q = np.clip(q, [-1.57, -3.1], [1.57, 3.1])
    judge_query(mon, tree, p, q, TREE[name], int(rng.integers(1, min(4, len(p)) + 1)), "tree")


@scenario(SCENARIOS, 120, 3000)
def by_function(mon, rng):
    p = make(mon, rng)
    i = int(rng.integers(len(CALLS)))
    fn, dist = CALLS[i]
    mon.feature(f"function:{i}")
    tree = mon.call(geo.build_best_tree, p, fn)
    mon.expect(mon.warned_with(UserWarning, "unacceptable performance"), "warned of the cost of a function")
    judge_query(mon, tree, p, queries(rng, p, 6), dist, int(rng.integers(1, min(4, len(p)) + 1)), "tree of a function")


def judge_neighbors(mon, got, p, dist, k, what):
    d, i = (np.asarray(x) for x in got)
    n = len(p)
    mon.expect(d.shape == i.shape == (n, k), what + ": k neighbours of each event", got=d.shape, want=(n, k))
    full = dist(p, p).astype(float)
    o = full.copy()
    np.fill_diagonal(o, np.inf)
    want = np.sort(o, axis=1)[:, :k]
    tol = 1e-9 * want.max() + 1e-13 * gen.mag(p)
    mon.expect((i != np.arange(n)[:, None]).all(), what + ": never the event itself", got=i)
    mon.expect(all(len(set(r.tolist())) == k for r in i), what + ": distinct events", got=i)
    mon.close(np.sort(d, axis=1), want, what + ": the smallest distances", rtol=1e-9, atol=tol)
    mon.close(np.take_along_axis(full, i.astype(int), axis=1), d, what + ": the distances of these events", rtol=1e-9, atol=tol)


@scenario(SCENARIOS, 700, 20000)
def neighbors(mon, rng):
    from sklearn.neighbors import BallTree, KDTree

    p = make(mon, rng)
    n = len(p)
    k = int(rng.integers(1, min(6, n - 1) + 1))
    kind = int(rng.integers(0, 6))
    name, dist = "euclidean", ripley.euclid
    kw = {}
    if kind == 0:
        tree = spatial.KDTree(p, leafsize=int(rng.choice([1, 3, 10])))
    elif kind == 1:
        tree = spatial.cKDTree(p)
    elif kind == 2:
        tree = KDTree(p, leaf_size=int(rng.choice([1, 40])))
    elif kind == 3:
        name, dist = "manhattan", ripley.city
        tree = BallTree(p, metric=name, leaf_size=int(rng.choice([1, 40])))
    elif kind == 4:
        name = ("chebyshev", "cityblock", "euclidean")[int(rng.integers(3))]
        dist = TREE[name]
        tree = mon.call(geo.build_best_tree, p, name)
    else:
        tree = spatial.KDTree(p)
        kw = dict(p=1)
        dist = ripley.city
    mon.feature(f"tree:{type(tree).__module__.split('.')[0]}.{type(tree).__name__}", "keyword passed down" if kw else "")
    judge_neighbors(mon, mon.call(geo.k_neighbors, tree, p, k, **kw), p, dist, k, "neighbours")


@contextlib.contextmanager
def without_sklearn():
    """the optional package cannot be imported"""
    real = builtins.__import__
    hidden = {m: sys.modules.pop(m) for m in list(sys.modules) if m == "sklearn" or m.startswith("sklearn.")}

    def fake(name, *args, **kwargs):
        if name == "sklearn" or name.startswith("sklearn."):
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        return real(name, *args, **kwargs)

    builtins.__import__ = fake
    try:
        yield
    finally:
        builtins.__import__ = real
        sys.modules.update(hidden)


@scenario(SCENARIOS, 160, 3500)
def without_the_optional_package(mon, rng):
    p = make(mon, rng)
    k = int(rng.integers(1, min(4, len(p) - 1) + 1))
    with without_sklearn():
        name = ("euclidean", "l2")[int(rng.integers(2))]
        tree = mon.call(geo.build_best_tree, p.tolist() if rng.random() < 0.3 else p, name)
        mon.refused(geo.build_best_tree, p, str(rng.choice(["manhattan", "cityblock", "l1", "chebyshev", "infinity", "minkowski", "p", "canberra", "hamming", "haversine", "nonsense"])))
        mon.refused(geo.build_best_tree, p, ripley.weighted_call)
    mon.expect(isinstance(tree, spatial.KDTree), "scipy's tree", got=type(tree))
    judge_query(mon, tree, p, queries(rng, p), ripley.euclid, k, "tree without the optional package")
    judge_neighbors(mon, mon.call(geo.k_neighbors, tree, p, k), p, ripley.euclid, k, "neighbours without the optional package")


@scenario(SCENARIOS, 60, 600)
def unsupported(mon, rng):
    p = make(mon, rng)
    name = ("nonsense", "Euclidean", "precomputed", "cosine", "l3")[int(rng.integers(5))]
    mon.feature("refused:" + name)
    mon.refused(geo.build_best_tree, p, name)


@scenario(SCENARIOS, 16, 240)
def many_events(mon, rng):
    """hundreds of events, any metric or function"""
    n = int(rng.choice([300, 700, 1500]))
    p = rng.random((n, 2)) * 10.0 ** rng.uniform(-2, 4) + 0.1
    i = int(rng.integers(len(CALLS) + len(TREE)))
    if i < len(CALLS):
        fn, dist = CALLS[i]
        what = f"function:{i}"
    else:
        fn, dist = list(TREE.items())[i - len(CALLS)]
        what = "metric:" + fn
    if what == "metric:haversine":
        p = p / p.max() * [3.0, 6.0] - [1.5, 3.0]
    mon.feature(what, f"events={n}")
    mon.fp(p)
    tree = mon.call(geo.build_best_tree, p, fn)
    q = p[rng.integers(0, n, 12)] + rng.normal(size=(12, 2)) * np.ptp(p) * 0.003
    q[:2] = p[:2]
    if what == "metric:haversine":
        q = np.clip(q, [-1.57, -3.1], [1.57, 3.1])
    k = int(rng.choice([1, 3, 9]))
    judge_query(mon, tree, p, np.abs(q) if what != "metric:haversine" else q, dist, k, "tree of many")
    if n < 1000:
        judge_neighbors(mon, mon.call(geo.k_neighbors, tree, p, k), p, dist, k, "neighbours of many")
