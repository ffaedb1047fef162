"""Neighbours of a pattern against exhaustive pairwise distances."""

import numpy as np

from pointpats import PointPattern
from pv import gen
from pv.core import scenario

SCENARIOS = []
FILES = ["pointpattern.py", "geometry.py"]


def make(mon, rng, nmin=2):
    n = gen.now_and_then(rng, mon, rng.choice([2, 3, 4, 5, 8, 13, 30, 70, 120]), rng.choice([300, 1200]), 0.012)
    n = max(n, nmin)
    p = gen.points(rng, n, mon=mon)
    k = rng.random()
    if k > 0.85:
        # whole coordinates, some beyond what a short float can tell apart
        p = np.round(p * 10.0 ** rng.integers(0, 3)) + rng.choice([0, 2**24, -(2**30), 2**40])
        mon.feature("whole")
    if k < 0.15:
        mon.feature("piles of coincident events")
        p = p[rng.integers(0, max(1, n // 4), n)]
    elif k < 0.25:
        mon.feature("all coincident")
        p = np.tile(p[0], (n, 1))
    return p


def distances(a, b):
    return np.hypot(a[:, None, 0] - b[None, :, 0], a[:, None, 1] - b[None, :, 1])


def pattern(mon, rng, p):
    """the pattern, possibly with marks, names, a flip or an earlier query"""
    k = int(rng.integers(0, 4))
    if k == 0:
        pp = PointPattern(p.tolist())
    elif k == 1:
        pp = PointPattern(np.c_[p, rng.random(len(p)) * 1e6])
    elif k == 2:
        pp = PointPattern(
            np.c_[rng.random(len(p)) * 1e6, p], names=["m", "lon", "lat"], coord_names=["lon", "lat"]
        )
    elif (p == np.round(p)).all() and rng.random() < 0.7:
        mon.feature("integer columns")
        pp = PointPattern(p.astype(np.int64))
    else:
        pp = PointPattern(p)
    if rng.random() < 0.2:
        pp.add_marks([rng.random(len(p)) * 1e3])
    return pp


def judge(mon, nn, nd, d, k, where, forbid=None):
    m = len(d)
    nn, nd = np.asarray(nn), np.asarray(nd, float)
    if k == 1:
        nn, nd = nn.reshape(m, -1), nd.reshape(m, -1)
    mon.expect(nn.shape == (m, k) and nd.shape == (m, k), where + ": shape", got=(nn.shape, nd.shape), want=(m, k))
    mon.expect(((nn >= 0) & (nn < d.shape[1])).all(), where + ": known events", nn=nn)
    s = d.max() if d.size else 0
    tol = 1e-9 * s
    for i in range(m):
        mon.expect(len(set(nn[i].tolist())) == k, where + ": distinct", i=i, nn=nn[i])
        if forbid is not None:
            mon.expect(forbid[i] not in nn[i], where + ": never itself", i=i, nn=nn[i])
    rows = np.arange(m)[:, None]
    mon.close(nd, d[rows, nn], where + ": true distances", rtol=1e-9, atol=tol)
    mon.expect((np.diff(nd, axis=1) >= -tol).all(), where + ": ascending", nd=nd)
    ref = d.copy()
    if forbid is not None:
        ref[np.arange(m), forbid] = np.inf
    ref = np.sort(ref, axis=1)[:, :k]
    mon.close(nd, ref, where + ": no other is closer", rtol=1e-9, atol=tol)


@scenario(SCENARIOS, 1400, 25000)
def within(mon, rng):
    p = make(mon, rng)
    n = len(p)
    d = distances(p, p)
    pp = pattern(mon, rng, p)
    for _ in range(int(rng.integers(1, 4))):
        k = int(rng.choice([1, 1, 2, 3, n - 1, max(1, n // 2)]))
        k = max(1, min(k, n - 1))
        mon.feature(f"k={'1' if k == 1 else 'n-1' if k == n - 1 else 'mid'}")
        nn, nd = mon.call(pp.knn, k) if rng.random() < 0.8 else mon.call(pp.knn, k=k)
        judge(mon, nn, nd, d, k, "knn", np.arange(n))
        if rng.random() < 0.2:
            pp.flip_coordinates()
    ref = np.sort(np.where(np.eye(n, dtype=bool), np.inf, d), axis=1)[:, 0]
    tol = 1e-9 * d.max()
    order = rng.permutation(4)
    for o in order:
        if o == 0:
            mon.close(np.asarray(pp.nnd).ravel(), ref, "nnd", atol=tol)
        elif o == 1:
            mon.close(pp.min_nnd, ref.min(), "min_nnd", atol=tol)
        elif o == 2:
            mon.close(pp.max_nnd, ref.max(), "max_nnd", atol=tol)
        else:
            mon.close(pp.mean_nnd, ref.mean(), "mean_nnd", atol=tol)
    if k == 1 and rng.random() < 0.5:
        nn, nd = mon.call(pp.knn)
        judge(mon, nn, nd, d, 1, "knn default", np.arange(n))


@scenario(SCENARIOS, 900, 12000)
def foreign(mon, rng):
    p = make(mon, rng, 1)
    n = len(p)
    m = gen.now_and_then(rng, mon, rng.choice([1, 2, 5, 20, 70, 150]), 1500)
    kind = int(rng.integers(0, 3))
    if kind == 0:
        q = p[rng.integers(0, n, m)]
    else:
        q = p.mean(axis=0) + rng.normal(size=(m, 2)) * (gen.spread(p) + 1) * (1 if kind == 1 else 3)
    d = distances(q, p)
    pp = pattern(mon, rng, p)
    k = int(rng.choice([1, min(2, n), n, max(1, n // 2)]))
    form = int(rng.integers(0, 2))
    other = q.tolist() if form == 0 else pattern(mon, rng, q)
    mon.feature("other:list" if form == 0 else "other:pattern")
    nn, nd = mon.call(pp.knn_other, other, k=k)
    judge(mon, nn, nd, d, k, "knn_other")
    if rng.random() < 0.4:
        nn, nd = mon.call(pp.knn, 1) if n > 1 else mon.call(pp.knn_other, other)
        if n > 1:
            judge(mon, nn, nd, distances(p, p), 1, "knn after knn_other", np.arange(n))


@scenario(SCENARIOS, 700, 12000)
def pairs(mon, rng):
    p = make(mon, rng)
    if rng.random() < 0.4:
        mon.feature("limit met exactly")
        p = rng.integers(0, int(rng.integers(2, 9)), p.shape).astype(float)
        r = float(rng.choice([0, 1, 2, 5, np.sqrt(2)]))
        if r == np.sqrt(2):
            r = 1.5
    else:
        u = np.unique(distances(p, p))
        # between two distances, clear of both
        gaps = np.flatnonzero(np.diff(u) > 1e-6 * u[-1]) if u[-1] else []
        if len(gaps):
            g = int(rng.choice(gaps))
            r = float((u[g] + u[g + 1]) / 2)
        else:
            r = float(u[-1] * 1.1 + 1)
    d = distances(p, p)
    want = {(i, j) for i in range(len(p)) for j in range(i + 1, len(p)) if d[i, j] <= r}
    pp = pattern(mon, rng, p)
    got = mon.call(pp.find_pairs, r)
    mon.expect(all(len(x) == 2 for x in got), "find_pairs: pairs")
    norm = [tuple(sorted(map(int, x))) for x in got]
    mon.expect(len(norm) == len(set(norm)), "find_pairs: each pair once")
    mon.expect(set(norm) == want, "find_pairs: exactly the pairs within the radius", r=r, missing=list(want - set(norm))[:5], extra=list(set(norm) - want)[:5])
    mon.feature("some pairs" if want else "no pairs")
