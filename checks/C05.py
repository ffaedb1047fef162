"""The smallest enclosing circle against an exhaustive search, with and without numba."""

import contextlib
import importlib.util
import os
import sys
from itertools import combinations

import numpy as np
import shapely

from pointpats import centrography as cg
from pv import gen
from pv.core import REPO, scenario

SCENARIOS = []
FILES = ["centrography.py"]
ASSUMPTIONS = [
    "events are not nearly collinear: the ratio of their principal spreads exceeds 1e-6",
]
ALT = None


@contextlib.contextmanager
def no_numba():
    saved = sys.modules.get("numba", False)
    sys.modules["numba"] = None
    try:
        yield
    finally:
        if saved is False:
            del sys.modules["numba"]
        else:
            sys.modules["numba"] = saved


def prepare():
    """compile once, before the workers start; load a copy that never saw numba"""
    global ALT
    p = np.array([[0.0, 0], [1, 0], [0, 1], [2, 2]])
    cg.minimum_bounding_circle(p)
    with no_numba():
        path = os.path.join(REPO, "pointpats", "centrography.py")
        spec = importlib.util.spec_from_file_location("pointpats._pv_no_numba", path)
        ALT = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(ALT)


def smallest(p):
    """radius and centre by pairs and triples of hull vertices"""
    o = p.mean(axis=0)
    q = p - o
    s = np.abs(q).max()
    q = q / s
    try:
        from scipy.spatial import ConvexHull

        v = q[ConvexHull(q).vertices]
    except Exception:  # noqa: BLE001
        v = np.unique(q, axis=0)
    n = len(v)
    best = (np.inf, None)
    ij = np.array(list(combinations(range(n), 2)))
    c = (v[ij[:, 0]] + v[ij[:, 1]]) / 2
    c = [c]
    if n >= 3:
        t = np.array(list(combinations(range(n), 3)))
        a, b, d = v[t[:, 0]], v[t[:, 1]], v[t[:, 2]]
        b, d = b - a, d - a
        den = 2 * (b[:, 0] * d[:, 1] - b[:, 1] * d[:, 0])
        with np.errstate(all="ignore"):
            bb, dd = (b**2).sum(axis=1), (d**2).sum(axis=1)
            ux = (d[:, 1] * bb - b[:, 1] * dd) / den
            uy = (b[:, 0] * dd - d[:, 0] * bb) / den
        k = np.c_[ux, uy] + a
        c.append(k[np.isfinite(k).all(axis=1)])
    c = np.concatenate(c)
    for lo in range(0, len(c), 20000):
        cc = c[lo : lo + 20000]
        r = np.sqrt(((cc[:, None, :] - v[None]) ** 2).sum(axis=2).max(axis=1))
        m = int(r.argmin())
        if r[m] < best[0]:
            best = (float(r[m]), cc[m])
    return best[0] * s, best[1] * s + o


def make(mon, rng, many=400):
    n = gen.now_and_then(rng, mon, rng.choice([3, 4, 5, 6, 7, 9, 12, 25, 60]), many, 0.02)
    k = int(rng.integers(0, 11))
    if k <= 1:
        p = gen.points(rng, n, mon=mon)
    elif k == 2:
        mon.feature("obtuse triangle")
        w = float(rng.random() * 10 + 1)
        p = np.array([[0, 0], [w, 0], [w * rng.uniform(0.2, 0.8), w * rng.uniform(0.02, 0.4)]])
    elif k == 3:
        mon.feature("cocircular")
        t = rng.random(n) * 2 * np.pi
        if rng.random() < 0.5:
            m = int(rng.integers(3, 25))
            t = np.arange(m) * 2 * np.pi / m
            if rng.random() < 0.3:
                t = t[t <= np.pi + 1e-9] if m > 4 else t
        p = np.c_[np.cos(t), np.sin(t)] * rng.integers(1, 10)
    elif k == 4:
        mon.feature("integer lattice")
        m = int(rng.integers(2, 9))
        p = rng.integers(0, m, (n, 2)).astype(float)
    elif k == 5:
        mon.feature("regular lattice")
        a, b = rng.integers(2, 6, 2)
        p = np.array([(i, j) for i in range(a) for j in range(b)], float)
    elif k == 6:
        mon.feature("needle")
        p = rng.normal(size=(n, 2)) * [1, 10.0 ** rng.integers(-7, 0)]
    elif k == 7:
        mon.feature("nearly cocircular")
        t = rng.random(max(n, 4)) * 2 * np.pi
        p = np.c_[np.cos(t), np.sin(t)] * (1 - rng.random((len(t), 1)) * 10.0 ** -rng.integers(1, 9))
    elif k == 8:
        # groups of events close together along a circle: nearly straight corners
        mon.feature("tight arcs")
        m = int(rng.integers(2, 6))
        t = np.concatenate([rng.random() * 2 * np.pi + rng.normal(size=int(rng.integers(1, 6))) * 10.0 ** -rng.uniform(1, 4) for _ in range(m)])
        if len(t) < 3:
            t = np.r_[t, rng.random(2) * 2 * np.pi]
        p = np.c_[np.cos(t), np.sin(t)]
        if rng.random() < 0.5:
            p *= 1 - rng.random((len(t), 1)) * 10.0 ** -rng.integers(2, 9)
    elif k == 9:
        # the events that carry the circle sit at nearly straight corners of the hull
        mon.feature("blunt supports")
        t = np.arange(3) * 2 * np.pi / 3 + rng.uniform(-0.4, 0.4, 3) if rng.random() < 0.6 else np.array([0, np.pi])
        h, turn = 10.0 ** -rng.uniform(0.5, 4), 10.0 ** -rng.uniform(1, 4.7)
        c = np.c_[np.cos(t), np.sin(t)]
        o = np.c_[-c[:, 1], c[:, 0]]
        p = np.r_[c, c + h * o - c * h * turn / 2, c - h * o - c * h * turn / 2]
    else:
        mon.feature("right triangles")
        a, b = rng.integers(1, 10, 2)
        p = np.array([[0, 0], [a, 0], [0, b], [a / 2, b / 2]], float)
        p = p[: int(rng.integers(3, 5))]
    if k >= 2:
        if rng.random() < 0.4:
            p = p + rng.integers(-10, 10, 2) * 10.0 ** rng.integers(0, 6)
            mon.feature("far from the origin")
        if rng.random() < 0.3:
            a = rng.random() * np.pi
            p = p @ np.array([[np.cos(a), np.sin(a)], [-np.sin(a), np.cos(a)]])
    p = p[rng.permutation(len(p))]
    if rng.random() < 0.08:
        mon.feature("tiny or huge")
        p = (p - p.mean(axis=0)) * 10.0 ** float(rng.choice([-8, -6, -4, 5, 8]))
    if not gen.noncollinear(p, 1e-6):
        p = rng.normal(size=(n, 2))
    if len(p) > 80:
        v = shapely.MultiPoint(p).convex_hull.exterior.coords[:-1]
        if len(v) > 70:
            # (the oracle looks at every triple of the hull's vertices)
            p = p[:70]
    if (p == np.round(p)).all() and rng.random() < 0.6:
        mon.feature("dtype:int")
        p = p.astype(int)
    return p


def judge(mon, got, f, where):
    mon.expect(len(got) == 2 and len(got[0]) == 2, where + ": centre and radius", got=got)
    c, r = np.asarray(got[0], float), float(got[1])
    best, at = smallest(f)
    e = 1e-6 * best + 1e-12 * gen.mag(f)
    far = np.hypot(*(f - c).T).max()
    mon.expect(np.isfinite(r) and far <= r + e, where + ": contains every event", far=far, r=r, centre=c)
    mon.expect(r <= best + e, where + ": smallest", r=r, best=best, centre=c, want_centre=at)
    mon.expect(r >= best - e, where + ": radius", r=r, best=best)


@scenario(SCENARIOS, 900, 30000)
def compiled(mon, rng):
    p = make(mon, rng)
    f = p.astype(float)
    x = p.tolist() if rng.random() < 0.2 else gen.array_layout(rng, p)[0]
    judge(mon, mon.call(cg.minimum_bounding_circle, x), f, "circle")


@scenario(SCENARIOS, 600, 20000)
def interpreted(mon, rng):
    """as if numba were not installed"""
    p = make(mon, rng, 70)
    f = p.astype(float)
    x = p.tolist() if rng.random() < 0.2 else gen.array_layout(rng, p)[0]
    with no_numba():
        got = mon.call(ALT.minimum_bounding_circle, x)
    judge(mon, got, f, "circle without numba")


@scenario(SCENARIOS, 200, 6000)
def geospatial(mon, rng):
    f = make(mon, rng).astype(float)
    x = gen.geoseries(rng, f) if rng.random() < 0.5 else gen.geoframe(rng, f)
    kw = {}
    segs = 16
    if rng.random() < 0.5:
        segs = int(rng.integers(4, 40))
        kw = dict(quad_segs=segs)
    g = mon.call(cg.minimum_bounding_circle, x, **kw)
    mon.expect(isinstance(g, shapely.Polygon) and g.is_valid, "a polygon", got=g)
    best, at = smallest(f)
    v = shapely.get_coordinates(g)[:-1]
    mon.expect(len(v) == 4 * segs, "the requested approximation", got=len(v), want=4 * segs)
    d = np.hypot(*(v - v.mean(axis=0)).T)
    e = 1e-6 * best + 1e-12 * gen.mag(f)
    mon.close(d, np.full(len(v), best), "outline on the circle", atol=2 * e)
    far = np.hypot(*(f - v.mean(axis=0)).T).max()
    mon.expect(far <= best + 2 * e, "contains every event", far=far, best=best)
