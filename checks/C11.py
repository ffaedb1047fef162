"""Containment, shape and number of simulated observations for every kind of hull."""

import numpy as np
import shapely
from scipy import spatial

import pointpats.random as pr
from pv import gen
from pv.core import scenario

SCENARIOS = []
FILES = ["random.py", "geometry.py"]

HULLS = ("bbox", "points", "convex", "polygon", "holed", "multi", "sliver")


def make_hull(mon, rng, kinds=HULLS, transform=True, needles=False):
    """a hull, its area, a judge of containment, its kind"""
    kind = kinds[int(rng.integers(len(kinds)))]
    c = np.zeros(2)
    r = 1.0
    if transform:
        r = 10.0 ** rng.integers(-3, 5) * (0.5 + rng.random())
        c = rng.normal(size=2) * r * rng.choice([0, 1, 100])
    mon.feature("hull:" + kind)
    if kind in ("bbox", "points"):
        w = r * (0.1 + rng.random(2))
        box = np.r_[c - w, c + w]
        hull = box
        if kind == "points":
            m = int(rng.choice([3, 4, 4, 5, 20]))
            q = rng.uniform(box[:2], box[2:], (m, 2))
            box = np.r_[q.min(axis=0), q.max(axis=0)]
            hull = q
        ok = lambda p: ((p >= box[:2]) & (p <= box[2:])).all(axis=1)  # noqa: E731
        area = float(np.prod(box[2:] - box[:2]))
    elif kind == "convex":
        while True:
            # (rejection from a needle's bounding box would take forever)
            q = c + r * rng.normal(size=(int(rng.choice([3, 6, 20])), 2))
            hull = spatial.ConvexHull(q)
            if hull.volume > 0.1 * np.prod(np.ptp(q, axis=0)):
                break
        v = q[hull.vertices]
        corners = shapely.Polygon(v)
        ok = lambda p: shapely.distance(corners, shapely.points(p)) <= 1e-9 * (r + np.abs(c).max())  # noqa: E731
        area = shapely.Polygon(v).area
    else:
        if kind == "polygon":
            g = gen.star_polygon(rng, None, c, r)
        elif kind == "holed":
            g = gen.holed_polygon(rng, c, r)
        elif kind == "multi":
            g = gen.multipolygon(rng, c, r)
        else:
            # fills little of its bounding box, or next to nothing of it
            g = shapely.Polygon([(0, 0), (1, 0), (1, 1), (0.8, 1), (0.8, 0.2), (0, 0.2)])
            if needles and rng.random() < 0.3:
                mon.feature("needle")
                g = shapely.Polygon([(0, 0), (1, 0.995), (1, 1.0)])
            g = shapely.transform(g, lambda x: c + x * r)
        hull = g
        ok = lambda p: shapely.intersects(g, shapely.points(p))  # noqa: E731
        area = g.area
    mon.fp(np.asarray(hull.points if kind == "convex" else shapely.get_coordinates(hull) if isinstance(hull, shapely.Geometry) else hull))
    return hull, area, ok, kind


def judge(mon, out, n, reps, ok, where):
    out = np.asarray(out)
    shape = (n, 2) if reps == 1 else (reps, n, 2)
    mon.expect(out.shape == shape, where + ": shape", got=out.shape, want=shape)
    p = out.reshape(-1, 2)
    mon.expect(np.isfinite(p).all(), where + ": finite", got=out)
    if len(p):
        inside = ok(p)
        mon.expect(np.all(inside), where + ": within the hull", outside=p[~np.asarray(inside)][:3])
        if len(p) > 1 and n > 1:
            mon.expect(len(np.unique(p, axis=0)) > 1, where + ": not all the same", got=out)
        for q in out.reshape(-1, n, 2):
            # locations follow a density, so that no coordinate comes twice
            for j in (0, 1):
                mon.expect(len(np.unique(q[:, j])) == n, where + ": no coordinate repeats", got=q)


def ask(mon, rng, area, intensity=True, nmax=25, default=True):
    """keyword arguments with the number of observations and replications they mean"""
    k = int(rng.integers(0, 7))
    n = int(rng.choice([1, 2, 3, 7, nmax]))
    reps = int(rng.choice([1, 2, 3])) if n > 20 or rng.random() < 0.9 else 14
    if k >= 4 and not intensity:
        k = int(rng.integers(0, 4))
    if k == 0 and default:
        mon.feature("size:default")
        return {}, 100, 1
    if k <= 1:
        mon.feature("size:int")
        return dict(size=n), n, 1
    if k <= 3:
        mon.feature("size:tuple" + ("1" if reps == 1 else ""))
        return dict(size=(n, reps)), n, reps
    exact = rng.random() < 0.3
    lam = n / area if exact else (n + (0.05 + 0.9 * rng.random() if rng.random() < 0.7 else 1 - max(10.0 ** -rng.uniform(2, 6), 1e-8 * n))) / area
    mon.feature("intensity:exact" if exact else "intensity:fraction")
    if k == 4:
        return dict(intensity=lam), n, 1
    return dict(intensity=lam, size=reps), n, reps


def source(rng):
    k = int(rng.integers(0, 3))
    s = int(rng.integers(2**31))
    return (None, s, np.random.default_rng(s))[k]


@scenario(SCENARIOS, 500, 12000)
def uniform(mon, rng):
    hull, area, ok, kind = make_hull(mon, rng, needles=True)
    kw, n, reps = ask(mon, rng, area, nmax=25 if kind == "sliver" else gen.now_and_then(rng, mon, 25, 2600, 0.1))
    if kind == "sliver" and n == 100:
        kw, n = dict(size=9), 9
    out = mon.call(pr.poisson, hull, **kw, rng=source(rng))
    judge(mon, out, n, reps, ok, "poisson")


@scenario(SCENARIOS, 400, 10000)
def gaussian(mon, rng):
    hull, area, ok, kind = make_hull(mon, rng)
    kw, n, reps = ask(mon, rng, area, intensity=False, nmax=gen.now_and_then(rng, mon, 15, 400, 0.1) if kind in ("bbox", "points", "polygon") else 15)
    if n == 100 and kind == "convex":
        kw, n = dict(size=10), 10
    b = np.asarray(pr._bbox(hull), float)
    s = float((b[2:] - b[:2]).max())
    k = int(rng.integers(0, 4))
    if k == 1:
        kw["cov"] = float((s * (0.05 + rng.random())) ** 2)
    elif k == 2:
        kw["cov"] = np.diag((s * (0.05 + rng.random(2))) ** 2)
    elif k == 3:
        a = (s * (0.05 + rng.random(reps))) ** 2
        rho = rng.uniform(-0.9, 0.9, reps)
        kw["cov"] = np.array([[[x, x * q], [x * q, x]] for x, q in zip(a, rho)])
    mon.feature(f"cov:{k}")
    if rng.random() < 0.5:
        p = np.asarray(pr.poisson(hull, size=1, rng=1)).reshape(2)
        kw["center"] = (p, tuple(p.tolist()), p.tolist())[int(rng.integers(3))]
    out = mon.call(pr.normal, hull, **kw, rng=source(rng))
    judge(mon, out, n, reps, ok, "normal")


@scenario(SCENARIOS, 400, 10000)
def clusters(mon, rng):
    hull, area, ok, kind = make_hull(mon, rng)
    kw, n, reps = ask(mon, rng, area, nmax=20)
    seeds = int(rng.integers(2, 5)) if n >= 4 else min(n, int(rng.integers(1, 3)))
    seeds = min(seeds, n)
    b = np.asarray(pr._bbox(hull), float)
    s = float((b[2:] - b[:2]).max())
    k = int(rng.integers(0, 4))
    if k == 0 and seeds > 1:
        pass
    elif k <= 1:
        kw["cluster_radius"] = float(s * rng.choice([0.01, 0.1, 0.5]))
    elif k == 2:
        kw["cluster_radius"] = (s * (0.01 + 0.3 * rng.random(seeds)))
    else:
        kw["cluster_radius"] = (s * (0.01 + 0.3 * rng.random(seeds))).tolist()
    mon.feature(f"radius:{k}")
    if seeds == 2 and rng.random() < 0.5:
        mon.feature("default number of clusters")
    else:
        kw["n_seeds"] = seeds
    out = mon.call(pr.cluster_poisson, hull, **kw, rng=source(rng))
    judge(mon, out, n, reps, ok, "cluster_poisson")


@scenario(SCENARIOS, 250, 7000)
def gaussian_clusters(mon, rng):
    hull, area, ok, kind = make_hull(mon, rng)
    kw, n, reps = ask(mon, rng, area, intensity=False, nmax=12, default=kind != "convex")
    seeds = min(int(rng.integers(2, 5)), n)
    b = np.asarray(pr._bbox(hull), float)
    s = float((b[2:] - b[:2]).max())
    k = int(rng.integers(0, 3))
    if k == 1 or seeds == 1:
        kw["cov"] = float((s * (0.05 + 0.3 * rng.random())) ** 2)
    elif k == 2:
        kw["cov"] = np.eye(2) * float((s * (0.05 + 0.3 * rng.random())) ** 2)
    kw["n_seeds"] = seeds
    out = mon.call(pr.cluster_normal, hull, **kw, rng=source(rng))
    judge(mon, out, n, reps, ok, "cluster_normal")


@scenario(SCENARIOS, 150, 3000)
def inhibition(mon, rng):
    hull, area, ok, kind = make_hull(mon, rng, tuple(h for h in HULLS if h != "convex") if rng.random() < 0.8 else HULLS)
    kw, n, reps = ask(mon, rng, area, nmax=12, default=kind != "convex")
    b = np.asarray(pr._bbox(hull), float)
    s = float((b[2:] - b[:2]).max())
    kw.update(gamma=float(rng.choice([0.1, 0.5, 1.0])), r=0.05 * s, n_iter=int(rng.choice([0, 1, 30, 60])))
    out = mon.call(pr.strauss, hull, **kw, rng=source(rng))
    judge(mon, out, n, reps, ok, "strauss")


@scenario(SCENARIOS, 300, 8000)
def sizes(mon, rng):
    """the common interpretation of size and intensity"""
    hull, area, ok, kind = make_hull(mon, rng, tuple(h for h in HULLS if h != "points"))
    kw, n, reps = ask(mon, rng, area, nmax=int(rng.choice([25, 1000, 10**6])))
    got = mon.call(pr.parse_size_and_intensity, hull, **kw)
    mon.expect(len(got) == 3 and tuple(got[:2]) == (n, reps), "size and intensity", got=got, want=(n, reps))
    mon.expect(all(isinstance(x, (int, np.integer)) for x in got[:2]), "size: whole numbers", got=got)
    if "intensity" in kw:
        mon.close(got[2], kw["intensity"], "intensity as given", rtol=1e-12)
    else:
        mon.close(got[2], n / area, "intensity implied", rtol=1e-9)


@scenario(SCENARIOS, 120, 3000)
def nothing(mon, rng):
    """an intensity that implies no observation gives none, in the shape asked for"""
    hull, area, ok, kind = make_hull(mon, rng)
    reps = int(rng.choice([1, 2, 5, 14, 40]))
    k = int(rng.integers(0, 3))
    kw = (dict(size=(0, reps)), dict(intensity=rng.uniform(0.01, 0.95) / area, size=reps), dict(size=0))[k]
    reps = 1 if k == 2 else reps
    mon.feature(f"none:{k}", "reps>12" if reps > 12 else "reps")
    if kind != "points":
        got = mon.call(pr.parse_size_and_intensity, hull, **kw)
        mon.expect(tuple(got[:2]) == (0, reps), "no observations", got=got)
    judge(mon, mon.call(pr.poisson, hull, **kw, rng=source(rng)), 0, reps, ok, "poisson of nothing")
    if rng.random() < 0.5:
        out = mon.call(pr.strauss, hull, **kw, gamma=0.5, r=0.05 * np.sqrt(area), n_iter=int(rng.choice([0, 30])), rng=source(rng))
        judge(mon, out, 0, reps, ok, "strauss of nothing")
    if "intensity" not in kw:
        judge(mon, mon.call(pr.normal, hull, **kw, rng=source(rng)), 0, reps, ok, "normal of nothing")
