"""Requests without meaning, each made from a random valid request by spoiling one
parameter: the valid request must be answered and the spoiled one refused."""

import string

import geopandas as gpd
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
import pointpats
import shapely
from pointpats import distance_statistics as ds
from pointpats import geometry as geo
from pointpats import random as rnd
from scipy import spatial

from pv import gen
from pv.core import Skip, scenario

FILES = [
    "centrography.py", "pointpattern.py", "distance_statistics.py", "geometry.py", "random.py",
    "quadrat_statistics.py", "spacetime.py", "kde.py",
]
ASSUMPTIONS = ["any exception is a refusal"]
SCENARIOS = []
plt.rcParams["figure.max_open_warning"] = 0


def word(rng, *valid):
    """a name that is none of the valid ones: random, misspelled or extended"""
    while True:
        k = int(rng.integers(0, 4))
        v = valid[int(rng.integers(len(valid)))]
        if k == 0:
            w = "".join(rng.choice(list(string.ascii_lowercase), int(rng.integers(1, 10))))
        elif k == 1:
            w = v[:-1]
        elif k == 2:
            w = v + str(rng.choice(["s", "_", " ", "2"]))
        else:
            i = int(rng.integers(len(v)))
            w = v[:i] + str(rng.choice(list(string.ascii_lowercase))) + v[i + 1:]
        if w and w.lower() not in [x.lower() for x in valid]:
            return w


def accepted(mon, fn, *args, **kw):
    out = mon.call(fn, *args, **kw)
    mon.oracle("valid request answered")
    mon._nontrivial = True
    return out


def spoiled(mon, what, fn, *args, **kw):
    mon.feature("refused:" + what)
    try:
        out = mon.call(fn, *args, **kw)
    except Exception as e:  # noqa: BLE001
        mon.events.append(("raised", repr(e)[:200]))
        mon.oracle("invalid request refused")
        mon._nontrivial = True
        plt.close("all")
        return
    mon.fail("an invalid request was answered: " + what, function=getattr(fn, "__qualname__", fn), args=args, kwargs=kw, result=out)


def events(mon, rng, n=None):
    n = n or int(rng.choice([5, 8, 20]))
    p = gen.points(rng, n, kinds=("uniform", "normal", "clusters", "gridlike"), mon=mon)
    ext = np.ptp(p, axis=0)
    if not gen.noncollinear(p, 0.02) or gen.mag(p) > 1e5 * ext.min():
        raise Skip
    return p


def form(rng, p):
    k = int(rng.integers(0, 4))
    return (p, p.tolist(), gen.geoseries(rng, p), gen.geoframe(rng, p))[k]


def wrong_length(rng, n, floor=0):
    return int(rng.choice([m for m in (n - 1, n + 1, 2 * n, n // 2, 1, 0) if m != n and m >= floor]))


@scenario(SCENARIOS, 400, 8000)
def centrography(mon, rng):
    p = events(mon, rng)
    n = len(p)
    x = form(rng, p)
    m = str(rng.choice(["crimestat", "yuill", "Crimestat", "YUILL"]))
    w = rng.integers(1, 9, n)
    w = w if rng.random() < 0.5 else w.tolist()
    accepted(mon, pointpats.ellipse, x, weights=w if rng.random() < 0.5 else None, method=m)
    spoiled(mon, "ellipse method", pointpats.ellipse, x, method=word(rng, "crimestat", "yuill"))
    bad = rng.integers(1, 9, wrong_length(rng, n))
    bad = bad if rng.random() < 0.5 else bad.tolist()
    spoiled(mon, "ellipse weights", pointpats.ellipse, x, weights=bad, method=m)
    accepted(mon, pointpats.weighted_mean_center, x, w)
    spoiled(mon, "weighted mean weights", pointpats.weighted_mean_center, x, bad)


@scenario(SCENARIOS, 400, 8000)
def patterns(mon, rng):
    p = events(mon, rng)
    n = len(p)
    q = mon.call(pointpats.PointPattern, np.c_[p, rng.integers(0, 3, n)], names=["x", "y", "k"])
    accepted(mon, q.knn, 1)
    accepted(mon, q.knn, int(rng.integers(1, n)))
    k = (0, -1, -int(rng.integers(1, 99)), 0.5, False)[int(rng.integers(5))]
    spoiled(mon, "knn k", q.knn, k)
    other = [tuple(v) for v in events(mon, rng).tolist()] if rng.random() < 0.5 else q
    accepted(mon, q.knn_other, other, 1)
    spoiled(mon, "knn_other k", q.knn_other, other, k)
    same = mon.call(pointpats.PointPattern, np.c_[p + 1, rng.integers(0, 3, n)], names=["x", "y", "k"])
    accepted(mon, q.superimpose, same)
    # the attributes differ in number, name, order or coordinates
    t = int(rng.integers(0, 4))
    if t == 0:
        z = mon.call(pointpats.PointPattern, p + 1, names=["x", "y"])
    elif t == 1:
        z = mon.call(pointpats.PointPattern, np.c_[p + 1, np.zeros(n)], names=["x", "y", "other"])
    elif t == 2:
        z = mon.call(pointpats.PointPattern, np.c_[p, np.zeros(n)][:, [0, 2, 1]], names=["x", "k", "y"], coord_names=["x", "y"])
    else:
        z = mon.call(pointpats.PointPattern, np.c_[p, np.ones(n)], names=["x", "y", "k"], coord_names=["y", "x"])
    spoiled(mon, f"superimpose pattern {t}", q.superimpose, z)
    spoiled(mon, f"superimpose on pattern {t}", z.superimpose, q)
    accepted(mon, q.explode, "k")
    spoiled(mon, "explode mark", q.explode, "nothing")
    bad = list(range(wrong_length(rng, n, 2)))
    spoiled(mon, "mark length", same.add_marks, [bad], ["m"])
    spoiled(mon, "mark names", same.add_marks, [list(range(n))], ["m", "o"])
    same2 = mon.call(pointpats.PointPattern, p)
    mon.call(same2.add_marks, [list(range(n))], ["m"])
    mon.oracle("valid request answered")
    spoiled(mon, "names length", pointpats.PointPattern, p, names=["x", "y", "z"])


RIPLEY = ("f", "g", "j", "k", "l")


def base(mon, rng, p, name, test):
    """a valid request of a distance function or its test"""
    kw = {}
    if test:
        kw = dict(n_simulations=2, n_jobs=1)
    if rng.random() < 0.5 or name == "j":
        top = float(spatial.distance.pdist(p).max())
        kw["support"] = np.linspace(0, top / 3, 5)
    return getattr(ds, name + ("_test" if test else "")), kw


@scenario(SCENARIOS, 600, 12000)
def ripley(mon, rng):
    p = events(mon, rng, int(rng.choice([6, 12])))
    name = str(rng.choice(RIPLEY))
    test = bool(rng.random() < 0.3)
    fn, kw = base(mon, rng, p, name, test)
    x = p if rng.random() < 0.5 else gen.geoseries(rng, p) if rng.random() < 0.5 else gen.geoframe(rng, p)
    good = accepted(mon, fn, x, **kw)
    mon.expect(len(good[0]) == len(good[1]), "a statistic for each support value")
    u = int(rng.integers(0, 5))
    if u == 0:
        e = ("ripley", "isotropic", "none", True, 1, False, 0)[int(rng.integers(7))]
        spoiled(mon, "edge correction", fn, x, edge_correction=e, **kw)
    elif u == 1:
        spoiled(mon, "precomputed metric", fn, x, metric="precomputed", **kw)
    elif u == 2:
        m = (None, 5, ["euclidean"], ("euclidean",), 1.5)[int(rng.integers(5))]
        spoiled(mon, "metric type", fn, x, metric=m, **kw)
    elif u == 3:
        accepted(mon, fn, x, metric="cityblock", **kw)
        m = "".join(rng.choice(list("qxzvwj"), 6))
        spoiled(mon, "unknown metric", fn, x, metric=m, **kw)
    else:
        if name not in ("f", "j") and not test:
            name, (fn, kw) = "f", base(mon, rng, p, "f", False)
        lo, hi = p.min(axis=0), p.max(axis=0)
        valid = (np.r_[lo, hi], "bbox", "convex", "convex hull", shapely.box(*lo, *hi), spatial.ConvexHull(p), None)
        accepted(mon, fn, x, hull=valid[int(rng.integers(len(valid)))], **kw)
        bad = (
            "nothing", "square", "hull", 5, [*lo, *hi], tuple(lo), np.r_[lo, hi, 1.0], np.r_[lo, hi][:3], {"hull": 1},
            word(rng, "bbox"), word(rng, "convex", "alpha", "bbox"), word(rng, "convex", "alpha"),
        )[int(rng.integers(12))]
        if isinstance(bad, str) and bad.startswith(("convex", "alpha", "α")):
            raise Skip
        spoiled(mon, "hull kind", fn, x, hull=bad, **kw)


@scenario(SCENARIOS, 600, 12000)
def distances(mon, rng):
    p = events(mon, rng, int(rng.choice([6, 11])))
    n = len(p)
    x = p if rng.random() < 0.7 else gen.geoseries(rng, p)
    d = spatial.distance.cdist(p, p)
    sup = np.linspace(0, d.max() / 2, 5)
    m = int(rng.integers(1, 9))
    e = spatial.distance.cdist(p, rng.uniform(p.min(axis=0), p.max(axis=0), (m, 2)))
    nn = (d + np.diag(np.full(n, np.inf))).min(axis=1)
    name = str(rng.choice(RIPLEY))
    fn = getattr(ds, name)
    bad_n = int(rng.choice([n - 1, n + 1, 2 * n, 1]))
    if name == "f":
        good = (d, e, e.min(axis=0))
        bad = (
            spatial.distance.cdist(np.vstack([p, p + 1])[:bad_n], p), e.T if m != n else d[:-1], d[None], d.reshape(n, n, 1),
            np.zeros((bad_n, n)), d[0, 0],
        )
    elif name == "g":
        good = (d, nn)
        bad = (d[:-1], d[:, :-1], d[:-1, :-1], np.resize(nn, bad_n), np.zeros((bad_n, bad_n)), d[None], e if m != n else d[:-1], np.array(1.0))
    elif name in "kl":
        good = (d, d[np.triu_indices(n, 1)])
        t = n * (n - 1) // 2
        bad = (
            d[:-1], d[:, :-1], d[:-1, :-1], np.zeros((bad_n, bad_n)), np.resize(good[1], int(rng.choice([t - 1, t + 1, n, 1, 2 * t]))),
            d[None], d.reshape(n, n, 1),
        )
    else:
        good = ((nn, e.min(axis=0)), (d, e))
        bad = ((np.resize(nn, bad_n), e.min(axis=0)), (d[:-1], e), (nn, np.zeros((bad_n, 3))), (nn,), (nn, e.min(axis=0), nn))
    accepted(mon, fn, x, distances=good[int(rng.integers(len(good)))], support=sup)
    i = int(rng.integers(len(bad)))
    spoiled(mon, f"{name} distances", fn, x, distances=bad[i], support=sup)


@scenario(SCENARIOS, 300, 6000)
def shapes(mon, rng):
    p = events(mon, rng)
    b = np.r_[p.min(axis=0), p.max(axis=0)]
    k = int(rng.integers(0, 5))
    x, y = map(float, p.mean(axis=0))
    if k == 0:
        accepted(mon, geo.area, b if rng.random() < 0.5 else b.tolist())
        bad = b[: int(rng.integers(1, 4))] if rng.random() < 0.5 else np.r_[b, b[:1]]
        spoiled(mon, "area of no box", geo.area, bad)
    elif k == 1:
        accepted(mon, geo.contains, b, x, y)
        spoiled(mon, "contains of no shape", geo.contains, ("box", {"a": 1}, None, 5)[int(rng.integers(4))], x, y)
    elif k == 2:
        accepted(mon, geo.centroid, b)
        accepted(mon, geo.centroid, p)
        spoiled(mon, "centroid of no shape", geo.centroid, (p[None], b[:3], np.r_[b, 1.0], p.reshape(-1, 1, 2))[int(rng.integers(4))])
    elif k == 3:
        accepted(mon, geo.build_best_tree, p, "euclidean")
        spoiled(mon, "tree metric", geo.build_best_tree, p, "".join(rng.choice(list("qxzvwj"), 5)))
        spoiled(mon, "tree metric", geo.build_best_tree, p, ("precomputed", 5, None)[int(rng.integers(3))])
    else:
        accepted(mon, geo.prepare_hull, p, ("bbox", "convex", None)[int(rng.integers(3))])
        accepted(mon, geo.prepare_hull, p, b)
        bad = (
            "nothing", "Bbox ", 5, b.tolist(), b[:3], np.r_[b, b], np.vstack([b, b]), np.array([b] * 4), "concave", "con", "al", "",
            word(rng, "convex", "alpha", "bbox"),
        )[int(rng.integers(13))]
        if isinstance(bad, str) and bad.startswith(("convex", "alpha", "α")):
            raise Skip
        spoiled(mon, "hull", geo.prepare_hull, p, bad)


@scenario(SCENARIOS, 400, 8000)
def simulators(mon, rng):
    p = events(mon, rng)
    lo, hi = p.min(axis=0), p.max(axis=0)
    b = np.r_[lo, hi]
    h = (b, shapely.box(*b), spatial.ConvexHull(p))[int(rng.integers(3))]
    area = float(geo.area(h))
    seed = int(rng.integers(99))
    n, m = int(rng.integers(6, 15)), int(rng.integers(1, 4))
    k = int(rng.integers(0, 4))
    names = ("poisson", "cluster_poisson", "normal", "cluster_normal")
    name = names[int(rng.integers(4))]
    fn = getattr(rnd, name)
    kw = dict(rng=seed)
    if name.startswith("cluster"):
        kw["n_seeds"] = 2
    if k == 0:
        # sizes that say nothing
        accepted(mon, fn, h, size=(n, m) if rng.random() < 0.5 else n, **kw)
        bad = ((n,), (n, m, 2), (), [n, m], float(n), str(n), "many", np.array([n, m]), {n})[int(rng.integers(9))]
        spoiled(mon, "size", fn, h, size=bad, **kw)
    elif k == 1:
        # both a number and an intensity
        if "normal" in name:
            name, fn = "poisson", rnd.poisson
            kw.pop("n_seeds", None)
        lam = (n + 0.5) / area
        accepted(mon, fn, h, intensity=lam, size=m, **kw)
        accepted(mon, fn, h, intensity=lam, **kw)
        spoiled(mon, "size and intensity", fn, h, intensity=lam, size=(n, m), **kw)
        spoiled(mon, "size with intensity", fn, h, intensity=lam, size=((n,), [m], float(m), (n, m, 1))[int(rng.integers(4))], **kw)
    elif k == 2:
        v = float((hi - lo).min()) ** 2 / 9
        c = np.diag([v, v / 2])
        good = (v, c, np.array([c] * m), None)[int(rng.integers(4))]
        accepted(mon, rnd.normal, h, cov=good, size=(n, m), rng=seed)
        bad = ([v, v], c.tolist(), "wide", (v,), np.eye(3), np.ones((2, 3)), np.ones((3, 2)), np.array([c] * (m + 1)), np.ones((m, 2, 3)), np.ones((m, 3, 3)))
        i = int(rng.integers(len(bad)))
        spoiled(mon, f"covariance {i}", rnd.normal, h, cov=bad[i], size=(n, m), rng=seed)
    else:
        s = int(rng.integers(2, 5))
        r = float((hi - lo).min()) / 9
        radii = (r * (1 + rng.random(s))).tolist()
        accepted(mon, rnd.cluster_poisson, h, size=(n, m), n_seeds=s, cluster_radius=radii if rng.random() < 0.7 else r, rng=seed)
        w = int(rng.choice([x for x in (s - 1, s + 1, 2 * s, 1) if x != s]))
        bad = np.resize(radii, w)
        bad = bad if rng.random() < 0.5 else bad.tolist()
        spoiled(mon, "cluster radii", rnd.cluster_poisson, h, size=(n, m), n_seeds=s, cluster_radius=bad, rng=seed)
        few = int(rng.integers(1, s))
        f, a = (rnd.cluster_poisson, dict(cluster_radius=r)) if rng.random() < 0.5 else (rnd.cluster_normal, {})
        accepted(mon, f, h, size=s, n_seeds=s, rng=seed, **a)
        spoiled(mon, "more clusters than points", f, h, size=few if rng.random() < 0.5 else (few, 2), n_seeds=s, rng=seed, **a)


def line(p):
    return shapely.LineString(p[:2])


@scenario(SCENARIOS, 400, 8000)
def quadrats(mon, rng):
    p = events(mon, rng, int(rng.choice([6, 15])))
    top = float(np.ptp(p, axis=0).max())
    n = len(p)
    lh = top / float(rng.choice([2, 4]))

    def make(x, k):
        if k == 0:
            return pointpats.RectangleM, (x,), dict(count_column=int(rng.integers(1, 5)), count_row=int(rng.integers(1, 5)))
        if k == 1:
            return pointpats.HexagonM, (x, lh), {}
        if k == 2:
            return pointpats.QStatistic, (x,), dict(shape="rectangle", nx=2, ny=2, rng=1)
        return pointpats.QStatistic, (x,), dict(shape="hexagon", lh=lh, rng=1)

    k = int(rng.integers(0, 4))
    x = (p, p.tolist(), gen.geoseries(rng, p), gen.geoframe(rng, p), gen.multipoints(rng, p), pointpats.PointPattern(p))[int(rng.integers(6))]
    fn, a, kw = make(x, k)
    m = accepted(mon, fn, *a, **kw)
    t = int(rng.integers(0, 4))
    if t == 0:
        for bad in ("rect", "square", word(rng, "rectangle", "hexagon"), None, 6):
            spoiled(mon, "grid shape", pointpats.QStatistic, x, shape=bad, lh=lh)
    elif t == 1:
        accepted(mon, m.plot)
        accepted(mon, m.plot, show="counts")
        bad = (word(rng, "counts", "chi2"), "Counts", "CHI2", None, True, "")[int(rng.integers(6))]
        spoiled(mon, "plot mode", m.plot, show=bad)
        if k >= 2:
            accepted(mon, m.plot, show="chi2")
    elif t == 2:
        g = getattr(m, "mr", m)
        cells = len(g.point_location_sta())
        v = rng.random(cells)
        accepted(mon, g.plot, show="chi2", chi2_contrib=v if rng.random() < 0.5 else v.tolist())
        spoiled(mon, "no contributions", g.plot, show="chi2")
        spoiled(mon, "contributions", g.plot, show="chi2", chi2_contrib=rng.random(wrong_length(rng, cells)))
    else:
        pts = [shapely.Point(v) for v in p]
        bad = (
            gpd.GeoSeries([*pts, line(p)]), gpd.GeoSeries([line(p)] * 3), gpd.GeoSeries([*pts[:-1], shapely.box(*p.min(axis=0), *p.max(axis=0))]),
            gpd.GeoDataFrame(geometry=[line(p), *pts]), gpd.GeoSeries([shapely.Point(), shapely.Point()]), gpd.GeoSeries([], dtype="geometry"),
            gpd.GeoSeries([None, None], dtype="geometry"), np.empty((0, 2)), p[:, 0], p[:, :1], np.c_[p, p[:, 0]], p[None], [], p.T if n != 2 else p[0],
            shapely.Point(0, 0), 5, "points", gpd.GeoSeries([shapely.GeometryCollection(pts)]),
        )
        i = int(rng.integers(len(bad)))
        fn, a, kw = make(bad[i], k)
        spoiled(mon, f"events {i}", fn, *a, **kw)


@scenario(SCENARIOS, 400, 8000)
def spacetime(mon, rng):
    p = events(mon, rng, int(rng.choice([6, 12])))
    n = len(p)
    d = spatial.distance.pdist(p)
    delta, tau = float(np.quantile(d, 0.5)), 5
    t = rng.integers(0, 12, n)
    pm = int(rng.choice([0, 9]))
    k = int(rng.integers(0, 4))
    if k == 0:
        s, tt = p, t.reshape(-1, 1)
        accepted(mon, pointpats.KnoxLocal, s, tt, delta, tau, permutations=pm)
        i = int(rng.integers(0, 7))
        bad = (
            (s, tt.tolist()), (s.tolist(), tt), (s, pd.DataFrame(tt)), (pd.DataFrame(s), tt), (s[:, :1], tt), (s[:-1], tt), (s, tt[:-1]),
        )[i]
        spoiled(mon, f"local coordinates {i}", pointpats.KnoxLocal, *bad, delta, tau, permutations=pm)
    elif k == 1:
        ids = [f"q{i}" for i in range(n)]
        good = (ids, tuple(ids), np.array(ids), pd.Index(ids))[int(rng.integers(4))]
        q = accepted(mon, pointpats.KnoxLocal, p, t.reshape(-1, 1), delta, tau, permutations=pm, ids=good)
        mon.expect(list(q._gdf.index) == ids, "the identifiers are used")
        m = wrong_length(rng, n, 1)
        bad = [f"q{i}" for i in range(m)]
        spoiled(mon, "identifiers", pointpats.KnoxLocal, p, t.reshape(-1, 1), delta, tau, permutations=pm, ids=bad)
    elif k == 2:
        q = mon.call(pointpats.KnoxLocal, p, t.reshape(-1, 1), delta, tau, permutations=int(rng.choice([0, 19])))
        if not len(q.adjlist):
            raise Skip
        good = str(rng.choice(["permutation", "analytic"]))
        accepted(mon, q.hotspots, crit=0.9, inference=good)
        bad = (word(rng, "permutation", "analytic"), "Permutation", None, "poisson", True)[int(rng.integers(5))]
        for f in (q.hotspots, q.plot, q.explore):
            spoiled(mon, "inference of " + f.__name__, f, inference=bad)
    else:
        cls = pointpats.Knox if rng.random() < 0.5 else pointpats.KnoxLocal
        crs = "EPSG:3857" if rng.random() < 0.7 else None
        g = gpd.GeoDataFrame({"when": t, "as_text": t.astype(str), "day": pd.Timestamp("2020-01-01") + pd.to_timedelta(t, "D")}, geometry=gpd.points_from_xy(*p.T), crs=crs)
        accepted(mon, cls.from_dataframe, g, "when", delta, tau, permutations=pm)
        i = int(rng.integers(0, 6))
        if i == 0:
            g2 = g.set_crs(str(rng.choice(["EPSG:4326", "EPSG:4269", "OGC:CRS84"])), allow_override=True)
            a = (g2, "when")
        elif i == 1:
            gs = list(g.geometry)
            gs[int(rng.integers(n))] = (line(p), shapely.MultiPoint(p[:2]), shapely.Point(p[0]).buffer(1))[int(rng.integers(3))]
            a = (g.set_geometry(gpd.GeoSeries(gs, crs=crs)), "when")
        elif i == 2:
            a = (g, "as_text")
        elif i == 3:
            a = (g, "day")
        elif i == 4:
            a = (g, "nothing")
        else:
            a = (g.assign(when=g["when"].astype(object)), "when")
        spoiled(mon, f"frame {i}", cls.from_dataframe, *a, delta, tau, permutations=pm)


@scenario(SCENARIOS, 80, 1600)
def density(mon, rng):
    p = events(mon, rng, int(rng.choice([5, 12])))
    ext = np.ptp(p, axis=0)
    if ext.min() < 0.05 * ext.max():
        raise Skip
    h = float(ext.max() / 5)
    x = (p, gen.geoseries(rng, p), gen.geoframe(rng, p), gen.multipoints(rng, p))[int(rng.integers(4))]
    good = (10, (8, 12), None, 10)[int(rng.integers(3))]
    accepted(mon, pointpats.plot_density, x, h, resolution=good)
    k = int(rng.integers(0, 3))
    if k == 0:
        bad = ([10, 10], "fine", {10}, np.array([10, 12]))[int(rng.integers(4))]
        spoiled(mon, "resolution", pointpats.plot_density, x, h, resolution=bad)
    elif k == 1:
        pts = [shapely.Point(v) for v in p]
        bad = (
            gpd.GeoSeries([*pts, line(p)]), gpd.GeoSeries([line(p)] * 5), gpd.GeoDataFrame(geometry=[shapely.Point(p[0]).buffer(1), *pts]),
            p.tolist(), 5, "points",
        )[int(rng.integers(6))]
        spoiled(mon, "events of a density", pointpats.plot_density, bad, h, resolution=10, kernel=(None, "box")[int(rng.integers(2))])
    else:
        spoiled(mon, "kernel", pointpats.plot_density, x, h, kernel="".join(rng.choice(list("qxzvwj"), 6)), resolution=16)
