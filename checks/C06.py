"""The same events as lists, tuples, frames, arrays of many layouts and integer types,
geospatial series and frames with odd indexes and geometry names, MultiPoints and patterns:
all accepted forms must give the result of the plain array, and geometries must describe
the same location or shape. Random parts are compared under an equal random state."""

import geopandas as gpd
import numpy as np
import pandas as pd
import pointpats
import shapely
from pointpats import distance_statistics as ds
from pointpats import geometry as geo
from pointpats import random as rnd
from scipy import spatial

from pv import gen
from pv.core import Skip, scenario

FILES = ["centrography.py", "distance_statistics.py", "quadrat_statistics.py", "spacetime.py", "pointpattern.py", "geometry.py", "random.py"]
ASSUMPTIONS = [
    "32 bit floats are judged on whole coordinates below 1000 only",
    "tests without a seed are compared where their generator can be given a state from outside",
]
SCENARIOS = []

INTS = (np.int64, np.int32, np.uint32, np.int16, np.uint16, np.int8, np.uint8, np.float32)


def whole_points(mon, rng, n):
    """whole coordinates, near the limits of a small type"""
    dt = INTS[int(rng.integers(len(INTS)))]
    if dt is np.float32:
        lo, hi = 0, 1000
    elif dt is np.int64:
        lo, hi = -(10**6), 10**6
    else:
        lo, hi = max(np.iinfo(dt).min, -(10**6)), min(np.iinfo(dt).max, 6 * 10**6)
        if rng.random() < 0.5:
            lo = max(lo, hi - (hi - lo) // 3)
    p = rng.integers(lo, hi + 1, (n, 2))
    mon.feature(f"whole:{dt.__name__}")
    return p.astype(float), dt


def forms(mon, rng, p, dt=None, geo=True, lists=True, multi=True):
    """(name, the same events)"""
    out = []
    for _ in range(2):
        a, how = gen.array_layout(rng, p)
        out.append(("array " + how, a))
    if dt is not None:
        out.append((f"array of {dt.__name__}", gen.array_layout(rng, p.astype(dt))[0]))
        if dt is not np.float32:
            out.append(("array of int64", gen.array_layout(rng, p.astype(np.int64))[0]))
    if lists:
        v = p.astype(int) if dt is not None and rng.random() < 0.5 else p
        out.append(("list", v.tolist()))
        out.append(("tuples", tuple(map(tuple, v.tolist()))))
        out.append(("list of arrays", list(p)))
        out.append(("frame", pd.DataFrame(v, columns=["lon", "lat"], index=gen.odd_index(rng, len(p)))))
    if geo:
        out.append(("series", gen.geoseries(rng, p, (None, "EPSG:3857")[int(rng.integers(2))])))
        out.append(("geoframe", gen.geoframe(rng, p, (None, "EPSG:3857")[int(rng.integers(2))])))
        if multi:
            out.append(("multipoints", gen.multipoints(rng, p)))
            out.append(("geoframe of multipoints", gpd.GeoDataFrame(geometry=gen.multipoints(rng, p)).rename_geometry("here")))
            # heights and members without a location say nothing about the plane
            z = gpd.GeoSeries(gpd.points_from_xy(p[:, 0], p[:, 1], rng.random(len(p)) * 10.0 ** rng.integers(-2, 6)), index=gen.odd_index(rng, len(p)))
            out.append(("series with heights", z if rng.random() < 0.5 else gpd.GeoDataFrame({"h": 1}, index=z.index, geometry=z)))
            m = [shapely.Point(v) for v in p]
            for _ in range(int(rng.integers(1, 4))):
                m.insert(int(rng.integers(len(m) + 1)), (None, shapely.Point(), shapely.MultiPoint())[int(rng.integers(3))])
            m = gpd.GeoSeries(m, index=gen.odd_index(rng, len(m)))
            out.append(("series with missing members", m if rng.random() < 0.5 else gpd.GeoDataFrame(geometry=m)))
            # a geographic system changes no coordinate
            if np.abs(p[:, 0]).max() <= 180 and np.abs(p[:, 1]).max() <= 90:
                out.append(("series of degrees", gen.geoseries(rng, p, ("EPSG:4326", "EPSG:4269")[int(rng.integers(2))])))
    for name, _ in out:
        mon.feature("form:" + name)
    return out


def isgeo(x):
    return isinstance(x, gpd.GeoSeries | gpd.GeoDataFrame)


def events(mon, rng, n):
    if rng.random() < 0.5:
        p, dt = whole_points(mon, rng, n)
    else:
        p, dt = gen.points(rng, n, mon=mon), None
    if not gen.noncollinear(p, 0.01) or gen.mag(p) > 1e5 * np.ptp(p, axis=0).min():
        raise Skip
    return p, dt


def same_shape(mon, got, want, tol, what, **k):
    mon.expect(shapely.hausdorff_distance(got, want) <= tol, what, got=got, want=want, **k)


@scenario(SCENARIOS, 300, 7500)
def centrography(mon, rng):
    n = gen.now_and_then(rng, mon, rng.choice([4, 7, 12, 31]), rng.integers(1000, 12000))
    p, dt = events(mon, rng, n)
    if n > 500 and len(spatial.ConvexHull(p).vertices) > 300:
        # (the smallest circle takes long with many corners)
        p = p[:300]
        n = len(p)
        if not gen.noncollinear(p, 0.01):
            raise Skip
    tol = 1e-9 * gen.spread(p) + 1e-12 * gen.mag(p)
    if dt is np.float32:
        tol = 1e-4 * gen.mag(p)
    w = rng.integers(1, 9, n)
    ws = (w, w.tolist(), w * 1.0, w.astype(np.int8), w.astype(np.uint8), w.astype(np.int16), tuple(w.tolist()), pd.Series(w), pd.Series(w, index=gen.odd_index(rng, n)), pd.Series(w * 1.0, index=rng.permutation(n)))
    kw = dict(method=str(rng.choice(["crimestat", "yuill"])), crimestatCorr=bool(rng.random() < 0.5), degfreedCorr=bool(rng.random() < 0.5))
    c = pointpats
    angle = bool(rng.random() < 0.5)

    def vec(fn, *a):
        return np.asarray(mon.call(fn, *a), float)

    ref = dict(
        mean=vec(c.mean_center, p), wmean=vec(c.weighted_mean_center, p, w), manhattan=vec(c.manhattan_median, p), std=float(mon.call(c.std_distance, p)),
        euclid=vec(c.euclidean_median, p), ellipse=mon.call(c.ellipse, p, **kw), wellipse=mon.call(c.ellipse, p, weights=w, **kw),
        mrr=mon.call(c.minimum_rotated_rectangle, p, return_angle=True), mbr=mon.call(c.minimum_bounding_rectangle, p),
        mbc=mon.call(c.minimum_bounding_circle, p), hull=mon.call(c.hull, p),
    )
    at = p[int(rng.integers(n))] + (0 if dt is not None else gen.spread(p) * 0.1)
    ref["dtot"] = float(mon.call(c.dtot, at, p))
    s = gen.spread(p)
    for name, x in forms(mon, rng, p, dt):
        g = isgeo(x)

        def loc(fn, key, *a, tolerance=tol, g=g, x=x, name=name):
            v = mon.call(fn, x, *a)
            if g:
                mon.expect(isinstance(v, shapely.Point), "geospatial events give geometries", fn=fn.__name__, form=name, got=v)
                v = [v.x, v.y]
            else:
                mon.expect(not isinstance(v, shapely.Geometry), "arrays give coordinates", fn=fn.__name__, form=name, got=v)
            mon.close(v, ref[key], "the same location in every form", rtol=0, atol=tolerance, fn=fn.__name__, form=name, events=p)

        loc(c.mean_center, "mean")
        loc(c.weighted_mean_center, "wmean", ws[int(rng.integers(len(ws)))])
        loc(c.manhattan_median, "manhattan")
        mon.close(float(mon.call(c.std_distance, x)), ref["std"], "the same standard distance in every form", rtol=1e-4 if dt is np.float32 else 1e-8, form=name, events=p)
        if name == "array of float32":
            # (along flat valleys short floats do not tell locations apart)
            v = np.asarray(mon.call(c.euclidean_median, x), float)
            a, b = (float(np.hypot(*(p - q).T).sum()) for q in (v, ref["euclid"]))
            mon.expect(v.shape == (2,) and a <= b * (1 + 1e-4), "the same total at the median in every form", got=v, want=ref["euclid"], form=name, events=p)
        else:
            loc(c.euclidean_median, "euclid", tolerance=max(tol, s * (1e-5 if dt is not np.float32 else 5e-3)))
        # the bounding rectangle
        v = mon.call(c.minimum_bounding_rectangle, x)
        if g:
            mon.close(v.bounds, ref["mbr"], "the same bounding rectangle in every form", form=name, rtol=1e-12)
        else:
            mon.close(v, ref["mbr"], "the same bounding rectangle in every form", form=name, rtol=1e-12)
        # the rotated rectangle (ties between orientations may be broken either way)
        v = mon.call(c.minimum_rotated_rectangle, x, return_angle=angle)
        v, a = v if angle else (v, None)
        poly = v if g else shapely.Polygon(v)
        mon.expect(isinstance(v, shapely.Polygon) == g, "geospatial events give geometries", fn="minimum_rotated_rectangle", form=name)
        ref_poly = shapely.Polygon(ref["mrr"][0])
        mon.close(poly.area, ref_poly.area, "the same rotated rectangle in every form", rtol=1e-6, atol=tol * s, form=name, events=p)
        if shapely.hausdorff_distance(poly, ref_poly) > max(tol, 1e-7 * s):
            mon.feature("tied rectangles")
            mon.expect(g or dt is not None, "the same rotated rectangle in every form", form=name, got=v, want=ref["mrr"])
        elif a is not None:
            d = abs(a - ref["mrr"][1]) % 90
            mon.expect(min(d, 90 - d) < 1e-4, "the same angle in every form", got=a, want=ref["mrr"][1], form=name)
        # circle and hull
        v = mon.call(c.minimum_bounding_circle, x)
        if g:
            (cx, cy), r = ref["mbc"]
            same_shape(mon, v, shapely.Point(cx, cy).buffer(r), max(tol, s * 1e-6), "the same circle in every form", form=name)
        else:
            mon.close([*v[0], v[1]], [*ref["mbc"][0], ref["mbc"][1]], "the same circle in every form", rtol=1e-6, atol=max(tol, s * 1e-6), form=name)
        v = mon.call(c.hull, x)
        hp = v if g else shapely.Polygon(np.asarray(v, float))
        mon.expect(isinstance(v, shapely.Geometry) == g, "geospatial events give geometries", fn="hull", form=name)
        same_shape(mon, hp, shapely.Polygon(ref["hull"]), max(tol, 1e-9 * s), "the same hull in every form", form=name)
        # ellipses
        for key, wt in (("ellipse", None), ("wellipse", ws[int(rng.integers(len(ws)))])):
            v = mon.call(c.ellipse, x, weights=wt, **kw)
            major, minor, ang = ref[key]
            if major - minor < 1e-6 * major:
                continue
            if g:
                cen = np.array([v.centroid.x, v.centroid.y])
                mon.close(cen, ref["mean" if wt is None else "wmean"], "the same centre of the ellipse", rtol=0, atol=max(tol, 1e-7 * s), form=name)
                q = shapely.get_coordinates(v) - cen
                ax = np.array([np.cos(ang), np.sin(ang)])
                mon.close(
                    [np.abs(q @ ax).max(), np.abs(q @ [-ax[1], ax[0]]).max()], [major, minor], "the same ellipse in every form", rtol=1e-5,
                    atol=tol, form=name,
                )
            else:
                mon.close(v, ref[key], "the same ellipse in every form", rtol=1e-4 if dt is np.float32 else 1e-6, atol=tol, form=name, events=p)
        # total distance
        if g:
            v = mon.call(c.dtot, shapely.Point(at), x)
        elif isinstance(x, np.ndarray):
            b = at.astype(dt) if dt is not None and rng.random() < 0.5 else at
            v = mon.call(c.dtot, b, x)
        else:
            v = mon.call(c.dtot, (at.tolist(), tuple(at.tolist()))[int(rng.integers(2))], x)
        mon.close(float(v), ref["dtot"], "the same total distance in every form", rtol=1e-4 if dt is np.float32 else 1e-9, form=name, events=p)


class Seeded:
    """default generators start in a state of ours while active"""

    def __init__(self, seed):
        self.seed = seed

    def __enter__(self):
        self.orig = np.random.default_rng
        state = [self.seed]

        def default_rng(seed=None):
            if seed is None:
                state[0] += 1
                seed = state[0]
            return self.orig(seed)

        np.random.default_rng = default_rng
        np.random.seed(self.seed)

    def __exit__(self, *a):
        np.random.default_rng = self.orig


def result(mon, seed, fn, *a, **kw):
    with Seeded(seed):
        out = mon.call(fn, *a, **kw)
    return [None if v is None else np.asarray(v, float) for v in out]


def match(mon, got, want, tol, what, **k):
    for i, (a, b) in enumerate(zip(got, want, strict=True)):
        if a is None or b is None:
            mon.expect(a is None and b is None, what, part=i, **k)
        else:
            mon.close(a, b, what, rtol=tol, atol=tol if i else 0, part=i, **k)


@scenario(SCENARIOS, 300, 9000)
def ripley(mon, rng):
    n = int(rng.choice([5, 12, 30]))
    p, dt = events(mon, rng, n)
    if dt is np.float32:
        dt = np.int32
    name = str(rng.choice(["f", "g", "j", "k", "l"]))
    fn = getattr(ds, name)
    d = spatial.distance.cdist(p, p)
    dd = d + np.diag(np.full(n, np.inf))
    top = float(dd.min(axis=1).max())
    # support values clear of all distances
    sup = np.linspace(0, top * 1.01, int(rng.integers(3, 9))) + top * 1e-3 * (1 + rng.random())
    sups = [sup, sup.tolist(), tuple(sup.tolist()) if len(sup) > 3 and name == "g" else sup]
    kw = {}
    e = spatial.distance.cdist(p, rng.uniform(p.min(axis=0), p.max(axis=0), (30, 2)))
    if rng.random() < 0.6:
        if name == "f":
            kw["distances"] = e.min(axis=0)
        elif name == "g":
            kw["distances"] = dd.min(axis=1) if rng.random() < 0.5 else d
        elif name == "j":
            kw["distances"] = (dd.min(axis=1), e.min(axis=0))
        else:
            kw["distances"] = d if rng.random() < 0.5 else d[np.triu_indices(n, 1)]
    elif rng.random() < 0.3:
        kw["metric"] = str(rng.choice(["cityblock", "chebyshev"]))
    seed = int(rng.integers(2**31))
    want = result(mon, seed, fn, p, support=sup, **kw)
    again = result(mon, seed, fn, p, support=sup, **kw)
    if not all(np.array_equal(a, b, equal_nan=True) for a, b in zip(want, again, strict=True)):
        mon.feature("state not controllable")
        raise Skip
    for form, x in forms(mon, rng, p, dt):
        s = sups[int(rng.integers(len(sups)))] if name != "j" else sup
        match(mon, result(mon, seed, fn, x, support=s, **kw), want, 1e-9, f"the same {name} function in every form", form=form, events=p)
    if "metric" not in kw and name != "j":
        for form, t in (("KDTree", spatial.KDTree(p)), ("sklearn tree", geo.build_best_tree(p, "euclidean"))):
            match(mon, result(mon, seed, fn, t, support=sup, **kw), want, 1e-9, f"the same {name} function in every form", form=form, events=p)
    if "distances" in kw:
        # matrices in other layouts
        q = kw["distances"]
        q = tuple(gen.array_layout(rng, np.c_[v, v])[0][:, 0] for v in q) if isinstance(q, tuple) else q
        if isinstance(q, np.ndarray) and q.ndim == 2:
            q = np.asfortranarray(q)
            q.setflags(write=False)
        match(mon, result(mon, seed, fn, p, support=sup, distances=q), want, 1e-9, "the same function for any layout of distances", events=p)


@scenario(SCENARIOS, 80, 2000)
def ripley_tests(mon, rng):
    n = int(rng.choice([5, 12, 20]))
    p, dt = events(mon, rng, n)
    if dt is np.float32:
        dt = np.int32
    name = str(rng.choice(["f", "g", "j", "k", "l"]))
    fn = getattr(ds, name + "_test")
    d = spatial.distance.cdist(p, p) + np.diag(np.full(n, np.inf))
    top = float(d.min(axis=1).max())
    sup = np.linspace(0, top * 1.01, 5) + top * 1e-3 * (1 + rng.random())
    hull = ("bbox", "convex", None)[int(rng.integers(3))]
    kw = dict(support=sup, n_simulations=3, n_jobs=1, keep_simulations=True, hull=hull)
    if name == "j":
        kw["truncate"] = False
    seed = int(rng.integers(2**31))
    want = result(mon, seed, fn, p, **kw)
    again = result(mon, seed, fn, p, **kw)
    if not all(np.array_equal(a, b, equal_nan=True) for a, b in zip(want, again, strict=True)):
        mon.feature("state not controllable")
        raise Skip
    fs = forms(mon, rng, p, dt, lists=False)
    for i in rng.permutation(len(fs))[:4]:
        form, x = fs[i]
        got = result(mon, seed, fn, x, **kw)
        match(mon, got, want, 1e-9, f"the same {name} test in every form", form=form, events=p)


@scenario(SCENARIOS, 200, 5000)
def quadrats(mon, rng):
    n = int(rng.choice([6, 15, 60]))
    p, dt = events(mon, rng, n)
    if dt is np.float32:
        dt = np.int32
    shape = str(rng.choice(["rectangle", "hexagon"]))
    w = np.ptp(p, axis=0)
    kw = dict(shape=shape, realizations=int(rng.choice([0, 1, 4])), rng=int(rng.integers(999)))
    if shape == "hexagon":
        kw["lh"] = float(w.max()) / float(rng.choice([1.7, 3.1, 5.3]))
    elif rng.random() < 0.5:
        kw.update(nx=int(rng.integers(1, 6)), ny=int(rng.integers(1, 6)))
        kw["nx"] += kw["nx"] * kw["ny"] == 1
    else:
        kw.update(rectangle_width=float(w[0]) / 2.3, rectangle_height=float(w[1]) / 3.7)

    def run(x):
        q = mon.call(pointpats.QStatistic, x, **kw)
        return dict(
            counts=q.mr.point_location_sta(), cells=list(q.cell_ids), chi2=[q.chi2, q.chi2_pvalue, q.df, getattr(q, "chi2_r_pvalue", 0)],
            contrib=q.chi2_contrib, sims=getattr(q, "chi2_realizations", np.zeros(0)), box=q.mbb,
        )

    want = run(p)
    fs = forms(mon, rng, p, dt)
    pp = [("pattern", pointpats.PointPattern(p)), ("named pattern", pointpats.PointPattern(np.c_[np.arange(n), p], names=["id", "e", "n"], coord_names=["e", "n"]))]
    mon.feature("form:pattern")
    for form, x in [*fs, *pp]:
        if form in ("frame", "list of arrays"):
            continue
        got = run(x)
        mon.expect(got["counts"] == want["counts"] and got["cells"] == want["cells"], "the same counts in every form", form=form, got=got["counts"], want=want["counts"], events=p)
        for k in ("chi2", "contrib", "sims", "box"):
            mon.close(got[k], want[k], "the same quadrat statistic in every form", part=k, form=form, events=p)


@scenario(SCENARIOS, 200, 5000)
def spacetime(mon, rng):
    n = int(rng.choice([6, 12, 25]))
    p, dt = events(mon, rng, n)
    if dt is np.float32:
        dt = np.int32
    hi = 100 if dt in (np.int8, np.uint8) else 60000 if dt in (np.int32, np.uint32, None) else 200 if dt is np.uint16 else 150
    t = rng.integers(0, hi + 1, n)
    d = spatial.distance.pdist(p)
    lo, up = np.sort(np.unique(d))[[len(np.unique(d)) // 3, len(np.unique(d)) // 3 + 1]] if len(np.unique(d)) > 4 else (0, d.max() * 2)
    if up - lo < 1e-6 * up:
        raise Skip
    delta, tau = float(lo + up) / 2, hi // 4 + 0.5
    pm = int(rng.choice([0, 9]))
    seed = int(rng.integers(2**32))
    crs = "EPSG:3857"
    name = str(rng.choice(["knox", "mantel", "jacquez", "modified_knox", "Knox", "KnoxLocal"]))
    tdt = dt or np.int64

    def run(fn, *a, **kw):
        np.random.seed(seed)
        r = mon.call(fn, *a, permutations=pm, **kw)
        if isinstance(r, dict):
            return [float(np.ravel(r[k])[0]) for k in sorted(r)]
        if isinstance(r, pointpats.Knox):
            return [r.nst, getattr(r, "p_sim", 0), r.p_poisson, *np.ravel(r.observed), *np.ravel(r.expected)]
        if isinstance(r, pointpats.KnoxLocal):
            ids = {v: i for i, v in enumerate(r._ids)}
            rows = sorted(zip(r.adjlist.focal.map(ids), r.adjlist.neighbor.map(ids), r.adjlist.orientation, strict=True))
            return [r.nst, getattr(r, "p_sim", 0), *r.nsti, *r.p_hypergeom, *getattr(r, "p_sims", []), *[v for row in rows for v in (row[0], row[1], len(row[2]))]]
        return [float(r)]

    fn = getattr(pointpats, name)
    extra = dict(knox=(delta, tau), modified_knox=(delta, tau), mantel=(), jacquez=(2,), Knox=(delta, tau), KnoxLocal=(delta, tau))[name]
    if name == "jacquez":
        # neighbours must not depend on the breaking of ties
        t = rng.permutation(n) ** 2
        dd = spatial.distance.cdist(p, p)
        if any(np.min(np.diff(np.sort(r))) < 1e-9 * max(dd.max(), 1) for r in dd) or any(np.min(np.diff(np.sort(np.abs(t - v)))) == 0 for v in t):
            raise Skip
        if t.max() > 120:
            tdt = np.int32
    s0, t0 = p, t.reshape(-1, 1).astype(float)
    want = run(fn, s0, t0, *extra)
    for form, x in forms(mon, rng, p, dt, geo=False, lists=False):
        tt = gen.array_layout(rng, np.c_[t, t].astype(tdt))[0][:, :1] if rng.random() < 0.7 else t0
        mon.close(run(fn, x, tt, *extra), want, f"the same {name} in every form", rtol=1e-8, form=form, times=str(tt.dtype), events=p)
    if name == "knox":
        mon.close(run(fn, p.tolist(), t.reshape(-1, 1).tolist(), *extra), want, "the same knox in every form", form="lists", events=p)
    if name in ("Knox", "KnoxLocal"):
        g = gen.geoframe(rng, p, crs)
        col = ("time", "when", "t")[int(rng.integers(3))]
        g[col] = t.astype(tdt)
        mon.feature("form:space-time frame")
        mon.close(run(fn.from_dataframe, g, col, *extra), want, f"the same {name} from frames", rtol=1e-8, form=g.geometry.name, events=p)


@scenario(SCENARIOS, 200, 5000)
def patterns_and_boxes(mon, rng):
    n = int(rng.choice([5, 12, 30]))
    p, dt = events(mon, rng, n)
    if dt is np.float32:
        dt = np.int32
    names = ("n", "mbb", "mbb_area", "rot", "hull", "hull_area", "lambda_mbb", "lambda_hull", "lambda_window", "nnd", "min_nnd", "mean_nnd", "max_nnd")

    def read(x):
        q = mon.call(pointpats.PointPattern, x)
        out = {k: np.asarray(getattr(q, k), float) for k in names}
        h = out["hull"]
        out["hull"] = h[np.lexsort(h.T)]
        out["knn"] = np.asarray(q.knn(1)[1], float)
        out["window"] = np.asarray(q.window.area, float)
        return out

    want = read(p)
    for form, x in forms(mon, rng, p, dt, geo=False):
        got = read(x)
        for k in want:
            mon.close(got[k], want[k], "the same descriptors in every form", rtol=1e-8, atol=0, part=k, form=form, events=p)
    # boxes
    b = np.r_[p.min(axis=0), p.max(axis=0)]
    boxes = [gen.array_layout(rng, np.c_[b, b])[0][:, 0], b.astype(dt) if dt is not None else b]
    x, y = (p.mean(axis=0) + (rng.random(2) - 0.5) * np.ptp(p, axis=0) * 1.5).tolist()
    poly = shapely.box(*b)
    for v in boxes:
        mon.close([geo.area(v), geo.area(v.tolist())], [geo.area(b)] * 2, "the same area of every box", box=v)
        mon.close(geo.area(v), poly.area, "the same area of every box", box=v, rtol=1e-9)
        mon.close(np.asarray(geo.bbox(v), float), b, "the same box")
        mon.close(np.asarray(geo.centroid(v), float), geo.centroid(b), "the same centroid of every box", box=v)
        mon.expect(bool(geo.contains(v, x, y)) == bool(geo.contains(b, x, y)), "the same containment in every box", box=v)
    seed = int(rng.integers(999))
    sim = str(rng.choice(["poisson", "normal", "cluster_poisson", "cluster_normal"]))
    fn = getattr(rnd, sim)
    kw = dict(size=(6, 2), rng=seed)
    if sim == "cluster_poisson":
        kw["cluster_radius"] = float(np.ptp(p, axis=0).min()) / 5
    want = mon.call(fn, b, **kw)
    for v in (*boxes, poly):
        mon.close(mon.call(fn, v, **kw), want, "the same simulation in every box", form=type(v).__name__, rtol=1e-7, box=v)
