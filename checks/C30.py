"""Random histories of public calls over one pool of shared objects (arrays, some read-only,
lists, frames, geometries, patterns, windows, trees, matrices, dictionaries): a deep snapshot
of the whole pool, of every earlier result, of the default arguments and of the constants of
the package is compared after every call, and deterministic calls are repeated at the end of
the history with equal results."""

import inspect
import io
import pkgutil
import importlib
from contextlib import redirect_stdout

import geopandas as gpd
import libpysal
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
import pointpats
import shapely
from pointpats import centrography as cen
from pointpats import distance_statistics as ds
from pointpats import geometry as geo
from pointpats import random as rnd
from scipy import spatial

from pv import gen
from pv.core import Skip, scenario
from pv.freeze import freeze, where

FILES = [
    "centrography.py", "pointpattern.py", "distance_statistics.py", "geometry.py", "random.py",
    "quadrat_statistics.py", "spacetime.py", "kde.py", "process.py", "window.py",
]
ASSUMPTIONS = [
    "the state of a pattern is its frame, coordinates, column names and window; lazily computed descriptors are not state",
    "generators given as rng advance, axes given to plots are drawn on",
]
SCENARIOS = []
plt.rcParams["figure.max_open_warning"] = 0


# --- the package's own mutable state: default arguments and constants ------
def _modules():
    out = [pointpats]
    for m in pkgutil.iter_modules(pointpats.__path__):
        if m.name not in ("tests",):
            out.append(importlib.import_module(f"pointpats.{m.name}"))
    return out


def _functions():
    seen = {}
    for m in _modules():
        for k, v in vars(m).items():
            if inspect.isfunction(v) and v.__module__.startswith("pointpats"):
                seen[f"{m.__name__}.{k}"] = v
            elif inspect.isclass(v) and v.__module__.startswith("pointpats"):
                for kk, vv in vars(v).items():
                    vv = getattr(vv, "__func__", vv)
                    if inspect.isfunction(vv):
                        seen[f"{m.__name__}.{k}.{kk}"] = vv
            if hasattr(v, "registry") and hasattr(v, "dispatch"):
                for t, fn in v.registry.items():
                    seen[f"{m.__name__}.{k}[{t}]"] = fn
    return seen


FUNCTIONS = _functions()


def package_state():
    d = {
        k: (freeze(v.__defaults__), freeze(v.__kwdefaults__))
        for k, v in FUNCTIONS.items()
        if getattr(v, "__defaults__", None) or getattr(v, "__kwdefaults__", None)
    }
    for m in _modules():
        for k, v in vars(m).items():
            if isinstance(v, list | tuple | set | np.ndarray | int | float) and not k.startswith("__"):
                d[f"{m.__name__}:{k}"] = freeze(v)
            elif isinstance(v, dict) and not k.startswith("__"):
                d[f"{m.__name__}:{k}"] = freeze(list(v))
    return d


# --- the pool ---------------------------------------------------------------
def locked(rng, a, p=0.4):
    """an array, perhaps read-only"""
    a = np.array(a)
    if rng.random() < p:
        a.setflags(write=False)
    return a


def world(mon, rng):
    n = int(rng.choice([12, 15, 20, 45], p=[0.3, 0.3, 0.3, 0.1]))
    kind = ("uniform", "normal", "clusters", "duplicates", "gridlike", "lattice")
    p = gen.points(rng, n, kinds=kind, mon=mon)
    if not gen.noncollinear(p, 0.05) or len(np.unique(p, axis=0)) < 5:
        raise Skip
    ext = np.ptp(p, axis=0)
    if gen.mag(p) > 1e4 * ext.min():
        raise Skip
    W = {}
    a, how = gen.array_layout(rng, p)
    mon.feature("array:" + how)
    W["a"] = a
    W["whole"] = locked(rng, np.round((p - p.min(axis=0)) / ext.max() * 9).astype(str(rng.choice(["int64", "int64", "int32", "uint16"]))))
    W["list"] = p.tolist()
    W["tuples"] = tuple(map(tuple, p.tolist()))
    W["frame"] = pd.DataFrame(p, columns=["east", "north"], index=gen.odd_index(rng, n))
    W["gs"] = gen.geoseries(rng, p, "EPSG:3857")
    W["gdf"] = gen.geoframe(rng, p)
    W["mp"] = gen.multipoints(rng, p)
    w = rng.integers(1, 9, n)
    W["weights"] = (locked(rng, w), locked(rng, w * 0.5), w.tolist())[int(rng.integers(3))]
    # patterns and what they are made of
    W["names"] = ["px", "py", "kind", "size"]
    W["cnames"] = ["px", "py"] if rng.random() < 0.7 else None
    W["table"] = pd.DataFrame({"a": p[:, 0], "b": p[:, 1], "c": rng.integers(0, 3, n), "d": rng.random(n)})
    W["matrix"] = locked(rng, np.c_[p, rng.integers(0, 3, n)])
    W["marks"] = [list(range(n)), locked(rng, rng.random(n))]
    W["mark_names"] = ["m1", "m2"]
    lo, hi = p.min(axis=0) - ext * 0.1, p.max(axis=0) + ext * 0.1
    W["bbox_list"] = [*map(float, lo), *map(float, hi)]
    W["bbox"] = locked(rng, np.r_[lo, hi])
    W["ring"] = [(lo[0], lo[1]), (lo[0], hi[1]), (hi[0], hi[1]), (hi[0], lo[1])]
    c = (lo + hi) / 2
    W["holes"] = [[tuple(c), tuple(c + ext * [0.05, 0]), tuple(c + ext * [0.05, 0.05]), tuple(c)]]
    W["parts"] = [[tuple(map(float, v)) for v in (*W["ring"], W["ring"][0])]]
    W["polygon"] = libpysal.cg.Polygon(list(W["parts"][0]))
    W["window"] = pointpats.Window([list(W["parts"][0])])
    W["pp"] = pointpats.PointPattern(p.copy(), window=W["window"] if rng.random() < 0.5 else None)
    m = np.c_[p, rng.integers(0, 3, n)]
    mf = m if rng.random() < 0.5 else pd.DataFrame(m, index=rng.permutation(n) * 3)
    W["marked"] = pointpats.PointPattern(mf, names=["u", "v", "k"], coord_names=["u", "v"])
    W["marked2"] = pointpats.PointPattern(m[: n // 2] + [ext[0] / 3, 0, 0], names=["u", "v", "k"], coord_names=["u", "v"])
    W["others"] = [tuple(x) for x in (p[:4] + ext * 0.01).tolist()]
    # distance statistics
    d = spatial.distance.cdist(p, p)
    top = float(d.max())
    W["D"] = locked(rng, d)
    W["Dint"] = locked(rng, np.ceil(d / top * 20).astype(int))
    W["pd"] = locked(rng, spatial.distance.pdist(p))
    dd = d + np.diag(np.full(n, np.inf))
    W["nn"] = locked(rng, dd.min(axis=1))
    W["empty"] = locked(rng, spatial.distance.cdist(p, rng.uniform(lo, hi, (40, 2))))
    W["empty_nn"] = locked(rng, W["empty"].min(axis=0))
    W["pair"] = (W["nn"], W["empty_nn"])
    s = np.linspace(0, top * 0.6, int(rng.integers(3, 12)))
    W["support"] = (locked(rng, s), s.tolist(), (0.0, top / 2), (0.0, top / 2, 7), 6)[int(rng.integers(5))]
    W["support_array"] = locked(rng, s)
    # shapes
    W["poly"] = shapely.box(*lo, *hi)
    W["holed"] = shapely.Polygon(shapely.box(*lo, *hi).exterior.coords, [W["holes"][0]])
    W["convex"] = spatial.ConvexHull(p)
    W["sktree"] = geo.build_best_tree(p, "euclidean")
    W["sctree"] = spatial.KDTree(p)
    # simulators
    r = float(ext.min()) / 8
    W["radii"] = [r, r / 2, r / 3] if rng.random() < 0.5 else locked(rng, [r, r / 2, r / 3])
    v = float(ext.min()) ** 2 / 16
    W["cov"] = locked(rng, np.diag([v, v]))
    W["covs"] = locked(rng, np.array([np.diag([v, v / 2]), np.diag([v, 2 * v])]))
    W["center"] = locked(rng, c)
    # space and time
    t = rng.integers(0, 30, n)
    W["t"] = locked(rng, t.reshape(-1, 1).astype(str(rng.choice(["int64", "int32", "uint8"]))))
    W["s"] = locked(rng, p)
    W["tf"] = locked(rng, t.reshape(-1, 1) * 1.0)
    W["events"] = gpd.GeoDataFrame({"when": t, "z": 1.0}, geometry=gpd.points_from_xy(*p.T), index=gen.odd_index(rng, n), crs="EPSG:3857")
    W["ids"] = [f"id{i}" for i in range(n)] if rng.random() < 0.5 else locked(rng, np.arange(n) + 100)
    W["delta"] = float(np.quantile(d[np.triu_indices(n, 1)], 0.3))
    W["tau"] = 8.0
    W["colors"] = {"focal": "blue", "neighbor": "green", "nonsig": "black"}
    W["point_kwargs"] = {"markersize": 5}
    W["edge_kwargs"] = {"linewidth": 2}
    W["style_kwds"] = {"radius": 4}
    k = pointpats.KnoxLocal(W["s"], W["t"], W["delta"], W["tau"], permutations=19, keep=True, ids=W["ids"])
    W["knox_local"] = k
    # plots
    W["levels"] = [0.1, 0.2, 0.5] if rng.random() < 0.3 else 5
    W["kde_kwargs"] = {"linewidths": [1.0, 2.0]}
    W["top"], W["n"], W["p"] = top, n, p
    return W


# --- the calls: (function, arguments, keywords, deterministic) ---------------
def any_events(rng, W, *names):
    return W[names[int(rng.integers(len(names)))]]


FORMS = ("a", "list", "tuples", "gs", "gdf", "mp", "whole")


def centrography(rng, W):
    x = any_events(rng, W, *FORMS)
    name = str(rng.choice([
        "hull", "mean_center", "weighted_mean_center", "manhattan_median", "std_distance", "euclidean_median", "ellipse",
        "minimum_rotated_rectangle", "minimum_bounding_rectangle", "minimum_bounding_circle", "dtot",
    ]))
    fn = getattr(pointpats, name)
    kw = {}
    if name == "weighted_mean_center":
        return fn, (x, W["weights"]), {}, True
    if name == "dtot":
        if isinstance(x, gpd.base.GeoPandasBase):
            return fn, (shapely.Point(W["center"]), x), {}, True
        return fn, (W["center"], np.asarray(x)) if rng.random() < 0.5 else (W["center"].tolist(), x), {}, True
    if name == "ellipse":
        if rng.random() < 0.6:
            kw["weights"] = W["weights"]
        kw["method"] = str(rng.choice(["crimestat", "yuill", "Yuill"]))
    if name == "minimum_rotated_rectangle":
        kw["return_angle"] = bool(rng.random() < 0.5)
    return fn, (x,), kw, True


def shapes(rng, W):
    s = any_events(rng, W, "bbox", "poly", "holed", "convex")
    k = int(rng.integers(0, 9))
    if k == 0:
        return geo.area, (s,), {}, True
    if k == 1:
        return geo.area, (W["bbox_list"],), {}, True
    if k == 2:
        return geo.bbox, (any_events(rng, W, "bbox", "bbox_list", "poly", "convex", "a", "list"),), {}, True
    if k == 3:
        return geo.contains, (s, float(W["center"][0]), float(W["center"][1])), {}, True
    if k == 4:
        return geo.centroid, (any_events(rng, W, "bbox", "poly", "holed", "convex", "a"),), {}, True
    if k == 5:
        m = str(rng.choice(["euclidean", "cityblock", "haversine"]))
        return geo.build_best_tree, (any_events(rng, W, "a", "list", "whole"), m), {}, True
    if k == 6:
        return geo.k_neighbors, (any_events(rng, W, "sktree", "sctree"), W["p"], int(rng.integers(1, 5))), {}, True
    h = (None, "bbox", "convex", "alpha", W["bbox"], W["poly"], W["convex"])[int(rng.integers(7))]
    return geo.prepare_hull, (W["a"], h), {}, True


def ripley(rng, W):
    name = str(rng.choice(["f", "g", "j", "k", "l"]))
    fn = getattr(ds, name)
    x = any_events(rng, W, "a", "list", "gs", "gdf", "mp")
    kw = {"support": W["support"]}
    det = name in ("g", "k", "l")
    n = W["n"]
    if rng.random() < 0.6:
        if name == "f":
            kw["distances"] = any_events(rng, W, "empty", "empty_nn")
        elif name == "g":
            kw["distances"] = any_events(rng, W, "D", "Dint", "nn")
        elif name == "j":
            kw["distances"] = W["pair"] if rng.random() < 0.5 else (W["D"], W["empty"])
        else:
            kw["distances"] = any_events(rng, W, "D", "Dint", "pd")
        det = True
    elif rng.random() < 0.3:
        kw["metric"] = "cityblock"
    if name in ("f", "j") and rng.random() < 0.6:
        kw["hull"] = any_events(rng, W, "bbox", "poly", "convex")
    if name in ("f", "g", "k") and rng.random() < 0.2 and "metric" not in kw:
        x = any_events(rng, W, "sktree", "sctree")
    if name == "l":
        kw["linearized"] = bool(rng.random() < 0.5)
    if name == "j":
        kw["truncate"] = bool(rng.random() < 0.7)
        if "distances" in kw and isinstance(W["support"], list | tuple | int):
            kw["support"] = W["support_array"]
    return fn, (x,), kw, det


def ripley_test(rng, W):
    name = str(rng.choice(["f", "g", "j", "k", "l"]))
    fn = getattr(ds, name + "_test")
    x = any_events(rng, W, "a", "gs", "gdf", "whole")
    kw = dict(support=W["support_array"] if name == "j" else W["support"], n_simulations=4, n_jobs=1, keep_simulations=bool(rng.random() < 0.5))
    kw["hull"] = (None, "convex", W["bbox"], W["poly"])[int(rng.integers(4))]
    return fn, (x,), kw, False


def simulate(rng, W):
    h = any_events(rng, W, "bbox", "poly", "holed", "convex", "a")
    seed = int(rng.integers(1000))
    k = int(rng.integers(0, 6))
    size = (15, 2) if rng.random() < 0.5 else 12
    if k == 0:
        return rnd.poisson, (h,), dict(size=size, rng=seed), True
    if k == 1:
        c = (None, W["cov"], float(W["cov"][0, 0]))[int(rng.integers(3))]
        return rnd.normal, (h,), dict(center=W["center"] if rng.random() < 0.5 else None, cov=c, size=size, rng=seed), True
    if k == 2:
        return rnd.normal, (h,), dict(center=W["center"], cov=W["covs"], size=(8, 2), rng=seed), True
    if k == 3:
        r = (W["radii"], W["radii"], None, float(W["radii"][0]))[int(rng.integers(4))]
        return rnd.cluster_poisson, (h,), dict(size=size, n_seeds=3, cluster_radius=r, rng=seed), True
    if k == 4:
        c = W["cov"] if rng.random() < 0.5 else None
        return rnd.cluster_normal, (h,), dict(size=size, n_seeds=2, cov=c, rng=seed), True
    return rnd.strauss, (h,), dict(size=8, gamma=0.8, r=float(W["radii"][1]) / 4, n_iter=40, max_iter=50, rng=seed), True


def construct(rng, W):
    """a pattern of its own, changed by its own setters only"""
    k = int(rng.integers(0, 6))

    def build():
        if k == 0:
            q = pointpats.PointPattern(W["table"], names=W["names"], coord_names=W["cnames"])
        elif k == 1:
            q = pointpats.PointPattern(W["matrix"], coord_names=W["cnames"])
        elif k == 2:
            q = pointpats.PointPattern(W["a"], window=W["window"])
        elif k == 3:
            q = pointpats.PointPattern(W["list"])
        elif k == 4:
            q = pointpats.PointPattern(W["frame"])
        else:
            q = pointpats.PointPattern(W["table"])
        q.add_marks(W["marks"], W["mark_names"] if k % 2 else None)
        q.hull, q.mbb, q.tree, q.lambda_window
        q.window = W["window"]
        q.flip_coordinates()
        return q

    build.__qualname__ = "PointPattern+setters"
    return build, (), {}, True


def derived(rng, W):
    """a pattern made from another one, then changed by its own setters"""
    k = int(rng.integers(0, 3))

    def build():
        if k == 0:
            qs = [W["marked"].unique()]
        elif k == 1:
            qs = W["marked"].explode("k")
        else:
            qs = [W["marked"].superimpose(W["marked2"])]
        for q in qs:
            q.add_marks([list(range(len(q)))], ["extra"])
            q.window = W["window"]
            q.flip_coordinates()
        return qs

    build.__qualname__ = "derived+setters"
    return build, (), {}, True


def pattern(rng, W):
    q = any_events(rng, W, "pp", "marked")
    k = int(rng.integers(0, 11))
    if k == 0:
        return q.unique, (), {}, True
    if k == 1:
        return W["marked"].explode, ("k",), {}, True
    if k == 2:
        return W["marked"].superimpose, (W["marked2"],), {}, True
    if k == 3:
        return q.knn, (int(rng.integers(1, 4)),), {}, True
    if k == 4:
        return q.knn_other, (any_events(rng, W, "others", "marked2", "pp"), int(rng.integers(1, 4))), {}, True
    if k == 5:
        return q.find_pairs, (W["top"] * 0.2,), {}, True
    if k == 6:
        return q.plot, (), dict(window=True, hull=True, get_ax=True), False
    if k == 7:
        return q.__contains__, (W["others"][0],), {}, True
    if k == 8:
        def read():
            with redirect_stdout(io.StringIO()):
                q.summary()
            names = ("n", "mbb", "mbb_area", "rot", "hull", "hull_area", "lambda_mbb", "lambda_hull", "lambda_window", "nnd", "min_nnd", "mean_nnd", "max_nnd")
            return [np.array(getattr(q, x)) for x in names]

        return read, (), {}, True
    if k == 9:
        return q.head, (), {}, True
    return q.get_window, (), {}, True


def windows(rng, W):
    k = int(rng.integers(0, 6))
    if k == 0:
        return pointpats.to_ccf, (W["ring"],), {}, True
    if k == 1:
        return pointpats.poly_from_bbox, (any_events(rng, W, "bbox", "bbox_list"),), {}, True
    if k == 2:
        return pointpats.as_window, (any_events(rng, W, "polygon", "window"),), {}, True
    if k == 3:
        return pointpats.Window, (W["parts"],) if rng.random() < 0.5 else (W["parts"], W["holes"]), {}, True
    return W["window"].filter_contained, (any_events(rng, W, "list", "a", "others"),), {}, True


def process(rng, W):
    asPP = bool(rng.random() < 0.5)
    if rng.random() < 0.5:
        return pointpats.PoissonPointProcess, (W["window"], 10, 2), dict(asPP=asPP, conditioning=bool(rng.random() < 0.3)), True
    return pointpats.PoissonClusterPointProcess, (W["window"], 10, 2, float(W["radii"][0]), 2), dict(asPP=asPP, keep=bool(rng.random() < 0.5)), True


def quadrats(rng, W):
    x = any_events(rng, W, "a", "list", "gs", "gdf", "mp", "pp", "marked", "whole")
    k = int(rng.integers(0, 4))
    w = W["poly"] if x is not W["whole"] and rng.random() < 0.5 else None
    if k == 0:
        def go(cls, *args, **kw):
            m = cls(*args, **kw)
            first = m.point_location_sta()
            m.plot()
            m.plot(show="chi2", chi2_contrib=np.arange(len(first)))
            return m, first, m.point_location_sta()

        if rng.random() < 0.5:
            return go, (pointpats.RectangleM, x, 3, 2), dict(window=w), True
        return go, (pointpats.HexagonM, x, 2.0 if x is W["whole"] else W["top"] / 3), dict(window=w), True

    def test(*args, **kw):
        q = pointpats.QStatistic(*args, **kw)
        first = dict(chi2=q.chi2, p=q.chi2_pvalue, contrib=q.chi2_contrib, sims=getattr(q, "chi2_realizations", None), df=q.df)
        q.plot()
        q.plot(show="chi2")
        later = dict(chi2=q.chi2, p=q.chi2_pvalue, contrib=q.chi2_contrib, sims=getattr(q, "chi2_realizations", None), df=q.df)
        if freeze(first) != freeze(later):
            raise AssertionError("plotting changed the statistic")
        return first

    kw = dict(realizations=int(rng.choice([0, 3])), rng=int(rng.integers(99)), window=w)
    if rng.random() < 0.5:
        return test, (x,), dict(shape="rectangle", nx=2, ny=3, **kw), True
    return test, (x,), dict(shape="hexagon", lh=2.0 if x is W["whole"] else W["top"] / 3, **kw), True


def spacetime(rng, W):
    k = int(rng.integers(0, 9))
    st = (any_events(rng, W, "s", "whole"), any_events(rng, W, "t", "tf"))
    delta = W["delta"] if st[0] is not W["whole"] else 3
    pm = int(rng.choice([0, 9]))
    if k == 0:
        t = any_events(rng, W, "t", "tf") if rng.random() < 0.7 else W["t"].tolist()
        return pointpats.knox, (st[0], t, delta, W["tau"]), dict(permutations=pm), True
    if k == 1:
        return pointpats.mantel, (*st,), dict(permutations=pm, spow=1.0, tpow=1.0) if rng.random() < 0.5 else dict(permutations=pm), True
    if k == 2:
        return pointpats.jacquez, (*st, 3), dict(permutations=pm), True
    if k == 3:
        return pointpats.modified_knox, (*st, delta, W["tau"]), dict(permutations=pm), True
    if k in (4, 5):
        return pointpats.Knox, (*st, delta, W["tau"]), dict(permutations=pm, keep=bool(pm)), True
    if k == 6:
        return pointpats.Knox.from_dataframe, (W["events"], "when", W["delta"], W["tau"]), dict(permutations=pm), True
    if k == 7:
        return pointpats.KnoxLocal, (*st, delta, W["tau"]), dict(permutations=pm, keep=bool(pm), ids=W["ids"]), True
    return pointpats.KnoxLocal.from_dataframe, (W["events"], "when", W["delta"], W["tau"]), dict(permutations=pm), True


def hotspots(rng, W):
    q = W["knox_local"]
    k = int(rng.integers(0, 4))
    crit = float(rng.choice([0.05, 0.3, 0.8]))
    inference = str(rng.choice(["permutation", "analytic"]))
    # (without any neighbouring pair there is nothing to draw)
    if not len(q.adjlist):
        raise Skip
    if k < 2:
        return q.hotspots, (), dict(crit=crit, inference=inference, keep_neighbors=bool(rng.random() < 0.5)), True
    p = q.p_sims if inference == "permutation" else q.p_hypergeom
    if not (p <= crit).any() or (p <= crit).all():
        return q.hotspots, (), dict(crit=crit, inference=inference), True
    kw = dict(crit=crit, inference=inference, plot_edges=bool(rng.random() < 0.5))
    if rng.random() < 0.6:
        kw["colors"] = W["colors"]
    if k == 2:
        return q.plot, (), dict(kw, point_kwargs=W["point_kwargs"], edge_kwargs=W["edge_kwargs"]), False
    nonsig = len(set(q._ids)) - (p <= crit).sum()
    foc = np.asarray(q._ids)[p <= crit]
    nb = set(q.adjlist[q.adjlist.focal.isin(foc)].neighbor) - set(foc)
    if not nb or nonsig - len(nb) < 1:
        return q.hotspots, (), dict(crit=crit, inference=inference), True
    return q.explore, (), dict(kw, style_kwds=W["style_kwds"] if rng.random() < 0.5 else None), False


def density(rng, W):
    x = any_events(rng, W, "a", "gs", "gdf", "mp")
    kw = dict(levels=W["levels"] if isinstance(W["levels"], int) else [v / W["top"] ** 2 for v in W["levels"]], resolution=12)
    if isinstance(W["levels"], list):
        kw["levels"] = W["levels"]
    if rng.random() < 0.5:
        kw["fill"] = True
    kw["return_contourset"] = True
    return pointpats.plot_density, (x, W["top"] / 6), kw, False


CATALOGUE = {
    "centrography": (centrography, 4), "shapes": (shapes, 3), "ripley": (ripley, 4), "ripley_test": (ripley_test, 1), "simulate": (simulate, 2),
    "construct": (construct, 2), "derived": (derived, 2), "pattern": (pattern, 3), "windows": (windows, 2), "process": (process, 1),
    "quadrats": (quadrats, 2), "spacetime": (spacetime, 3), "hotspots": (hotspots, 2), "density": (density, 1),
}


def history(mon, rng, steps, only=None):
    W = world(mon, rng)
    before = {k: freeze(v) for k, v in W.items()}
    pkg = package_state()
    names = [k for k in CATALOGUE if only is None or k in only]
    weight = np.array([CATALOGUE[k][1] for k in names], float)
    weight /= weight.sum()
    done = []

    def pure(what):
        for k, v in W.items():
            now = freeze(v)
            mon.expect(now == before[k], "no call alters its arguments", after=what, object=k, change=where(before[k], now))
        for w, out, snap in done:
            now = freeze(out)
            mon.expect(now == snap, "no call alters an earlier result", after=what, result_of=w, change=where(snap, now))
        now = package_state()
        if now != pkg:
            k = next(k for k in pkg if pkg.get(k) != now.get(k))
            mon.fail("a call altered the package's own defaults", after=what, object=k, change=where(pkg[k], now.get(k)))
        mon.oracle("defaults and constants unchanged")

    repeat = []
    for _ in range(steps):
        name = names[int(rng.choice(len(names), p=weight))]
        fn, args, kw, det = CATALOGUE[name][0](rng, W)
        what = f"{getattr(fn, '__qualname__', fn)}"
        mon.feature("call:" + name + ":" + what.split(".<locals>.")[-1])
        seed = int(rng.integers(2**32))
        np.random.seed(seed)
        with redirect_stdout(io.StringIO()):
            try:
                out = mon.call(fn, *args, **kw)
            except ValueError as e:
                if "read-only" in str(e) or "read only" in str(e):
                    mon.fail("a call wrote into a read-only argument", call=what, error=repr(e), args=args, kwargs=kw)
                raise
        plt.close("all")
        snap = freeze(out)
        pure(what)
        done.append((what, out, snap))
        if det:
            repeat.append((what, fn, args, kw, seed, snap))
    # repeating gives the same, in any order and whatever was called between
    for i in rng.permutation(len(repeat)):
        what, fn, args, kw, seed, snap = repeat[i]
        np.random.seed(seed)
        with redirect_stdout(io.StringIO()):
            out = mon.call(fn, *args, **kw)
        plt.close("all")
        now = freeze(out)
        mon.expect(now == snap, "a repeated call gives the same result", call=what, args=args, kwargs=kw, change=where(snap, now))
        pure("repeated " + what)


@scenario(SCENARIOS, 120, 2400)
def mixed_histories(mon, rng):
    history(mon, rng, int(rng.integers(4, 10)))


@scenario(SCENARIOS, 60, 1200)
def statistics_histories(mon, rng):
    history(mon, rng, 6, ("centrography", "shapes", "ripley", "spacetime", "quadrats"))


@scenario(SCENARIOS, 60, 1200)
def pattern_histories(mon, rng):
    history(mon, rng, 8, ("construct", "derived", "pattern", "windows", "process"))


# --- one call with arrays of any size, layout and type ----------------------
def laid_out(rng, a):
    """the same values in some type and memory layout, sometimes read-only"""
    a = np.asarray(a)
    if rng.random() < 0.3 and a.dtype.kind == "f":
        a = a.astype("float32")
    k = int(rng.integers(0, 4))
    if k == 0 and a.ndim == 2:
        a = np.asfortranarray(a)
    elif k == 1:
        big = np.zeros((2 * len(a), *a.shape[1:]), a.dtype)
        big[::2] = a
        a = big[::2]
    elif k == 2:
        a = np.ascontiguousarray(a[::-1])[::-1]
    else:
        a = a.copy()
    if rng.random() < 0.3:
        a.setflags(write=False)
    return a


def quadrat_test(*a, **kw):
    q = pointpats.QStatistic(*a, **kw)
    return q.chi2, q.chi2_pvalue, q.chi2_contrib, q.chi2_realizations, q.chi2_r_pvalue, q.df, q.mr


def array_requests(mon, rng, n, laid_out=laid_out):
    """calls of every function that takes arrays, over one set of arrays"""
    p = gen.points(rng, n, kinds=("uniform", "normal", "clusters", "gridlike"), mon=mon)
    ext = np.ptp(p, axis=0)
    if not gen.noncollinear(p, 0.05) or gen.mag(p) > 1e3 * ext.min() or len(np.unique(p.astype("float32"), axis=0)) < 4:
        raise Skip
    x = laid_out(rng, p)
    kinds = ("int64", "int32", "uint8", "float64", "float32")
    w = laid_out(rng, (rng.integers(1, 9, n) * (1 if rng.random() < 0.5 else 1.5)).astype(str(rng.choice(kinds))))
    t = laid_out(rng, rng.integers(0, 40, (n, 1)).astype(str(rng.choice(kinds))))
    flat, line = laid_out(rng, np.ravel(t).copy()), laid_out(rng, p[:, 0].copy())
    s = laid_out(rng, np.linspace(0, float(ext.max()) / 3, 6))
    d = laid_out(rng, spatial.distance.cdist(p, p))
    nn = laid_out(rng, (np.asarray(d, float) + np.diag(np.full(n, np.inf))).min(axis=1))
    box = laid_out(rng, np.r_[p.min(axis=0), p.max(axis=0)].astype(float))
    q = laid_out(rng, p.mean(axis=0))
    v = float(ext.min()) ** 2 / 16
    cov = laid_out(rng, np.diag([v, v / 2]))
    covs = laid_out(rng, np.array([np.diag([v, v / 2]), np.diag([v / 3, v])]))
    delta, tau = float(ext.max()) / 8, 4
    r = float(ext.min()) / 9
    radii = laid_out(rng, [r, r / 2])
    lh = float(ext.max()) / 3
    calls = [
        *((getattr(cen, k), (x,), {}) for k in (
            "hull", "mean_center", "manhattan_median", "std_distance", "euclidean_median", "minimum_rotated_rectangle",
            "minimum_bounding_rectangle", "minimum_bounding_circle",
        )),
        (cen.weighted_mean_center, (x, w), {}), (cen.ellipse, (x, w), {}), (cen.ellipse, (x,), dict(method="yuill")), (cen.dtot, (q, x), {}),
        (ds.g, (x, s, d), {}), (ds.g, (x, s, nn), {}), (ds.g, (x, s), {}), (ds.f, (x, s, d), {}), (ds.f, (x, s, nn), {}),
        (ds.k, (x, s, d), {}), (ds.k, (x, s), {}), (ds.l, (x, s), dict(distances=d)),
        (geo.bbox, (x,), {}), (geo.area, (box,), {}), (geo.centroid, (x,), {}), (geo.centroid, (box,), {}), (geo.prepare_hull, (x, box), {}),
        (geo.prepare_hull, (x, "convex"), {}), (geo.build_best_tree, (x, "cityblock"), {}), (geo.contains, (box, float(q[0]), float(q[1])), {}),
        (geo.k_neighbors, (spatial.KDTree(p), x, 2), {}),
        (rnd.poisson, (box,), dict(size=9, rng=3)), (rnd.poisson, (x,), dict(size=(5, 2), rng=3)),
        (rnd.normal, (box, q, cov), dict(size=(5, 2), rng=3)), (rnd.normal, (box, q, covs), dict(size=(5, 2), rng=3)),
        (rnd.cluster_normal, (box, cov), dict(size=9, rng=3)), (rnd.cluster_poisson, (x,), dict(size=9, n_seeds=2, cluster_radius=radii, rng=3)),
        (pointpats.Knox, (x, t, delta, tau), dict(permutations=2, keep=True)), (pointpats.KnoxLocal, (x, t, delta, tau), dict(permutations=2)),
        (pointpats.knox, (x, t, delta, tau), dict(permutations=2)), (pointpats.modified_knox, (x, t, delta, tau), dict(permutations=2)),
        (pointpats.mantel, (x, flat), dict(permutations=2)), (pointpats.mantel, (line, t), dict(permutations=2)),
        (pointpats.modified_knox, (x, flat, delta, tau), dict(permutations=2)), (pointpats.modified_knox, (line, t, delta, tau), dict(permutations=2)),
        (pointpats.mantel, (x, t), dict(permutations=2)), (pointpats.jacquez, (x, t, 2), dict(permutations=2)),
        (pointpats.RectangleM, (x, 3, 3), {}), (pointpats.HexagonM, (x, lh), {}), (quadrat_test, (x,), dict(nx=2, ny=2, realizations=2, rng=1)),
        (quadrat_test, (x,), dict(shape="hexagon", lh=lh, realizations=2, rng=1)), (pointpats.PointPattern, (x,), {}),
    ]
    return [c for c in calls if n <= 80 or c[0] not in (pointpats.KnoxLocal, pointpats.jacquez, pointpats.mantel)]


@scenario(SCENARIOS, 500, 10000)
def array_calls(mon, rng):
    n = int(rng.choice([4, 9, 30, 80, 300], p=[0.2, 0.3, 0.2, 0.2, 0.1]))
    calls = array_requests(mon, rng, n)
    for i in rng.choice(len(calls), 3, replace=False):
        fn, a, kw = calls[i]
        name = getattr(fn, "__qualname__", repr(fn))
        mon.feature("arrays:" + name)
        before = freeze((a, kw))
        outs = []
        for _ in range(2):
            np.random.seed(5)
            try:
                with redirect_stdout(io.StringIO()):
                    out = mon.call(fn, *a, **kw)
            except ValueError as e:
                if "read-only" in str(e) or "read only" in str(e):
                    mon.fail("a call wrote into a read-only argument", call=name, error=repr(e), args=a, kwargs=kw)
                raise
            now = freeze((a, kw))
            mon.expect(now == before, "no call alters its arguments", after=name, change=where(before, now))
            outs.append(freeze(out))
        mon.expect(outs[0] == outs[1], "a repeated call gives the same result", call=name, change=where(*outs))
