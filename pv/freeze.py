"""Deep snapshots of objects, to see whether a call altered them."""

import hashlib

import geopandas as gpd
import libpysal
import numpy as np
import pandas as pd
import shapely
from scipy import spatial

import pointpats


def _digest(b):
    return hashlib.blake2b(b, digest_size=12).hexdigest()


def freeze(x, depth=0):
    """a comparable description of everything a caller may see of an object"""
    if depth > 12:
        return "deep"
    f = lambda y: freeze(y, depth + 1)  # noqa: E731
    if x is None or isinstance(x, str | bytes | bool | int | complex):
        return (type(x).__name__, x)
    if isinstance(x, float):
        return ("float", repr(x))
    if isinstance(x, np.generic):
        return (type(x).__name__, x.tobytes())
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("ndarray", "object", x.shape, tuple(f(y) for y in x.ravel()))
        return ("ndarray", x.dtype.str, x.shape, x.flags.writeable, _digest(np.ascontiguousarray(x).tobytes()))
    if isinstance(x, shapely.Geometry):
        return (type(x).__name__, shapely.to_wkb(x, include_srid=True))
    if isinstance(x, pd.Index):
        return (type(x).__name__, str(x.dtype), tuple(f(n) for n in x.names), tuple(f(y) for y in x))
    if isinstance(x, pd.Series):
        return (
            type(x).__name__, str(x.dtype), f(x.name), f(x.index), str(getattr(x, "crs", None)),
            tuple(f(y) for y in x.array), f(dict(x.attrs)),
        )
    if isinstance(x, pd.DataFrame):
        geo = isinstance(x, gpd.GeoDataFrame)
        return (
            type(x).__name__, f(x.columns), f(x.index), tuple(f(x.iloc[:, i]) for i in range(x.shape[1])),
            x._geometry_column_name if geo else None, f(dict(x.attrs)),
        )
    if isinstance(x, pointpats.PointPattern):
        return (
            "PointPattern", f(x.df), f(x.points), f(x.coord_names), f(x._x), f(x._y), f(x.window), x.n, x._n_marks,
        )
    if isinstance(x, libpysal.cg.Polygon):
        return (type(x).__name__, f(x.parts), f(x.holes), f(x.vertices), f(x.len), x.area)
    if isinstance(x, spatial.ConvexHull):
        return ("ConvexHull", f(x.points), f(x.vertices), f(x.simplices), f(x.equations))
    if isinstance(x, libpysal.cg.kdtree.Arc_KDTree) or isinstance(x, spatial.KDTree):
        return (type(x).__name__, f(np.array(x.data)))
    if type(x).__module__.startswith("sklearn.neighbors"):
        return (type(x).__name__, f(np.array(x.data)))
    if isinstance(x, np.random.Generator | np.random.RandomState | np.random.BitGenerator):
        return (type(x).__name__, id(x))
    if isinstance(x, dict):
        return ("dict", tuple((f(k), f(v)) for k, v in x.items()))
    if isinstance(x, list | tuple):
        return (type(x).__name__, tuple(f(y) for y in x))
    if isinstance(x, set | frozenset):
        return (type(x).__name__, tuple(sorted(repr(f(y)) for y in x)))
    if type(x).__module__.startswith("pointpats"):
        # result objects: everything they store
        return (type(x).__name__, tuple(sorted((k, repr(f(v))) for k, v in vars(x).items())))
    if callable(x):
        return ("callable", id(x))
    if type(x).__module__.startswith(("matplotlib", "folium")):
        return (type(x).__name__,)
    if type(x).__module__.startswith("libpysal"):
        return (type(x).__name__, repr(x))
    return (type(x).__name__, repr(x))


def where(a, b, path=""):
    """the place where two snapshots differ"""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (p, q) in enumerate(zip(a, b, strict=True)):
            w = where(p, q, f"{path}.{i}")
            if w:
                return w
    return f"{path or '.'}: {repr(a)[:200]} became {repr(b)[:200]}"


def leaves(x, depth=0):
    """the contents of an object in order: arrays of floats and other comparable things"""
    if depth > 10:
        return ["deep"]
    f = lambda y: leaves(y, depth + 1)  # noqa: E731
    flat = lambda ys: [z for y in ys for z in f(y)]  # noqa: E731
    if isinstance(x, bool | np.bool_ | str | bytes) or x is None:
        return [repr(x)]
    if isinstance(x, int | float | np.integer | np.floating):
        return [np.array([float(x)])]
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "biuf":
            return [str(x.shape), x.astype(float).ravel()]
        return [str(x.shape), *flat(x.ravel().tolist())]
    if isinstance(x, shapely.Geometry):
        return [x.geom_type, shapely.get_coordinates(x).ravel()]
    if isinstance(x, pd.Index | pd.Series):
        return [type(x).__name__, *flat(list(x))]
    if isinstance(x, pd.DataFrame):
        return [type(x).__name__, *flat(list(x.columns)), *flat(list(x.index)), *flat([x.iloc[:, i] for i in range(x.shape[1])])]
    if isinstance(x, pointpats.PointPattern):
        return ["PointPattern", *f(x.df), *f(list(x.coord_names)), *f(x.window)]
    if isinstance(x, libpysal.cg.Polygon):
        return [type(x).__name__, *f(np.array(x.vertices, float)), *f(x.area)]
    if isinstance(x, spatial.ConvexHull):
        return ["ConvexHull", *f(x.points), *f(np.sort(x.vertices))]
    if hasattr(x, "query") and hasattr(x, "data"):
        return [type(x).__name__, *f(np.array(x.data))]
    if isinstance(x, dict):
        return ["dict", *flat(x.keys()), *flat(x.values())]
    if isinstance(x, list | tuple):
        return [type(x).__name__, *flat(x)]
    if isinstance(x, set | frozenset):
        return [type(x).__name__, str(len(x)), repr(sorted(map(repr, x)))]
    if type(x).__module__.startswith("pointpats"):
        d = vars(x)
        return [type(x).__name__, *flat([v for k in sorted(d) for v in (k, d[k])])]
    return [type(x).__name__]


def same_leaves(a, b, rtol=1e-6):
    """None, or the first place where two lists of leaves differ"""
    if len(a) != len(b):
        return f"{len(a)} and {len(b)} parts"
    for i, (p, q) in enumerate(zip(a, b, strict=True)):
        if isinstance(p, str) or isinstance(q, str):
            if not (isinstance(p, str) and isinstance(q, str) and p == q):
                return f"part {i}: {str(p)[:80]} and {str(q)[:80]}"
            continue
        if p.shape != q.shape:
            return f"part {i}: shapes {p.shape} and {q.shape}"
        if not p.size:
            continue
        fin = np.isfinite(p)
        if (fin != np.isfinite(q)).any() or not np.array_equal(p[~fin], q[~fin], equal_nan=True):
            return f"part {i}: {p[:5]} and {q[:5]}"
        if fin.any() and (np.abs(p[fin] - q[fin]) > rtol * np.abs(p[fin]).max()).any():
            k = int(np.argmax(np.abs(p[fin] - q[fin])))
            return f"part {i}: {p[fin][k]} and {q[fin][k]}"
    return None
