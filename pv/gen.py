"""Workload generators: event sets, representations, shapes."""

import geopandas as gpd
import numpy as np
import pandas as pd
import shapely

KINDS = (
    "uniform",
    "normal",
    "clusters",
    "lattice",
    "duplicates",
    "ring",
    "elongated",
    "gridlike",
    "heavy_tail",
)


def base_points(rng, n, kind):
    if kind == "uniform":
        return rng.random((n, 2))
    if kind == "normal":
        return rng.normal(size=(n, 2))
    if kind == "clusters":
        k = int(rng.integers(1, 5))
        c = rng.random((k, 2)) * 4
        return c[rng.integers(0, k, n)] + rng.normal(size=(n, 2)) * 0.1
    if kind == "lattice":
        m = int(rng.integers(2, 8))
        return rng.integers(0, m, (n, 2)).astype(float)
    if kind == "duplicates":
        m = max(1, n // 2)
        p = rng.random((m, 2))
        return p[np.r_[np.arange(m), rng.integers(0, m, n - m)]][rng.permutation(n)]
    if kind == "ring":
        t = rng.random(n) * 2 * np.pi
        return np.c_[np.cos(t), np.sin(t)]
    if kind == "elongated":
        a = rng.random() * np.pi
        p = rng.normal(size=(n, 2)) * [1, 0.05]
        return p @ np.array([[np.cos(a), np.sin(a)], [-np.sin(a), np.cos(a)]])
    if kind == "gridlike":
        m = int(np.ceil(np.sqrt(n)))
        g = np.array([(i, j) for i in range(m) for j in range(m)], float)
        return g[rng.permutation(len(g))[:n]] * [1.0, 0.5]
    if kind == "heavy_tail":
        return rng.standard_cauchy((n, 2)).clip(-1e3, 1e3)
    raise ValueError(kind)


def points(rng, n, kinds=KINDS, transform=True, mon=None):
    """n events as an (n, 2) float array"""
    kind = kinds[int(rng.integers(len(kinds)))]
    p = base_points(rng, n, kind)
    t = "plain"
    if transform:
        t = ("plain", "scaled", "negative", "utm", "tiny", "huge", "mixed", "block")[
            int(rng.choice(8, p=[0.3, 0.15, 0.15, 0.1, 0.08, 0.07, 0.1, 0.05]))
        ]
        if t == "scaled":
            p = p * 10.0 ** rng.integers(-1, 4)
        elif t == "negative":
            p = p * 50 - 100.0
        elif t == "utm":
            p = p * 1000 + [4.5e5, 5.1e6]
        elif t == "block":
            # a few metres somewhere on the map
            p = p * float(rng.choice([1, 10, 50])) + [4.5e5, 5.1e6]
        elif t == "tiny":
            p = p * float(rng.choice([1e-3, 1e-5, 1e-7]))
        elif t == "huge":
            p = p * 1e6
        elif t == "mixed":
            p = p * [1.0, 7.0] + [-300.0, 20.0]
    if mon is not None:
        mon.fp(p)
        mon.feature("points:" + kind, "transform:" + t, "n" + size_class(n))
    return p


def size_class(n):
    for m in (1, 2, 3, 5, 10, 30, 100, 300):
        if n <= m:
            return f"<={m}"
    return ">300"


def spread(p):
    """the extent of the events, the scale of tolerances"""
    return float(max(np.ptp(p, axis=0).max(), 0.0))


def mag(p):
    return float(np.abs(p).max())


def noncollinear(p, aspect=1e-3):
    if len(p) < 3:
        return False
    c = p - p.mean(axis=0)
    s = np.linalg.svd(c, compute_uv=False)
    return s[0] > 0 and s[1] / s[0] > aspect


def odd_index(rng, n):
    k = int(rng.integers(0, 4))
    if k == 0:
        return pd.RangeIndex(n)
    if k == 1:
        return pd.Index(rng.permutation(n) + 5)
    if k == 2:
        return pd.Index([f"e{i}" for i in rng.permutation(n)])
    return pd.Index(np.arange(n)[::-1])


def array_layout(rng, p):
    """the same values in another memory layout"""
    k = int(rng.integers(0, 5))
    if k == 0:
        return np.asfortranarray(p), "fortran"
    if k == 1:
        big = np.zeros((len(p) * 2, 3), p.dtype)
        big[::2, :2] = p
        return big[::2, :2], "strided"
    if k == 2:
        return p[::-1].copy()[::-1], "reversed view"
    if k == 3:
        q = p.copy()
        q.setflags(write=False)
        return q, "read-only"
    return p.copy(), "contiguous"


def geoseries(rng, p, crs=None):
    return gpd.GeoSeries(
        gpd.points_from_xy(p[:, 0], p[:, 1]), index=odd_index(rng, len(p)), crs=crs
    )


def geoframe(rng, p, crs=None, name=None):
    name = name or ("geometry", "geom", "shape")[int(rng.integers(3))]
    df = pd.DataFrame({"v": np.arange(len(p))}, index=odd_index(rng, len(p)))
    df[name] = gpd.points_from_xy(p[:, 0], p[:, 1])
    df["w"] = "x"
    return gpd.GeoDataFrame(df, geometry=name, crs=crs)


def multipoints(rng, p):
    """the same events, in order, as a series of MultiPoints"""
    cuts = sorted(set(rng.integers(1, len(p), size=3).tolist())) if len(p) > 1 else []
    parts = np.split(p, cuts)
    return gpd.GeoSeries([shapely.MultiPoint(q) for q in parts])


def star_polygon(rng, n=None, center=(0, 0), r=1.0, rmin=0.4):
    n = n or int(rng.integers(3, 12))
    while True:
        t = np.sort(rng.random(n) * 2 * np.pi)
        if n < 3 or np.max(np.diff(np.r_[t, t[0] + 2 * np.pi])) < np.pi * 0.95:
            break
    rad = r * (rmin + (1 - rmin) * rng.random(n))
    return shapely.Polygon(np.c_[np.cos(t), np.sin(t)] * rad[:, None] + center)


def holed_polygon(rng, center=(0, 0), r=1.0):
    while True:
        outer = star_polygon(rng, 9, center, r, rmin=0.8)
        # a hole well inside
        holes = [star_polygon(rng, 6, center, r * 0.3, rmin=0.5)]
        # and sometimes more around it
        for i in range(int(rng.choice([0, 1, 4], p=[0.7, 0.15, 0.15]))):
            a = (i + 0.2 * rng.random()) * 1.4
            h = star_polygon(rng, 5, np.asarray(center, float) + 0.48 * r * np.array([np.cos(a), np.sin(a)]), r * 0.11, rmin=0.5)
            if all(h.disjoint(x) for x in holes):
                holes.append(h)
        if all(outer.contains_properly(h) for h in holes):
            return shapely.Polygon(outer.exterior.coords, [h.exterior.coords for h in holes])


def multipolygon(rng, center=(0, 0), r=1.0):
    c = np.asarray(center, float)
    a = star_polygon(rng, 7, c + [-1.2 * r, 0], r, 0.5)
    b = holed_polygon(rng, c + [1.3 * r, 0.5 * r], r)
    more = [star_polygon(rng, 6, c + [(1.1 * i - 1.6) * r, -2 * r], 0.5 * r, 0.5) for i in range(int(rng.choice([0, 1, 3], p=[0.7, 0.15, 0.15])))]
    parts = [a, b, *more]
    return shapely.MultiPolygon([parts[i] for i in rng.permutation(len(parts))] if more else parts)


def window(mon, rng, kinds=("rectangle", "polygon", "holed", "parts"), scale=True):
    """a pysal window and the geometry it stands for"""
    import pointpats

    kind = kinds[int(rng.integers(len(kinds)))]
    r = 10.0 ** rng.integers(-2, 4) * (0.5 + rng.random()) if scale else 1.0
    c = rng.normal(size=2) * r * rng.choice([0, 1, 30])
    mon.feature("window:" + kind)
    if kind == "rectangle":
        b = np.r_[c, c + r * (0.2 + rng.random(2))]
        g = shapely.box(*b)
        if rng.random() < 0.5:
            return pointpats.as_window(pointpats.poly_from_bbox(b)), g
    elif kind == "polygon":
        g = star_polygon(rng, None, c, r)
    elif kind == "holed":
        g = holed_polygon(rng, c, r)
    else:
        g = shapely.MultiPolygon([star_polygon(rng, None, c + [3 * r * i, r * i], r) for i in range(int(rng.choice([2, 2, 2, 5])))])
    polys = list(getattr(g, "geoms", [g]))
    ring = lambda x: [tuple(map(float, v)) for v in x.coords]  # noqa: E731
    parts = [ring(p.exterior) for p in polys]
    holes = [ring(h) for p in polys for h in p.interiors]
    return pointpats.Window(parts, holes) if holes else pointpats.Window(parts), g


def now_and_then(rng, mon, n, large, share=0.015):
    """the number of events, rarely a large one"""
    u = rng.random()
    if u < share:
        mon.feature("many events")
        return int(large)
    if share and u < share + 0.02:
        mon.feature("more events")
        return int(np.exp(rng.uniform(np.log(max(n, 2)), np.log(max(large, n, 2)))))
    if n >= 6 and u > 0.6:
        # (nothing is special about the listed numbers)
        return int(n * rng.uniform(0.8, 1.35))
    return int(n)
