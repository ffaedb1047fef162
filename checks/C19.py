"""Geometry helpers against the shapes meant."""

import numpy as np
import shapely
from libpysal.cg import alpha_shape_auto
from scipy import spatial

from pointpats import geometry as geo
from pv import gen
from pv.core import Skip, scenario

from checks.C04 import chain

SCENARIOS = []
FILES = ["geometry.py"]
ASSUMPTIONS = ["containment in convex hulls is judged at least a relative 1e-7 away from their border"]


def polygon_area(v):
    """shoelace, from the first vertex"""
    w = v - v[0]
    x, y = w.T
    return abs(float((x * np.roll(y, -1) - y * np.roll(x, -1)).sum()) / 2)


def rings(g):
    for p in getattr(g, "geoms", [g]):
        yield np.array(p.exterior.coords)[:-1], 1
        for h in p.interiors:
            yield np.array(h.coords)[:-1], -1


def moments(g):
    """area and centroid of polygons with holes, from their rings"""
    o = np.array(next(rings(g))[0][0])
    a, m = 0.0, np.zeros(2)
    for v, sign in rings(g):
        v = v - o
        w = np.roll(v, -1, axis=0)
        c = v[:, 0] * w[:, 1] - v[:, 1] * w[:, 0]
        s = np.sign(c.sum()) * sign
        a += s * c.sum() / 2
        m += s * ((v + w) * c[:, None]).sum(axis=0) / 6
    return a, m / a + o


def even_odd(g, q):
    """crossing number over all rings"""
    inside = np.zeros(len(q), bool)
    for v, _ in rings(g):
        w = np.roll(v, -1, axis=0)
        for (x0, y0), (x1, y1) in zip(v, w):
            cross = (y0 > q[:, 1]) != (y1 > q[:, 1])
            with np.errstate(divide="ignore", invalid="ignore"):
                t = x0 + (q[:, 1] - y0) / (y1 - y0) * (x1 - x0)
            inside ^= cross & (q[:, 0] < t)
    return inside


def place(rng):
    r = 10.0 ** rng.integers(-3, 5) * (0.5 + rng.random())
    return rng.normal(size=2) * r * rng.choice([0, 1, 100]), r


def contains(mon, shape, q):
    # (plain numbers, numpy numbers)
    out = []
    for i, (x, y) in enumerate(q):
        r = mon.call(geo.contains, shape, *((x, y) if i % 2 else (float(x), float(y))))
        mon.expect(np.ndim(r) == 0 and bool(r) == r, "containment: a truth value", got=r)
        out.append(bool(r))
    return np.array(out)


@scenario(SCENARIOS, 400, 12000)
def boxes(mon, rng):
    c, r = place(rng)
    w = r * rng.choice([1e-3, 1, 1, 3], 2) * rng.random(2)
    box = np.r_[c - w, c + w]
    whole = rng.random() < 0.2
    if whole:
        box = np.r_[rng.integers(-9, 0, 2), rng.integers(1, 9, 2)]
        if rng.random() < 0.5:
            box = box.astype(float)
    elif rng.random() < 0.2:
        # small types, whose sums and differences do not fit them
        t = (np.int8, np.uint8, np.int16, np.uint16, np.int32)[int(rng.integers(5))]
        lim = np.iinfo(t) if np.issubdtype(t, np.integer) else np.iinfo(np.int16)
        q = np.sort(rng.integers(lim.min, lim.max, (2, 2), endpoint=True), axis=0)
        if rng.random() < 0.5:
            q = np.array([[lim.max - 9, lim.max - 30], [lim.max - 1, lim.max - 2]])
        if (q[0] < q[1]).all():
            box = q.ravel().astype(t)
            whole = True
            r = float(box[2]) - float(box[0])
    mon.feature(f"dtype:{box.dtype}")
    want = (float(box[2]) - float(box[0])) * (float(box[3]) - float(box[1]))
    mon.close(mon.call(geo.area, box), want, "area of a box", rtol=1e-12)
    mon.close(mon.call(geo.area, box.tolist()), want, "area of a box given as a list", rtol=1e-12)
    mon.expect((np.asarray(mon.call(geo.bbox, box)) == box).all(), "bounding box of a box: itself")
    mon.expect((np.asarray(mon.call(geo.bbox, box.tolist())) == box).all(), "bounding box of a box given as a list")
    mon.close(mon.call(geo.centroid, box), [(float(box[0]) + float(box[2])) / 2, (float(box[1]) + float(box[3])) / 2], "centroid of a box", rtol=1e-12, atol=1e-12 * np.abs(box.astype(float)).max())
    # closed: corners, edges, one step beyond
    x0, y0, x1, y1 = box.astype(float)
    xs = [x0, x1, (x0 + x1) / 2, np.nextafter(x0, -np.inf), np.nextafter(x1, np.inf), x0 - r, x1 + r]
    ys = [y0, y1, (y0 + y1) / 2, np.nextafter(y0, -np.inf), np.nextafter(y1, np.inf), y0 - r, y1 + r]
    q = np.array([(x, y) for x in xs for y in ys])[rng.permutation(49)[:16]]
    want = (q[:, 0] >= x0) & (q[:, 0] <= x1) & (q[:, 1] >= y0) & (q[:, 1] <= y1)
    got = contains(mon, box, q)
    mon.expect((got == want).all(), "containment in a closed box", at=q[got != want], box=box)


@scenario(SCENARIOS, 250, 6000)
def events(mon, rng):
    """arrays of points: their bounding box and mean"""
    n = gen.now_and_then(rng, mon, rng.choice([1, 2, 3, 4, 5, 30, 90]), rng.choice([2000, 12000]), 0.03)
    p = gen.points(rng, n, mon=mon)
    want = np.r_[p.min(axis=0), p.max(axis=0)]
    x, lay = gen.array_layout(rng, p)
    mon.feature("layout:" + lay)
    mon.expect((np.asarray(mon.call(geo.bbox, x)) == want).all(), "bounding box of points", want=want)
    mon.expect((np.asarray(mon.call(geo.bbox, p.tolist())) == want).all(), "bounding box of points given as lists", want=want)
    got = np.asarray(mon.call(geo.centroid, x))
    mon.close(got, p.mean(axis=0), "centroid of points", rtol=1e-9, atol=1e-12 * gen.mag(p))
    if n != 4:
        mon.refused(geo.area, x)


@scenario(SCENARIOS, 300, 8000)
def convex_hulls(mon, rng):
    n = gen.now_and_then(rng, mon, rng.choice([3, 4, 6, 15, 60]), 2000)
    p = gen.points(rng, n, mon=mon)
    if not gen.noncollinear(p, 1e-2):
        raise Skip
    if rng.random() < 0.15:
        # many corners
        mon.feature("round")
        t = np.sort(rng.random(n)) * 2 * np.pi
        p = np.c_[np.cos(t), np.sin(t)] * [1, rng.choice([1, 0.3])] * 10.0 ** rng.uniform(-2, 4)
        p = p[rng.permutation(n)]
        if not gen.noncollinear(p, 1e-2):
            raise Skip
    h = spatial.ConvexHull(p)
    v = p[h.vertices]
    s = gen.spread(p)
    tol = 1e-9 + 1e-13 * gen.mag(p) / s
    mon.close(mon.call(geo.area, h), polygon_area(v), "area of a convex hull", rtol=max(1e-9, 1e-12 * gen.mag(p) / s))
    mon.close(mon.call(geo.bbox, h), np.r_[p.min(axis=0), p.max(axis=0)], "bounding box of a convex hull", rtol=0, atol=1e-12 * s)
    mon.close(mon.call(geo.centroid, h), v.mean(axis=0), "centroid of a convex hull: mean of its corners", rtol=1e-9, atol=1e-12 * gen.mag(p))
    near = v[rng.integers(0, len(v), 6)]
    q = np.r_[v.mean(axis=0) + (rng.random((14, 2)) - 0.5) * 1.5 * s, p[:4] * 0.5 + v.mean(axis=0) * 0.5, v.mean(axis=0) + (near - v.mean(axis=0)) * np.repeat([1 - 1e-4, 1 + 1e-4], 3)[:, None]]
    w = np.roll(v, -1, axis=0)
    e = w - v
    side = (e[None, :, 0] * (q[:, None, 1] - v[None, :, 1]) - e[None, :, 1] * (q[:, None, 0] - v[None, :, 0])) / np.hypot(*e.T)[None] / s
    if polygon_area(v) > 0 and (np.cross(np.c_[e, 0 * e[:, 0]], np.c_[np.roll(e, -1, axis=0), 0 * e[:, 0]])[:, 2]).sum() < 0:
        side = -side
    clear = np.abs(side).min(axis=1) > 1e-7 + tol
    q, want = q[clear], (side[clear] > 0).all(axis=1)
    got = contains(mon, h, q)
    mon.expect((got == want).all(), "containment in a convex hull", at=q[got != want], hull=v)
    if rng.random() < 0.3:
        got = contains(mon, spatial.Delaunay(v), q)
        mon.expect((got == want).all(), "containment in a triangulation", at=q[got != want])


@scenario(SCENARIOS, 350, 9000)
def polygons(mon, rng):
    c, r = place(rng)
    k = int(rng.integers(0, 4))
    g = (gen.star_polygon, None, None)[0](rng, None, c, r) if k == 0 else gen.holed_polygon(rng, c, r) if k == 1 else gen.multipolygon(rng, c, r) if k == 2 else shapely.box(*c, *(c + r * rng.random(2) + 1e-3 * r))
    mon.feature(("polygon", "holed", "multi", "box")[k])
    mon.fp(shapely.get_coordinates(g))
    a, m = moments(g)
    s = float(np.ptp(shapely.get_coordinates(g), axis=0).max())
    far = float(np.abs(g.bounds).max())
    mon.close(mon.call(geo.area, g), a, "area of a polygon without its holes", rtol=1e-9 + 1e-12 * far / s)
    mon.close(mon.call(geo.bbox, g), np.r_[shapely.get_coordinates(g).min(axis=0), shapely.get_coordinates(g).max(axis=0)], "bounding box of a polygon", rtol=0)
    mon.close(mon.call(geo.centroid, g), m, "centroid of a polygon without its holes", rtol=0, atol=1e-9 * s + 1e-12 * far)
    b = np.array(g.bounds)
    q = rng.uniform(b[:2] - 0.1 * s, b[2:] + 0.1 * s, (14, 2))
    q = q[shapely.distance(g.boundary, shapely.points(q)) > 1e-9 * (s + far)]
    want = even_odd(g, q)
    got = contains(mon, g, q)
    mon.expect((got == want).all(), "containment in a polygon outside of its holes", at=q[got != want])


@scenario(SCENARIOS, 350, 9000)
def prepared(mon, rng):
    k = int(rng.integers(0, 6))
    n = int(rng.choice([5, 8, 20, 50] if k == 3 else [3, 4, 5, 20, 50]))
    p = gen.points(rng, n, mon=mon)
    if not gen.noncollinear(p, 5e-2) or len(np.unique(p, axis=0)) < min(n, 5):
        raise Skip
    box = np.r_[p.min(axis=0), p.max(axis=0)]
    if k == 0:
        got = mon.call(geo.prepare_hull, p) if rng.random() < 0.5 else mon.call(geo.prepare_hull, p, None)
        mon.expect(isinstance(got, np.ndarray) and got.shape == (4,) and (got == box).all(), "bounding box by default", got=got, want=box)
    elif k == 1:
        got = mon.call(geo.prepare_hull, p, "bbox")
        mon.expect(isinstance(got, np.ndarray) and got.shape == (4,) and (got == box).all(), "bounding box by name", got=got, want=box)
    elif k == 2:
        name = ("convex", "convex_hull", "convex hull")[int(rng.integers(3))]
        got = mon.call(geo.prepare_hull, p, name)
        mon.expect(isinstance(got, spatial.ConvexHull), "convex hull by name", got=got)
        g = shapely.convex_hull(shapely.multipoints(p - p[0]))
        mon.close(polygon_area(got.points[got.vertices]), g.area, "convex hull of the events", rtol=1e-9 + 1e-12 * gen.mag(p) / gen.spread(p))
        mon.expect((got.points == p).all(), "convex hull: of the events", got=got.points)
        if (p == np.round(p)).all() and np.abs(p).max() < 1e5:
            # whole coordinates: the corners are exact
            mon.feature("exact corners")
            corners, want = set(map(tuple, p[got.vertices].tolist())), set(map(tuple, chain(p).tolist()))
            mon.expect(corners == want and len(got.vertices) == len(corners), "convex hull: its corners", got=sorted(corners), want=sorted(want))
    elif k == 3:
        if rng.random() < 0.6 or len(np.unique(p, axis=0)) < len(p) or gen.mag(p) > 1e3 * gen.spread(p):
            raise Skip
        # (libpysal's search for alpha takes distances of one unit and more)
        p = (p - p.mean(axis=0)) / gen.spread(p) * 1e4
        if spatial.distance.pdist(p).min() < 2.1:
            raise Skip
        p = p[: int(rng.choice([4, 5, 6, 99]))]
        if not gen.noncollinear(p, 5e-2):
            raise Skip
        name = ("alpha", "alpha_shape", "α")[int(rng.integers(3))]
        got = mon.call(geo.prepare_hull, p, name)
        mon.expect(isinstance(got, (shapely.Polygon, shapely.MultiPolygon)), "alpha shape by name", got=type(got))
        far = shapely.distance(got, shapely.points(p)).max()
        mon.expect(far <= 1e-6 * gen.spread(p), "alpha shape: around all events", far=far)
        hull = shapely.convex_hull(shapely.multipoints(p))
        mon.expect(got.area <= hull.area * (1 + 1e-9) and got.within(hull.buffer(1e-6 * gen.spread(p))), "alpha shape: within the convex hull")
        want = alpha_shape_auto(p)
        mon.expect(got.symmetric_difference(want).area <= 1e-9 * hull.area, "alpha shape: that of the automatic search", got=got.area, want=want.area)
    else:
        c, r = place(rng)
        ready = (box + [-1, -2, 3, 4], shapely.box(*box), gen.multipolygon(rng, c, r), gen.holed_polygon(rng, c, r), spatial.ConvexHull(p), shapely.MultiPoint(p))[int(rng.integers(6))]
        mon.feature(f"ready:{type(ready).__name__}")
        keep = ready.copy() if isinstance(ready, np.ndarray) else shapely.get_coordinates(ready) if isinstance(ready, shapely.Geometry) else ready.points.copy()
        got = mon.call(geo.prepare_hull, p, ready)
        now = got if isinstance(got, np.ndarray) else shapely.get_coordinates(got) if isinstance(got, shapely.Geometry) else got.points
        mon.expect(type(got) is type(ready) and now.shape == keep.shape and (now == keep).all(), "ready shapes pass through", got=got, want=ready)
