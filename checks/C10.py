"""Windows against the geometry library: parts, holes, area, bounding box, containment."""

import libpysal
import numpy as np
import shapely

from pointpats import Window, as_window, poly_from_bbox, to_ccf
from pv import gen
from pv.core import scenario

SCENARIOS = []
FILES = ["window.py"]


def ring(rng, g, forced=None):
    """a ring of a geometry as a list of vertices: closed or not, in either direction"""
    c = [tuple(map(float, v)) for v in g.coords]
    if rng.random() < 0.5:
        c = c[::-1]
    if rng.random() < 0.4:
        c = c[:-1]
    return c


def canon(r):
    """a ring regardless of start, direction, closing"""
    r = [tuple(map(float, v)) for v in r]
    if r[0] == r[-1]:
        r = r[:-1]
    k = r.index(min(r))
    a = r[k:] + r[:k]
    b = [a[0]] + a[1:][::-1]
    return tuple(min(a, b))


def shape(mon, rng):
    c = rng.integers(-50, 50, 2) * 10.0 ** rng.integers(-1, 4)
    r = 10.0 ** rng.integers(-2, 4) * (0.5 + rng.random())
    if rng.random() < 0.1:
        mon.feature("tiny or huge")
        f = 10.0 ** int(rng.choice([-9, -6, -4, 6, 9]))
        c, r = np.rint(c) * f, r * f
    k = int(rng.integers(0, 6))
    if k == 0:
        g = gen.star_polygon(rng, None, c, r)
    elif k == 1:
        g = gen.holed_polygon(rng, c, r)
    elif k == 2:
        g = gen.multipolygon(rng, c, r)
    elif k == 3:
        g = shapely.MultiPolygon([gen.star_polygon(rng, None, c + [3 * r * i, r * i], r) for i in range(int(rng.integers(2, 5)))])
    elif k == 4:
        while True:
            outer = gen.star_polygon(rng, 15, c, r, 0.9)
            holes = [gen.star_polygon(rng, 5, c + np.array(d) * r * 0.4, r * 0.15) for d in ((1, 0), (-1, 0), (0, 1))]
            if all(outer.contains_properly(h) for h in holes):
                break
        g = shapely.Polygon(outer.exterior.coords, [h.exterior.coords for h in holes])
    else:
        w, h = r * (0.2 + rng.random(2))
        g = shapely.box(c[0], c[1], c[0] + w, c[1] + h)
    mon.feature(("star", "holed", "multi+hole", "multi", "three holes", "box")[k])
    mon.fp(shapely.get_coordinates(g))
    return g


def polys(g):
    return list(getattr(g, "geoms", [g]))


def locations(rng, g, m=60):
    """locations with distance from every edge, in and out of the window"""
    x0, y0, x1, y1 = g.bounds
    w, h = x1 - x0, y1 - y0
    p = np.c_[rng.uniform(x0 - 0.3 * w, x1 + 0.3 * w, m), rng.uniform(y0 - 0.3 * h, y1 + 0.3 * h, m)]
    extra = [shapely.get_coordinates(q.representative_point())[0] for q in polys(g)]
    for q in polys(g):
        for hole in q.interiors:
            extra.append(shapely.get_coordinates(shapely.Polygon(hole).representative_point())[0])
    p = np.r_[p, extra]
    d = shapely.distance(shapely.points(p), g.boundary)
    return p[d > 1e-6 * max(w, h)]


def judge(mon, w, g, rng, what):
    ps = polys(g)
    mon.expect(isinstance(w, Window), what + ": a window", got=type(w))
    parts = sorted(canon(p.exterior.coords) for p in ps)
    mon.expect(sorted(map(canon, w.parts)) == parts, what + ": parts", got=w.parts)
    holes = sorted(canon(r.coords) for p in ps for r in p.interiors)
    got = sorted(canon(h) for h in w.holes if len(h))
    mon.expect(got == holes, what + ": holes", got=w.holes)
    b = w.bounding_box
    mon.close([b.left, b.lower, b.right, b.upper], g.bounds, what + ": bounding box", rtol=1e-12)
    size = max(g.bounds[2] - g.bounds[0], g.bounds[3] - g.bounds[1])
    big = max(map(abs, g.bounds))
    mon.close(w.area, g.area, what + ": area", rtol=1e-9, atol=1e-12 * big * (size + big))
    pts = locations(rng, g)
    if rng.random() < 0.4:
        # locations that occur more than once
        pts = pts[rng.integers(len(pts), size=len(pts) + 5)]
        mon.feature("repeated locations")
    inside = shapely.contains_properly(g, shapely.points(pts))
    for c, i in zip(pts.tolist(), inside.tolist()):
        mon.expect(bool(w.contains_point(tuple(c))) == i, what + ": containment", at=c, inside=i)
    form = int(rng.integers(0, 3))
    arg = (pts, pts.tolist(), [tuple(c) for c in pts.tolist()])[form]
    f = mon.call(w.filter_contained, arg)
    mon.expect(len(f) == inside.sum() and np.array_equal(np.array(f).reshape(-1, 2), pts[inside]), what + ": filter returns the contained ones in order", got=f)
    mon.feature("some inside" if inside.any() else "none inside", "some outside" if not inside.all() else "none outside")


@scenario(SCENARIOS, 700, 8000)
def from_rings(mon, rng):
    g = shape(mon, rng)
    ps = polys(g)
    parts = [ring(rng, p.exterior) for p in ps]
    holes = [ring(rng, r) for p in ps for r in p.interiors]
    if len(parts) == 1 and len(holes) <= 1 and rng.random() < 0.4:
        mon.feature("flat rings")
        w = mon.call(Window, parts[0], holes[0]) if holes else mon.call(Window, parts[0])
    elif not holes:
        w = mon.call(Window, parts) if rng.random() < 0.5 else mon.call(Window, parts, [])
    else:
        w = mon.call(Window, parts, holes)
    judge(mon, w, g, rng, "rings")
    if rng.random() < 0.3:
        # another one afterwards does not disturb the first
        other = gen.holed_polygon(rng, (5, 5), 2)
        Window([list(other.exterior.coords)], [list(other.interiors[0].coords)])
        judge(mon, w, g, rng, "rings, after another window")


@scenario(SCENARIOS, 700, 8000)
def from_polygon(mon, rng):
    g = shape(mon, rng)
    ps = polys(g)
    parts = [ring(rng, p.exterior) for p in ps]
    holes = [ring(rng, r) for p in ps for r in p.interiors]
    p = libpysal.cg.Polygon(parts, holes or None)
    w = mon.call(as_window, p)
    judge(mon, w, g, rng, "polygon")
    judge(mon, mon.call(as_window, w), g, rng, "window of a window")


@scenario(SCENARIOS, 200, 4000)
def from_box(mon, rng):
    lo = rng.normal(size=2) * 10.0 ** rng.integers(-2, 6)
    hi = lo + rng.random(2) * 10.0 ** rng.integers(-1, 4) + 1e-3 * (1 + np.abs(lo).max())
    box = (*lo, *hi)
    arg = (box, list(box), np.array(box))[int(rng.integers(3))]
    p = mon.call(poly_from_bbox, arg)
    judge(mon, mon.call(as_window, p), shapely.box(*box), rng, "box")
    # boxes of events in a row, or at one place
    flat = np.array(box)
    for i in range(2):
        if rng.random() < 0.6:
            flat[i + 2] = flat[i]
    w = mon.call(as_window, mon.call(poly_from_bbox, flat.tolist()))
    mon.expect(tuple(map(float, w.bbox)) == tuple(flat.tolist()), "flat box: bounding box", got=w.bbox, want=flat)


@scenario(SCENARIOS, 200, 4000)
def closing(mon, rng):
    n = int(rng.integers(2, 9))
    c = [tuple(v) for v in rng.integers(-4, 5, (n, 2)).tolist()]
    if len(set(c)) < n:
        c = list(dict.fromkeys(c))
    if rng.random() < 0.4:
        # ends that are close together, but not the same
        c = [(x * 1.0 + 450000, y * 1.0) for x, y in c]
        c.append((c[0][0] + float(rng.choice([1e-9, 1e-6, 0.01])), c[0][1]))
        mon.feature("close ends")
    closed = c + [c[0]]
    mon.fp(c)
    if len(c) < 2:
        return
    got = mon.call(to_ccf, list(c))
    mon.expect(list(got) == closed, "closing repeats the first vertex", got=got, want=closed)
    got = mon.call(to_ccf, list(closed))
    mon.expect(list(got) == closed, "closed rings stay", got=got, want=closed)
    got = mon.call(to_ccf, mon.call(to_ccf, list(c)))
    mon.expect(list(got) == closed, "closing is idempotent", got=got)
    # a vertex repeated inside does not count as closed
    if n > 2:
        r = c[:2] + [c[0]] + c[2:]
        if r[-1] != r[0]:
            mon.expect(list(mon.call(to_ccf, list(r))) == r + [r[0]], "closing compares both ends", got=r)
