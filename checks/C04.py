"""Hull, bounding box and rotated rectangle against a monotone chain and edge search."""

import geopandas as gpd
import numpy as np
import shapely

from pointpats import centrography as cg
from pv import gen
from pv.core import scenario

SCENARIOS = []
FILES = ["centrography.py"]


def chain(p):
    """monotone chain hull, counter-clockwise, of distinct points"""
    q = sorted(set(map(tuple, p.tolist())))

    def half(pts):
        out = []
        for c in pts:
            while len(out) > 1:
                (ax, ay), (bx, by) = out[-2:]
                if (bx - ax) * (c[1] - ay) - (by - ay) * (c[0] - ax) > 0:
                    break
                out.pop()
            out.append(c)
        return out[:-1]

    return np.array(half(q) + half(q[::-1]))


def shoelace(v):
    o = v - v[0]
    x, y = o.T
    return 0.5 * float(np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y))


def outside(v, p):
    """how far the farthest p is outside the ccw polygon v"""
    worst = 0.0
    for a, b in zip(v, np.roll(v, -1, axis=0)):
        e = b - a
        ln = np.hypot(*e)
        if ln == 0:
            continue
        d = (e[0] * (p[:, 1] - a[1]) - e[1] * (p[:, 0] - a[0])) / ln
        worst = max(worst, float(-d.min()))
    return worst


def smallest_rectangle(h):
    """the area of the smallest rectangle along a hull edge"""
    best = np.inf
    for a, b in zip(h, np.roll(h, -1, axis=0)):
        e = b - a
        ln = np.hypot(*e)
        if ln == 0:
            continue
        u = e / ln
        o = np.array([-u[1], u[0]])
        q = h - h[0]
        best = min(best, np.ptp(q @ u) * np.ptp(q @ o))
    return best


def make(mon, rng):
    n = gen.now_and_then(rng, mon, rng.choice([3, 4, 5, 6, 9, 15, 40, 120]), rng.choice([600, 2500, 11000]), 0.03)
    p = gen.points(rng, n, mon=mon)
    k = rng.random()
    if k < 0.15:
        mon.feature("square corners present")
        p = np.r_[p, [[p[:, 0].min(), p[:, 1].min()], [p[:, 0].max(), p[:, 1].max()], [p[:, 0].min(), p[:, 1].max()]]]
    elif k < 0.3:
        # a rotated rectangle's corners and some inner events
        a = float(rng.choice([0, np.pi / 6, np.pi / 4, np.pi / 2, 2.0, rng.random() * np.pi, 10.0 ** -rng.uniform(3, 6)]))
        w, h = 1 + rng.random(2) * 5
        q = np.r_[[[0, 0], [w, 0], [w, h], [0, h]], rng.random((n, 2)) * [w, h]]
        p = q @ np.array([[np.cos(a), np.sin(a)], [-np.sin(a), np.cos(a)]]) + rng.integers(-100, 100, 2)
        mon.feature("rectangle")
    elif k < 0.4:
        # many collinear and coincident events
        a = rng.random() * np.pi
        p = rng.normal(size=(int(rng.choice([55, 120])), 2)) * [1, 0.05]
        p = np.round(p @ np.array([[np.cos(a), np.sin(a)], [-np.sin(a), np.cos(a)]]) * 10 ** rng.uniform(0.5, 2))
        mon.feature("narrow lattice")
    if rng.random() < 0.15:
        p = np.round(p)
        mon.feature("dtype:int")
    if not gen.noncollinear(p, 1e-3):
        p = rng.normal(size=(n, 2))
    if (p == np.round(p)).all():
        p = p.astype(int) if rng.random() < 0.6 else p
    p = p[rng.permutation(len(p))]
    return p


def eps(f):
    return 1e-9 * gen.spread(f) + 1e-13 * gen.mag(f)


def judge_hull(mon, v, f, where):
    e = eps(f)
    events = set(map(tuple, f.tolist()))
    mon.expect(v.ndim == 2 and v.shape[1] == 2 and len(v) >= 3, where + ": at least three vertices", got=v)
    mon.expect(all(tuple(c) in events for c in v.tolist()), where + ": vertices are events", got=v)
    mon.expect(len(set(map(tuple, v.tolist()))) == len(v), where + ": each vertex once", got=v)
    a, b, c = v, np.roll(v, -1, axis=0), np.roll(v, -2, axis=0)
    cross = (b - a)[:, 0] * (c - b)[:, 1] - (b - a)[:, 1] * (c - b)[:, 0]
    mon.expect((cross >= -e * gen.spread(f)).all(), where + ": convex and counter-clockwise", got=v)
    # a polygon winding once has the sum of turns 2 pi
    ang = np.arctan2((b - a)[:, 1], (b - a)[:, 0])
    turn = (np.roll(ang, -1) - ang + np.pi) % (2 * np.pi) - np.pi
    mon.close(turn.sum(), 2 * np.pi, where + ": winds once", atol=1e-3)
    mon.expect(outside(v, f) <= e, where + ": contains every event", out=outside(v, f), v=v)
    ref = chain(f)
    mon.close(shoelace(v), shoelace(ref), where + ": area of the hull", rtol=1e-8, atol=e * gen.spread(f))


def rect_eps(f):
    return 2e-8 * gen.spread(f) + 1e-13 * gen.mag(f)


def judge_rectangle(mon, r, f, where):
    """r: four corners in either direction"""
    e = rect_eps(f)
    mon.expect(r.shape == (4, 2), where + ": four corners", got=r)
    if shoelace(r) < 0:
        r = r[::-1]
    s = np.roll(r, -1, axis=0) - r
    ln = np.hypot(*s.T)
    mon.close(s[0] + s[2], [0, 0], where + ": parallel sides", atol=10 * e)
    dots = np.abs((s * np.roll(s, -1, axis=0)).sum(axis=1))
    mon.expect((dots <= 10 * e * ln.max()).all(), where + ": right angles", got=r)
    mon.expect(outside(r, f) <= 10 * e, where + ": contains every event", out=outside(r, f), got=r)
    best = smallest_rectangle(chain(f))
    mon.close(ln[0] * ln[1], best, where + ": no aligned rectangle is smaller", rtol=1e-6, atol=10 * e * gen.spread(f), got_corners=r)


def judge_angle(mon, angle, r, f, where):
    s = np.roll(r, -1, axis=0) - r
    ln = np.hypot(*s.T)
    k = int(np.argmax(ln))
    want = np.degrees(np.arctan2(s[k][1], s[k][0])) % 90
    gap = abs(float(angle) - want) % 90
    gap = min(gap, 90 - gap)
    mon.expect(0 <= float(angle) <= 90, where + ": within a quarter turn", angle=angle)
    short = ln.min()
    mon.expect(gap <= 1e-6 + np.degrees(10 * rect_eps(f) / short), where + ": of the first side", angle=angle, want=want)


@scenario(SCENARIOS, 1500, 15000)
def arrays(mon, rng):
    p = make(mon, rng)
    f = p.astype(float)
    x = p.tolist() if rng.random() < 0.3 else gen.array_layout(rng, p)[0]
    judge_hull(mon, np.asarray(mon.call(cg.hull, x), float), f, "hull")
    got = mon.call(cg.minimum_bounding_rectangle, x)
    want = (*f.min(axis=0), *f.max(axis=0))
    mon.expect(tuple(map(float, got)) == tuple(map(float, want)), "bounding rectangle: exact", got=got, want=want)
    r = np.asarray(mon.call(cg.minimum_rotated_rectangle, x), float)
    judge_rectangle(mon, r, f, "rotated rectangle")
    out = mon.call(cg.minimum_rotated_rectangle, x, return_angle=True)
    mon.expect(len(out) == 2 and np.array_equal(out[0], r), "rotated rectangle: the same with its angle", got=out)
    judge_angle(mon, out[1], r, f, "angle")


@scenario(SCENARIOS, 600, 8000)
def geometries(mon, rng):
    f = make(mon, rng).astype(float)
    x = gen.geoseries(rng, f) if rng.random() < 0.5 else gen.geoframe(rng, f)
    if mon.index % 5 == 0:
        mon.feature("multipoints")
        x = gen.multipoints(rng, f)
        x = x if rng.random() < 0.5 else gpd.GeoDataFrame(geometry=x)
    h = mon.call(cg.hull, x)
    mon.expect(isinstance(h, shapely.Polygon) and not h.interiors, "hull: a polygon", got=h)
    v = shapely.get_coordinates(h.exterior)[:-1]
    if shoelace(v) < 0:
        v = v[::-1]
    judge_hull(mon, v, f, "hull")
    b = mon.call(cg.minimum_bounding_rectangle, x)
    want = (*f.min(axis=0), *f.max(axis=0))
    mon.expect(isinstance(b, shapely.Polygon) and tuple(b.bounds) == tuple(want) and b.equals(shapely.box(*want)), "bounding rectangle: exact polygon", got=b, want=want)
    g = mon.call(cg.minimum_rotated_rectangle, x)
    r = shapely.get_coordinates(g)[:-1]
    judge_rectangle(mon, r, f, "rotated rectangle")
    out = mon.call(cg.minimum_rotated_rectangle, x, return_angle=True)
    mon.expect(len(out) == 2 and out[0].equals(g), "rotated rectangle: the same with its angle", got=out)
    judge_angle(mon, out[1], r, f, "angle")
    arr = np.asarray(mon.call(cg.minimum_rotated_rectangle, f))
    mon.close(np.sort(arr, axis=0), np.sort(r, axis=0), "rotated rectangle: as of the array", atol=10 * rect_eps(f))


@scenario(SCENARIOS, 60, 500)
def boxes_of_degenerate_sets(mon, rng):
    """one event, coincident and collinear events still have a bounding rectangle"""
    n = int(rng.choice([1, 2, 3, 10]))
    p = np.outer(rng.integers(-3, 4, n), rng.integers(-2, 3, 2)) + rng.integers(-5, 5, 2)
    got = mon.call(cg.minimum_bounding_rectangle, p.tolist() if rng.random() < 0.5 else p.astype(float))
    want = (*p.min(axis=0), *p.max(axis=0))
    mon.expect(tuple(map(float, got)) == tuple(map(float, want)), "bounding rectangle: degenerate", got=got, want=want)
